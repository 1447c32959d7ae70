// C03: an out-of-range element is refused, an existing one is designated
#include "h.h"
using namespace libube;
static const int IDX[] = {INT_MIN, INT_MIN + 1, -100, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 100, INT_MAX - 1, INT_MAX};
static const int NI = sizeof IDX / sizeof *IDX;
CASE(array, 8 * 18 * 22) {
    int t = ELTYPES[k % 8], n = (k / 8) % 18, i = IDX[k / 144];
    G g = garray(r, t, n); logf("array %s index %d\n", g.s.c_str(), i);
    std::vector<std::string> e; for (int j = 0; j < n; j++) e.push_back(repel(g.v.heap(), j));
    bool in = i >= 0 && i < n;
    const var c = g.v;
    if (in) {
        MUSTNOT(EQ(rep(g.v.at(i)), e[i], "at(%d)", i), "at(%d) throws", i);
        MUSTNOT(EQ(rep(c[i]), e[i], "const [%d]", i), "const [%d] throws", i);
        MUSTNOT(EQ(repe(g.v.heap()->at(i)), e[i], "heap at(%d)", i), "heap at(%d) throws", i);
        if (n) { G h = garray(r, t, n); std::vector<std::string> f; for (int j = 0; j < n; j++) if (j != i) f.push_back(repel(h.v.heap(), j));
            std::string x = repel(h.v.heap(), i);
            MUSTNOT(EQ(repe(h.v.remove(i)), x, "remove(%d)", i), "remove(%d) throws", i); EQ(rep(h.v), joinrep(f, t), "after remove(%d)", i); }
    } else {
        MUSTTHROW(g.v.at(i), "at(%d) is not refused", i);
        MUSTTHROW(c[i], "const [%d] is not refused", i);
        MUSTTHROW(g.v.heap()->at(i), "heap at(%d) is not refused", i);
        MUSTTHROW(g.v.remove(i), "remove(%d) is not refused", i);
        if (i < 0) MUSTTHROW(g.v[i], "[%d] is not refused", i);
    }
    MUSTTHROW(g.v.heap()->key(i), "key of an array"); MUSTTHROW(g.v.key(i), "key of an array");
    if (i < 0 || i > n) MUSTTHROW(g.v.insert(var(1), i), "insert at %d is not refused", i);
    else { G h = garray(r, t, n); MUSTNOT(h.v.insert(t == TYPE_CHAR ? var('x') : var(1), i), "insert at %d throws", i); CHECK(h.v.size() == n + 1, "size after insert"); }
    EQ(rep(g.v), g.s, "array after refused operations"); CHECK(g.v.size() == n, "size");
    if (!n) { MUSTTHROW(g.v.pop(), "pop of an empty array is not refused"); MUSTTHROW(g.v.shift(), "shift of an empty array is not refused"); EQ(rep(g.v), g.s, "empty array"); }
    else { MUSTNOT(EQ(repe(g.v.shift()), e[0], "shift"), "shift throws"); if (n > 1) MUSTNOT(EQ(repe(g.v.pop()), e[n - 1], "pop"), "pop throws"); }
}
CASE(scalar, 7 * 22) {
    int i = IDX[k / 7], t = k % 7; var v; std::string s = "U"; if (t < 6) { G g = gscalar(r, SCALARS[t]); v = g.v; s = g.s; }
    logf("scalar %s index %d\n", s.c_str(), i);
    if (t < 6 && i == 0) EQ(rep(v.at(0)), s, "at(0)"); else MUSTTHROW(v.at(i), "at(%d) of %s is not refused", i, s.c_str());
    if (t == 6) { MUSTTHROW(v.pop(), "pop of nil"); MUSTTHROW(v.remove(i), "remove from nil"); }
    if (i != 0 || t == 6) MUSTTHROW(v.remove(i), "remove(%d) from %s", i, s.c_str());
    EQ(rep(v), s, "value");
}
CASE(map, 12 * 22) {
    int n = k % 12, i = IDX[k / 12]; var m; m[nil]; for (int j = 0; j < n; j++) m[var(j * 2)] = var(j * 10);
    std::string s = rep(m); logf("map %s index %d\n", s.c_str(), i);
    if (i >= 0 && i < n) { EQ(rep(m.key(i)), R(i * 2), "key(%d)", i); EQ(rep(m.at(i)), R(i * 10), "at(%d)", i); EQ(rep(m.heap()->key(i)), R(i * 2), "heap key(%d)", i); EQ(rep(m.heap()->at(i, true)), R(i * 2), "heap at key"); }
    else { MUSTTHROW(m.key(i), "key(%d) is not refused", i); MUSTTHROW(m.at(i), "at(%d) is not refused", i); MUSTTHROW(m.heap()->at(i, true), "heap at(%d,true) is not refused", i); MUSTTHROW(m.remove(i), "remove(%d) is not refused", i); MUSTTHROW(m.heap()->key(i), "heap key(%d) is not refused", i); }
    EQ(rep(m), s, "map");
}
CASE(view) {
    int t = ELTYPES[r.in(0, 7)], d = r.in(1, 4); std::vector<int> sh; int n = 1;
    for (int j = 0; j < d; j++) { sh.push_back(r.in(d > 2 ? 1 : 0, 4)); n *= sh[j]; }
    int off = r.in(0, 5), extra = r.in(0, 5); if (!n) { extra = 1; for (int x : sh) extra *= std::max(1, x); } G g = garray(r, t, n + off + extra);
    var shape; shape.resize(0); for (int x : sh) shape.push(x);
    shape = var(d, sh.data());
    var v = g.v.view(shape, off);
    logf("view dim %d offset %d of %s\n", d, off, g.s.c_str()); for (int x : sh) logf(" %d", x);
    for (int rpt = 0; rpt < 20; rpt++) {
        int i[4], p = 0; bool in = true;
        for (int j = 0; j < 4; j++) { i[j] = r.p(1, 8) ? IDX[r.in(0, NI - 1)] : r.in(-1, 4); }
        for (int j = 0, st = n; j < d; j++) { if (i[j] < 0 || i[j] >= sh[j]) { in = false; break; } st /= sh[j]; p += i[j] * st; }
        auto call = [&] { switch (d) { case 1: return v(i[0]); case 2: return v(i[0], i[1]); case 3: return v(i[0], i[1], i[2]); } return v(i[0], i[1], i[2], i[3]); };
        logf("index (%d,%d,%d,%d)\n", i[0], i[1], i[2], i[3]);
        bool big = false; for (int j = 0; j < d; j++) if (std::abs((long)i[j]) > 1000) big = true;
        if (big) { for (int j = 0; j < d; j++) if (std::abs((long)i[j]) > 1000) i[j] = i[j] < 0 ? -1000 : 1000; in = false; }
        if (in) MUSTNOT(EQ(rep(call()), repel(g.v.heap(), off + p), "element"), "existing element refused");
        else MUSTTHROW(call(), "index is not refused");
        int a = r.p(1, 3) ? IDX[r.in(0, NI - 1)] : r.in(-2, n + 2);
        if (a >= 0 && a < n) MUSTNOT(EQ(repe(v.at(a)), repel(g.v.heap(), off + a), "view at(%d)", a), "view at(%d) throws", a);
        else { MUSTTHROW(v.at(a), "view at(%d) is not refused", a); MUSTTHROW(v.heap()->at(a), "view heap at(%d) is not refused", a); }
        int q = r.p(1, 4) ? r.of(std::vector<int>{INT_MIN, INT_MAX, 1 << 30, -(1 << 30), 1000}) : r.in(-3, 6);
        if (q >= 0 && q < d) { CHECK(v.heap()->shape(q) == sh[q], "shape(%d)", q); CHECK(v.shape(q) == sh[q], "shape(%d)", q); CHECK(v.stride(q) >= 0, "stride"); if (sh[q]) MUSTNOT(v.bounds(q, sh[q] - 1), "bounds"); MUSTTHROW(v.bounds(q, sh[q]), "bounds"); MUSTTHROW(v.bounds(q, -1), "bounds"); }
        else if (q > -1000 && q < 1000) { MUSTTHROW(v.heap()->shape(q), "heap shape(%d) is not refused", q); MUSTTHROW(v.stride(q), "stride(%d) is not refused", q); if (q >= d || q < -d) MUSTTHROW(v.shape(q), "shape(%d) is not refused", q); }
    }
    EQ(rep(g.v), g.s, "storage");
    var x = g.v; if (d > 0) { MUSTTHROW(x.heap()->shape(0), "shape of an array through the heap"); MUSTTHROW(x.shape(1), "shape(1) of an array"); MUSTTHROW(x.stride(1), "stride(1) of an array"); CHECK(x.shape(0) == x.size(), "shape(0)"); }
}
