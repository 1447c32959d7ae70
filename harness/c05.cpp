// C05: views and their storage show the same elements
#include "h.h"
using namespace libube;
struct V { G g; var v; std::vector<int> sh; int n, p, off, t; };
static V mkview(Rng& r, bool vals = true) {
    V x; x.t = ELTYPES[r.in(0, 7)]; int d = r.in(1, 4); x.p = 1;
    for (int i = 0; i < d; i++) { x.sh.push_back(r.in(1, 4)); x.p *= x.sh[i]; }
    x.off = r.in(0, 5); x.n = x.p + x.off + r.in(0, 5);
    x.g = garray(r, x.t, x.n);
    int via = r.in(0, 1);
    if (via && x.off) { int o1 = r.in(0, x.off); var w = x.g.v.view({x.n - o1}, o1); x.v = w.view(var(d, x.sh.data()), x.off - o1); }
    else { x.v = x.g.v.view(var(d, x.sh.data()), x.off); }
    logf("view offset %d shape", x.off); for (int s : x.sh) logf(" %d", s); logf(" of %s\n", x.g.s.c_str());
    return x;
}
static var multi(V& x, const int* i) {
    switch (x.sh.size()) { case 1: return x.v(i[0]); case 2: return x.v(i[0], i[1]); case 3: return x.v(i[0], i[1], i[2]); }
    return x.v(i[0], i[1], i[2], i[3]);
}
CASE(read) {
    V x = mkview(r); IHeap* b = x.g.v.heap(); int i[4] = {0, 0, 0, 0}, lin = 0;
    do {
        int p = 0; for (size_t d = 0; d < x.sh.size(); d++) p = p * x.sh[d] + i[d];
        int q = 0; for (size_t d = 0; d < x.sh.size(); d++) q += i[d] * x.v.stride(d);
        CHECK(p == q && p == lin, "strides are not row-major");
        std::string e = repel(b, x.off + p);
        EQ(rep(multi(x, i)), e, "multi-dimensional index %d", p); EQ(rep(x.v.at(p)), e, "at(%d)", p); EQ(rep(x.v[p]), e, "[%d]", p); EQ(repe(x.v.heap()->at(p)), e, "heap at(%d)", p); EQ(repel(x.v.heap(), p), e, "ptr(%d)", p);
        const var c = x.v; EQ(rep(c[p]), e, "const [%d]", p);
        var a = x.v.at(p), z = x.g.v.at(x.off + p);
        CHECK(a.size() == z.size() && a.type() == z.type() && a.defined() == z.defined(), "size, type or definedness of element %d", p);
        if (z.defined()) CHECK(a.atype() == z.atype(), "atype of element %d", p);
        CHECK(a.heap() == z.heap(), "heap of element %d", p); CHECK(a == z, "element %d compares different", p); CHECK(!(a < z), "element %d compares less", p);
        lin++;
        int d = (int)x.sh.size() - 1; while (d >= 0 && ++i[d] == x.sh[d]) i[d--] = 0;
        if (d < 0) break;
    } while (true);
    EQ(rep(x.g.v), x.g.s, "storage after reading");
}
CASE(write) {
    V x = mkview(r); IHeap* b = x.g.v.heap(); std::vector<std::string> e; for (int i = 0; i < x.n; i++) e.push_back(repel(b, i));
    for (int c = 0; c < 6; c++) {
        int i[4], p = 0; for (size_t d = 0; d < x.sh.size(); d++) { i[d] = r.in(0, x.sh[d] - 1); p = p * x.sh[d] + i[d]; }
        G y = x.t == TYPE_VAR ? gvalue(r, 1, true) : x.t == TYPE_CDOUBLE ? G{var(cdouble(r.in(1, 9), 2)), ""} : gscalar(r, x.t);
        if (x.t == TYPE_CDOUBLE) y.s = repe(y.v);
        int how = r.in(0, 5); logf("write %s at %d, way %d\n", y.s.c_str(), p, how);
        if (how == 3 && (x.t == TYPE_VAR || x.t == TYPE_CDOUBLE)) how = 0;
        switch (how) {
        case 0: x.v.at(p) = y.v; break; case 1: x.v[p] = y.v; break; case 2: multi(x, i) = y.v; break;
        case 3: switch (x.t) { case TYPE_CHAR: *x.v.at(p).ptr<char>() = y.v.get<char>(); break; case TYPE_INT: *x.v.ptr<int>(p) = y.v.get<int>(); break; case TYPE_LONG: *x.v.ptr<long>(p) = y.v.get<long>(); break;
                case TYPE_FLOAT: *x.v.ptr<float>(p) = y.v.get<float>(); break; case TYPE_DOUBLE: *x.v.at(p).ptr<double>() = y.v.get<double>(); break; case TYPE_CFLOAT: *x.v.ptr<cfloat>(p) = y.v.get<cfloat>(); break; } break;
        case 4: x.g.v.at(x.off + p) = y.v; break;
        case 5: { var z = x.v.at(p); z = y.v; } break;
        }
        e[x.off + p] = y.s;
        EQ(rep(x.g.v), joinrep(e, x.t), "storage after the write");
        EQ(rep(x.v.at(p)), y.s, "element through the view");
        std::vector<std::string> vw(e.begin() + x.off, e.begin() + x.off + x.p), got; for (int j = 0; j < x.p; j++) got.push_back(repel(x.v.heap(), j));
        EQ(joinrep(got, x.t), joinrep(vw, x.t), "view after the write");
    }
}
CASE(compare) {     // comparing through views is comparing the elements
    V x = mkview(r); std::vector<std::string> e; IHeap* b = x.g.v.heap();
    var c = x.t == TYPE_VAR || x.t == TYPE_CDOUBLE ? x.g.v.copy() : x.g.v.copy(); var w = c.view(var((int)x.sh.size(), x.sh.data()), x.off);
    CHECK(w == x.v, "equal views compare different"); CHECK(!(w < x.v) && !(x.v < w), "equal views are ordered");
    if (x.t == TYPE_CDOUBLE || x.t == TYPE_CFLOAT) return;
    // a change outside the view does not matter, inside it does
    int i = r.in(0, x.n - 1); bool in = i >= x.off && i < x.off + x.p; var old; old = c.at(i);
    if (!old.defined() || old.heap()) return;
    var nw = old.cast<int>() == 3 ? 4 : 3; logf("storage element %d changed\n", i); c.at(i) = nw;
    CHECK((w != x.v) == in, "comparison does not look at exactly the elements of the view");
    if (in) { std::string cv = rep(nw < old ? w : x.v); CHECK((w < x.v) == (c.at(i) < x.g.v.at(i)), "order of views"); }
    var flat; flat = x.v; (void)flat; (void)b;
}
CASE(refuse) {
    V x = mkview(r); int k2 = r.in(0, 13); std::string s = rep(x.g.v), vs = rep(x.v); bool t;
    var y = x.t == TYPE_CHAR ? var('q') : x.t == TYPE_VAR ? var("s") : var(3); if (r.p(1, 2) && x.t != TYPE_VAR) y = gscalar(r, x.t == TYPE_CDOUBLE ? TYPE_CFLOAT : x.t).v;
    logf("refused operation %d\n", k2);
    int i = r.in(0, x.p - 1); static const char cs[] = "zz"; static const int is[] = {1, 2}; static const cdouble zs[] = {1, 2};
    t = throws([&] { switch (k2) {
        case 0: x.v.push(y); break; case 1: x.v.pop(); break; case 2: x.v.resize(x.p + 1 + r.in(0, 9)); break; case 3: x.v.resize(x.p - 1); break; case 4: x.v.shift(); break; case 5: x.v.unshift(y); break;
        case 6: x.v.insert(y, i); break; case 7: x.v.remove(i); break; case 8: x.v[x.p + r.in(0, 3)] = y; break; case 9: x.v.append(y); break; case 10: x.v.append(2, is); break; case 11: x.v.append(1, cs); break; case 12: x.v.append(2, zs); break; case 13: x.v.presize(x.p + 20); break; } });
    CHECK(t, "an operation that would change the length of a view is not refused");
    EQ(rep(x.v), vs, "view after the refused operation"); EQ(rep(x.g.v), s, "storage after the refused operation");
}
CASE(mapview) {
    var m; m[nil]; int n = r.in(1, 9); for (int i = 0; i < n; i++) m[var(i * 2)] = gvalue(r, 0, false).v; std::string s = rep(m); int o = r.in(0, n - 1), p = r.in(1, n - o);
    var v = m.view({p}, o); logf("view %d+%d of %s\n", o, p, s.c_str());
    for (int i = 0; i < p; i++) { EQ(rep(v.key(i)), rep(m.key(o + i)), "key %d", i); EQ(rep(v.at(i)), rep(m.at(o + i)), "value %d", i); EQ(rep(v.heap()->key(i)), R(2 * (o + i)), "heap key"); }
    MUSTTHROW(v.key(p), "key past the view"); MUSTTHROW(v.key(-1), "key before the view");
    int i = r.in(0, p - 1); v.at(i) = 77; EQ(rep(m.at(o + i)), R(77), "write through a view of a map");
    EQ(rep(m.key(o + i)), R(2 * (o + i)), "key");
}
CASE(rebind) {      // assigning anything else to a variable that holds a view lets go of the view
    int t = ELTYPES[r.in(0, 6)]; G g = garray(r, t, r.in(1, 8)); int n = r.in(1, g.v.size()); auto v = g.v.view({n}, g.v.size() - n); auto w = v; std::string vs = rep(v); G y = r.p(1, 4) ? G{var(), "U"} : gscalar(r, SCALARS[r.in(0, 5)]); var z; if (y.s != "U") z = y.v; logf("%s to a view of %s\n", y.s.c_str(), g.s.c_str());
    v = z; EQ(rep(v), y.s, "variable"); EQ(rep(g.v), g.s, "storage"); EQ(rep(w), vs, "another view");
}
CASE(assign) {      // assigning an array of the same shape to a view writes its elements
    int t = r.in(0, 3), tt[] = {TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE}; int a = r.in(1, 4), b = r.in(1, 4), off = r.in(0, 4), n = a * b + off + r.in(0, 3);
    G g = garray(r, tt[t], n), h = garray(r, tt[t], a * b); bool two = r.p(1, 2); std::vector<std::string> e; for (int i = 0; i < n; i++) e.push_back(repel(g.v.heap(), i)); for (int i = 0; i < a * b; i++) e[off + i] = repel(h.v.heap(), i);
    var v = two ? g.v.view({a, b}, off) : g.v.view({a * b}, off), w = two ? h.v.view({a, b}) : r.p(1, 2) ? var(h.v) : h.v.view({a * b});
    logf("assign %s to a view at %d of %s\n", h.s.c_str(), off, g.s.c_str());
    v = w; EQ(rep(g.v), joinrep(e, tt[t]), "storage after assigning to the view"); EQ(rep(h.v), h.s, "source"); CHECK(v.heap()->view() == g.v.heap(), "the view was rebound");
}
