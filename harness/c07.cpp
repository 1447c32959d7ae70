// C07: a copy is equal to the original and independent of it
#include "h.h"
using namespace libube;
static std::string shapes(const var& v) { std::string s; if (v.heap() && v.heap()->view()) for (int d = 0; d < v.heap()->dim(); d++) s += " " + std::to_string(v.heap()->shape(d)) + "/" + std::to_string(v.heap()->stride(d)); return s; }
static int gN = 4320;
static void change(Rng& r, var& x, int i) {     // change element i to something different
    IHeap* h = x.heap();
    switch ((int)(long)h->type()) {
    case TYPE_CHAR: *h->ptrchar(i) ^= 1; break; case TYPE_INT: *h->ptrint(i) ^= 1; break; case TYPE_LONG: *h->ptrlong(i) ^= 1; break;
    case TYPE_FLOAT: *h->ptrfloat(i) += 1; break; case TYPE_DOUBLE: *h->ptrdouble(i) += 1; break; case TYPE_CFLOAT: *h->ptrcfloat(i) += 1; break; case TYPE_CDOUBLE: *h->ptrcdouble(i) += 1; break;
    case TYPE_VAR: *h->ptrvar(i) = ++gN; break; case TYPE_PAIR: h->ptrpair(i)->val = ++gN; break; }
}
CASE(scalar) {
    int t = r.in(0, 6); if (t == 6) { cdouble z(r.in(-4, 4), r.in(-4, 4)); var v = z, c = v.copy(); EQ(rep(c), rep(v), "copy of a complex value"); c.heap()->ptrcdouble(0)[0] += 1; EQ(repe(v), R(z), "original"); return; }
    G g = gscalar(r, SCALARS[t]); logf("%s\n", g.s.c_str()); var c = g.v.copy(); EQ(rep(c), g.s, "copy"); CHECK(c.type() == g.v.type(), "type"); c = 5; EQ(rep(g.v), g.s, "original");
    var n; var m = n.copy(); CHECK(!m.defined(), "copy of nil is defined");
}
CASE(array) {
    int t = ELTYPES[r.in(0, 7)], n = r.in(0, 20); G g = garray(r, t, n); logf("%s\n", g.s.c_str()); var c = g.v.copy();
    EQ(rep(c), g.s, "copy"); EQ(rep(g.v), g.s, "original"); CHECK(c.heap() != g.v.heap(), "copy shares the storage"); CHECK(c.size() == n && c.type() == g.v.type() && c.atype() == g.v.atype(), "length and type"); CHECK(c == g.v, "copy is not equal");
    for (int k = 0; k < 3 && n; k++) { int i = r.in(0, n - 1); std::string a = rep(g.v), b = rep(c); if (r.p(1, 2)) { change(r, c, i); EQ(rep(g.v), a, "original after a change of the copy"); CHECK(rep(c) != b, "no change"); } else { change(r, g.v, i); EQ(rep(c), b, "copy after a change of the original"); } }
    std::string a = rep(g.v), b = rep(c); c.resize(r.in(0, 40)); EQ(rep(g.v), a, "original after the copy was resized");
    G h = garray(r, t, n); c = h.v.copy(); std::string cs = rep(c); h.v.resize(r.in(0, 40)); h.v = nil; EQ(rep(c), cs, "copy after the original is gone");
}
CASE(view) {
    int t = ELTYPES[r.in(0, 7)]; std::vector<int> sh; int d = r.in(1, 3), n = 1; for (int j = 0; j < d; j++) { sh.push_back(r.in(1, 4)); n *= sh.back(); } int off = r.in(0, 5); G g = garray(r, t, n + off + r.in(0, 4));
    var v = g.v.view(var(d, sh.data()), off); std::string s = rep(g.v); auto e = els(v); logf("view of %s at %d:%s\n", s.c_str(), off, shapes(v).c_str());
    var c = v.copy(); CHECK(c.view(), "copy of a view is not a view"); EQ(shapes(c), shapes(v), "shape"); CHECK(c.size() == v.size() && c.dim() == d && c.atype() == v.atype(), "size, dimension, type");
    EQ(joinrep(els(c), t), joinrep(e, t), "elements of the copy"); EQ(rep(g.v), s, "storage"); CHECK(c == v, "copy is not equal");
    int i = r.in(0, n - 1); change(r, c, i); EQ(rep(g.v), s, "storage after a change of the copy"); auto ce = els(c); change(r, v, r.in(0, n - 1)); EQ(joinrep(els(c), t), joinrep(ce, t), "copy after a change of the view"); change(r, g.v, off); EQ(joinrep(els(c), t), joinrep(ce, t), "copy after a change of the storage");
    g.v = nil; v = nil; EQ(joinrep(els(c), t), joinrep(ce, t), "copy after the original is gone");
}
CASE(element) {
    int t = ELTYPES[r.in(0, 7)], n = r.in(1, 9), i = r.in(0, n - 1); G g = garray(r, t, n); auto e = els(g.v); logf("%s element %d\n", g.s.c_str(), i);
    var c = g.v.at(i).copy(); EQ(repe(c), one(e[i]), "copy of element %d", i); var d = g.v[i].copy(); EQ(repe(d), one(e[i]), "copy of element %d", i);
    change(r, g.v, i); EQ(repe(c), one(e[i]), "copy after the element changed"); EQ(repe(d), one(e[i]), "copy after the element changed");
    std::string s = rep(g.v); c = 99; EQ(rep(g.v), s, "array after the copy was assigned"); if (d.heap() && d.size()) { change(r, d, 0); EQ(rep(g.v), s, "array after an element of the copy changed"); }
}
CASE(nested) {      // elements of a generic array are equal; replacing one is not visible in the other
    G g = gvalue(r, 2); logf("%s\n", g.s.c_str()); var c = g.v.copy(); EQ(rep(c), g.s, "copy"); EQ(rep(g.v), g.s, "original");
    if (g.v.heap() && g.v.size()) { int i = r.in(0, g.v.size() - 1); change(r, c, i); EQ(rep(g.v), g.s, "original after a change"); }
}
CASE(map) {
    var m; m[nil]; int n = r.in(0, 8); for (int i = 0; i < n; i++) m[var(r.in(0, 20))] = gvalue(r, 1).v; std::string s = rep(m); logf("%s\n", s.c_str()); n = m.size();
    var c = m.copy(); EQ(rep(c), s, "copy"); if (n) { int i = r.in(0, n - 1); change(r, c, i); EQ(rep(m), s, "original after a change of a value"); c[var(100)] = 3; EQ(rep(m), s, "original after a key was added"); c.remove(0); EQ(rep(m), s, "original after a removal"); }
    c = m.copy(); if (n) change(r, m, 0); m[var(50)] = 1; EQ(rep(c), s, "copy after a change of the original");
}
