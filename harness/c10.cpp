// C10: the comparison operators agree and give one order
#include "h.h"
using namespace libube;
struct X { var v; std::string s; std::vector<double> key; int kind; };  // kind: comparable by the oracle when equal
static X gen(Rng& r, bool cplx) {
    int w = r.in(0, 11);
    if (w == 0) return {var(), "U", {}, -1};
    if (w <= 5) { int t = SCALARS[w - 1]; if (t == TYPE_CFLOAT) t = TYPE_INT; G g = gscalar(r, t); if (t != TYPE_CHAR && r.p(2, 3)) g = gsmall(r, t); return {g.v, g.s, {}, t}; }
    if (w <= 7) { std::string s = r.p(1, 10) ? gword(r) : grand(r, 4, r.p(1, 2) ? "ab" : "a\x80\xff"); var v((int)s.size(), s.c_str()); return {v, RS(s), {}, 100}; }
    if (w <= 9) { static const int T[] = {TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE}; int t = T[r.in(0, 3)]; int n = r.in(0, 3); G g = garray(r, t, n); for (int i = 0; i < n; i++) { int z = r.in(0, 2); switch (t) { case TYPE_INT: *g.v.heap()->ptrint(i) = z; break; case TYPE_LONG: *g.v.heap()->ptrlong(i) = z; break; case TYPE_FLOAT: *g.v.heap()->ptrfloat(i) = z; break; case TYPE_DOUBLE: *g.v.heap()->ptrdouble(i) = z; break; } } return {g.v, rep(g.v), {}, 200 + t}; }
    if (w == 10 && cplx) { if (r.p(1, 2)) { cdouble z(r.in(-1, 1), r.in(-1, 1)); return {var(z), "[" + R(z) + "]", {}, 300}; } cfloat z(r.in(-1, 1), r.in(-1, 1)); return {var(z), R(z), {}, 301}; }
    var v; v.resize(0); int n = r.in(0, 3); v.resize(n); for (int i = 0; i < n; i++) { X x = gen(r, false); if (x.kind == TYPE_CHAR && r.p(1, 2)) x.v = (char)r.in(-128, 127); v.heap()->ptrvar(i)[0] = x.v; } return {v, rep(v), {}, 400};
}
static int sg(long a, long b) { return a < b ? -1 : a > b; }
static int cmp(const X& a, const X& b, bool* known) {    // oracle for the same kind
    *known = true;
    if (a.kind != b.kind) { *known = false; return 0; }
    switch (a.kind) {
    case -1: return 0; case TYPE_CHAR: return sg(a.v.get<char>(), b.v.get<char>()); case TYPE_INT: return sg(a.v.get<int>(), b.v.get<int>()); case TYPE_LONG: return sg(a.v.get<long>(), b.v.get<long>());
    case TYPE_FLOAT: return a.v.get<float>() < b.v.get<float>() ? -1 : a.v.get<float>() > b.v.get<float>(); case TYPE_DOUBLE: return a.v.get<double>() < b.v.get<double>() ? -1 : a.v.get<double>() > b.v.get<double>(); }
    if (a.kind == 100) { std::string x(a.v.heap()->ptrchar(), a.v.size()), y(b.v.heap()->ptrchar(), b.v.size()); int c = x.compare(y); return c < 0 ? -1 : c > 0; }
    if (a.kind >= 200 && a.kind < 300) { auto f = [](const X& x, int i) -> double { IHeap* h = x.v.heap(); switch (x.kind - 200) { case TYPE_INT: return *h->ptrint(i); case TYPE_LONG: return *h->ptrlong(i); case TYPE_FLOAT: return *h->ptrfloat(i); } return *h->ptrdouble(i); };
        for (int i = 0; i < std::min(len(a.v), len(b.v)); i++) if (f(a, i) != f(b, i)) return f(a, i) < f(b, i) ? -1 : 1; return sg(len(a.v), len(b.v)); }
    *known = false; return 0;
}
static void pairs(const X& a, const X& b) {
    bool lt = a.v < b.v, gt = a.v > b.v, le = a.v <= b.v, ge = a.v >= b.v, eq = a.v == b.v, ne = a.v != b.v;
    CHECK(eq == (b.v == a.v), "equality is not symmetric"); CHECK(eq != ne, "== and != agree"); CHECK(gt == (b.v < a.v), "> is not the reverse of <");
    if (a.kind < 300 || a.kind == 400) if (b.kind < 300 || b.kind == 400) {
        CHECK(lt + eq + gt == 1, "less %d equal %d greater %d", lt, eq, gt); CHECK(le == (lt || eq), "<="); CHECK(ge == (gt || eq), ">=");
    }
    if ((a.kind == -1) != (b.kind == -1)) CHECK(!eq, "undefined equals a defined value");
    bool known; int c = cmp(a, b, &known); if (known) { CHECK(lt == (c < 0), "< gives %d", lt); CHECK(eq == (c == 0), "== gives %d", eq); CHECK(gt == (c > 0), "> gives %d", gt); }
    if (a.kind == b.kind && a.kind < 300) CHECK(eq == (a.s == b.s) || a.s.find("0x0") != std::string::npos, "equality of %s and %s is %d", a.s.c_str(), b.s.c_str(), eq);
}
CASE(complex) {
    auto q = [&](auto z) { typedef decltype(z) Z; G g = {var(Z(r.in(-1, 1), r.in(-1, 1))), ""}; return g.v; };
    bool d = r.p(1, 2); var a, b; if (d) { a = q(cdouble()); b = q(cdouble()); } else { a = q(cfloat()); b = q(cfloat()); }
    std::string x = rep(a), y = rep(b); logf("%s %s\n", x.c_str(), y.c_str());
    bool e = d ? a.get<cdouble>() == b.get<cdouble>() : a.get<cfloat>() == b.get<cfloat>();
    CHECK((a == b) == e, "== of complex values"); CHECK((a != b) == !e, "!= of complex values"); EQ(rep(a), x, "left"); EQ(rep(b), y, "right");
}
CASE(laws) {
    X a = gen(r, true), b = gen(r, true), c = gen(r, true); if (r.p(1, 6)) b = {a.v.copy(), a.s, {}, a.kind}; logf("%s\n%s\n%s\n", a.s.c_str(), b.s.c_str(), c.s.c_str());
    CHECK(a.v == a.v && !(a.v != a.v) && !(a.v < a.v), "not reflexive");
    pairs(a, b); pairs(b, c); pairs(a, c);
    if (a.kind >= 300 && a.kind < 400) return; if (b.kind >= 300 && b.kind < 400) return; if (c.kind >= 300 && c.kind < 400) return;
    if (a.v < b.v && b.v < c.v) CHECK(a.v < c.v, "< is not transitive"); if (a.v == b.v && b.v == c.v) CHECK(a.v == c.v, "== is not transitive"); if (a.v == b.v) CHECK((a.v < c.v) == (b.v < c.v), "equal values are ordered differently");
}
CASE(samekind) {
    X a = gen(r, true), b = gen(r, true); for (int k = 0; k < 30 && b.kind != a.kind; k++) b = gen(r, true); logf("%s\n%s\n", a.s.c_str(), b.s.c_str()); pairs(a, b); EQ(rep(a.v), a.kind == 300 ? rep(a.v) : a.s, "operand");
}
CASE(refs) {        // comparing elements is comparing their values
    int t = ELTYPES[r.in(0, 7)]; if (t == TYPE_CFLOAT || t == TYPE_CDOUBLE) t = TYPE_INT; int n = r.in(1, 6), i = r.in(0, n - 1), j = r.in(0, n - 1); G g = garray(r, t, n); var x, y; x = g.v[i]; y = g.v[j]; logf("%s elements %d %d\n", g.s.c_str(), i, j);
    if (x.type() == (long)TYPE_CFLOAT || y.type() == (long)TYPE_CFLOAT || (x.heap() && x.atype() == (long)TYPE_CDOUBLE)) return;
    CHECK((g.v[i] < g.v[j]) == (x < y), "<"); CHECK((g.v[i] == g.v[j]) == (x == y), "=="); CHECK((g.v.at(i) != g.v.at(j)) == (x != y), "!="); CHECK((g.v[i] >= g.v[j]) == (x >= y), ">=");
}
