// C11: sorting, searching and ranges are exact
#include "h.h"
using namespace libube;
static const int ST[] = {TYPE_CHAR, TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE, TYPE_VAR};
static G few(Rng& r, int t, int n) {       // with repeated elements
    if (t == TYPE_VAR) { var v; v.resize(n); for (int i = 0; i < n; i++) { G g = r.p(1, 2) ? gscalar(r, TYPE_INT) : r.p(1, 8) ? G{var(), "U"} : G{var(grand(r, 2, "ab").c_str()), ""}; v.heap()->ptrvar(i)[0] = g.v; } return {v, rep(v)}; }
    G g = gsmallarray(r, t, n); int m = r.in(1, 5), k = r.p(1, 2) ? 1 : 45; for (int i = 0; i < n; i++) { int z = r.in(-m, m); switch (t) { case TYPE_CHAR: *g.v.heap()->ptrchar(i) = (char)('c' + z * k); break; case TYPE_INT: *g.v.heap()->ptrint(i) = z; break; case TYPE_LONG: *g.v.heap()->ptrlong(i) = z; break; case TYPE_FLOAT: *g.v.heap()->ptrfloat(i) = z; break; case TYPE_DOUBLE: *g.v.heap()->ptrdouble(i) = z; break; } }
    return {g.v, rep(g.v)};
}
static void sorted(const var& s, const G& g) {
    auto a = els(g.v), b = els(s); CHECK(len(s) == len(g.v), "length %d of the sorted array, from %d", len(s), len(g.v));
    for (int i = 1; i < len(s); i++) CHECK(!(s.at(i) < s.at(i - 1)), "sorted array decreases at %d", i);
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "sorted array has other elements: %s", rep(s).c_str());
    EQ(rep(g.v), g.s, "original");
}
CASE(sort) { int t = ST[r.in(0, 5)], n = r.in(1, 20); G g = r.p(1, 3) ? garray(r, t, n) : few(r, t, n); if (t == TYPE_VAR) for (int i = 0; i < n; i++) { var x = g.v.heap()->ptrvar(i)[0]; if (x.defined() && (x.atype() == (long)TYPE_CFLOAT || x.atype() == (long)TYPE_CDOUBLE)) return; } logf("%s\n", g.s.c_str()); sorted(g.v.sort(), g); }
CASE(sortview) { int t = ST[r.in(0, 4)], n = r.in(1, 12), off = r.in(0, 4); G g = few(r, t, n + off + r.in(0, 3)); var v = g.v.view({n}, off); std::string gs = g.s; logf("view %d+%d of %s\n", off, n, gs.c_str()); G w{v, rep(v)}; var s = v.sort(); auto a = els(v), b = els(s); CHECK(len(s) == n, "length"); for (int i = 1; i < n; i++) CHECK(!(s.at(i) < s.at(i - 1)), "decreases"); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "elements"); EQ(rep(g.v), gs, "storage"); }
CASE(functor) { static const int T[] = {TYPE_FLOAT, TYPE_DOUBLE, TYPE_INT, TYPE_LONG, TYPE_CHAR}; int t = T[r.in(0, 4)], n = r.in(1, 20); G g = few(r, t, n); logf("%s\n", g.s.c_str()); G h{g.v.copy(), g.s}; libube::sort(g.v, g.v); sorted(g.v, h); }
CASE(functor2) { static const int T[] = {TYPE_FLOAT, TYPE_DOUBLE, TYPE_INT, TYPE_LONG, TYPE_CHAR}; int t = T[r.in(0, 4)], a = r.in(1, 4), b = r.in(1, 5); G g = few(r, t, a * b); var v = g.v.view({a, b}); logf("%dx%d %s\n", a, b, g.s.c_str()); var s = v.copy(); libube::sort(s, s); EQ(rep(g.v), g.s, "original"); CHECK(s.dim() == 2 && s.shape(0) == a && s.shape(1) == b, "shape");
    for (int i = 0; i < a; i++) { auto e = els(s), f = els(g.v); std::vector<std::string> x(e.begin() + i * b, e.begin() + i * b + b), y(f.begin() + i * b, f.begin() + i * b + b); for (int j = 1; j < b; j++) CHECK(!(s.at(i * b + j) < s.at(i * b + j - 1)), "row decreases"); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); CHECK(x == y, "row has other elements"); } }
CASE(index) {
    int t = ST[r.in(0, 5)], n = r.p(1, 5) ? r.in(13, 40) : r.in(0, 12); G g = few(r, t, n); var x; if (n && r.p(2, 3)) x = g.v[r.in(0, n - 1)]; else x = t == TYPE_VAR ? var(3) : few(r, t, 1).v.at(0).copy(); logf("index of %s in %s\n", rep(x).c_str(), g.s.c_str());
    int want = -1; std::string xs = rep(x); auto e = els(g.v); for (int i = n - 1; i >= 0; i--) if (e[i] == xs) want = i;
    long got = (long)g.v.index(x); if (want >= 0) CHECK(got == want, "index is %ld, expected %d", got, want); else CHECK(got < 0, "index of an absent element is %ld", got); EQ(rep(g.v), g.s, "array"); EQ(rep(x), xs, "value searched for");
}
CASE(indexview) { int t = ST[r.in(0, 4)], n = r.in(1, 8), off = r.in(0, 4); G g = few(r, t, n + off + r.in(0, 3)); var v = g.v.view({n}, off), x; x = g.v[r.in(0, g.v.size() - 1)]; auto e = els(v); int want = -1; for (int i = n - 1; i >= 0; i--) if (e[i] == rep(x)) want = i; logf("index of %s in view %d+%d of %s\n", rep(x).c_str(), off, n, g.s.c_str()); long got = (long)v.index(x); CHECK(want < 0 ? got < 0 : got == want, "index is %ld, expected %d", got, want); }
CASE(range) {
    bool lg = r.p(1, 3); long lo = r.in(-20, 20), hi = r.in(-20, 20), st = r.in(1, 7); int w = r.in(0, 5); bool ex = w & 1; if (w / 2 == 1) { lo = ex ? 0 : 1; } if (w / 2 >= 1) st = 1;
    var L = lg ? var((long)lo) : var((int)lo), H = lg ? var((long)hi) : var((int)hi), S = lg ? var((long)st) : var((int)st), a;
    switch (w) { case 0: a = libube::range(L, H, S); break; case 1: a = libube::irange(L, H, S); break; case 2: a = libube::range(H); break; case 3: a = libube::irange(H); break; case 4: a = libube::range(L, H); break; case 5: a = libube::irange(L, H); break; }
    logf("range way %d %ld %ld %ld\n", w, lo, hi, st); std::vector<std::string> e; for (long x = lo; ex ? x < hi : x <= hi; x += st) e.push_back(lg ? R(x) : R((int)x));
    if (e.empty()) CHECK(!a.defined() || a.size() == 0, "empty range is %s", rep(a).c_str()); else if (e.size() == 1 && !a.heap()) EQ(rep(a), e[0], "range"); else EQ(rep(a), joinrep(e, lg ? TYPE_LONG : TYPE_INT), "range");
}
