// C14: array arithmetic is element-wise and touches only its result
#include "h.h"
using namespace libube;
static const int AT[] = {TYPE_FLOAT, TYPE_DOUBLE}, CT[] = {TYPE_CFLOAT, TYPE_CDOUBLE};
static var op(char o, const var& a, const var& b) { switch (o) { case '+': return a + b; case '-': return a - b; case '*': return a * b; } return a / b; }
static void ip(char o, var& a, const var& b) { switch (o) { case '+': a += b; break; case '-': a -= b; break; case '*': a *= b; break; default: a /= b; } }
static void op3(char o, const var& a, const var& b, var& c) { switch (o) { case '+': libube::add(a, b, c); break; case '-': libube::sub(a, b, c); break; case '*': libube::mul(a, b, c); break; default: libube::div(a, b, c); } }
struct A { var s, v; std::vector<int> sh; int off, n, t; };       // storage, the operand (a view of it or the array itself)
static A mk(Rng& r, int t, const std::vector<int>& sh, bool plain) {
    A a; a.sh = sh; a.t = t; a.n = 1; for (int x : sh) a.n *= x; a.off = plain ? 0 : r.in(0, 3); G g = gsmallarray(r, t, a.n + a.off + (plain ? 0 : r.in(0, 3))); a.s = g.v; a.v = plain ? g.v : g.v.view(var((int)sh.size(), sh.data()), a.off); return a;
}
static std::vector<std::string> els1(const A& a) { std::vector<std::string> e; for (int i = 0; i < a.n; i++) e.push_back(repel(a.s.heap(), a.off + i)); return e; }
static std::string nz(std::string s) { size_t p; while ((p = s.find(":-0x0p")) != std::string::npos) s.erase(p + 1, 1); return s; }     // -0 and 0 are the same number
static std::vector<int> shape(Rng& r, int d, int lo) { std::vector<int> s; for (int i = 0; i < d; i++) s.push_back(r.in(lo, 4)); return s; }
static void desc(const A& a, const char* w) { logf("%s: %s[", w, a.v.heap() && a.v.heap()->view() ? "view " : "array "); for (int x : a.sh) logf(" %d", x); logf(" ] at %d of %s\n", a.off, rep(a.s).c_str()); }
// expected elements of a op b, b being repeated
static bool want(char o, const A& a, const A& b, std::vector<std::string>& e) { e.clear(); for (int i = 0; i < a.n; i++) { bool ok; var x, y; x = a.s[a.off + i]; y = b.s[b.off + i % b.n]; e.push_back(arith(o, x, y, &ok)); if (!ok) return false; } return true; }
static void check(Rng& r, char o, A a, A b, bool mustwork) {
    std::vector<std::string> e; if (!want(o, a, b, e)) return; std::string as = rep(a.s), bs = rep(b.s);
    var c; bool t = throws([&] { c = op(o, a.v, b.v); }); EQ(nz(rep(a.s)), nz(as), "left operand"); EQ(nz(rep(b.s)), nz(bs), "right operand"); CHECK(!t || !mustwork, "refused"); if (t) return;
    EQ(nz(joinrep(els(c), (int)(long)c.atype())), nz(joinrep(e, a.t)), "out of place"); if (a.v.heap()->view()) { CHECK(c.dim() == a.v.dim(), "dimension"); for (int i = 0; i < c.dim(); i++) CHECK(c.shape(i) == a.v.shape(i), "shape"); }
    // into a third array of the same shape
    if (r.p(1, 2)) { A d = mk(r, a.t, a.sh, !a.v.heap()->view()); std::vector<std::string> de; for (int i = 0; i < len(d.s); i++) de.push_back(repel(d.s.heap(), i)); for (int i = 0; i < d.n; i++) de[d.off + i] = e[i]; op3(o, a.v, b.v, d.v); EQ(nz(rep(d.s)), nz(joinrep(de, a.t)), "three operand form"); EQ(nz(rep(a.s)), nz(as), "left operand, three operands"); EQ(nz(rep(b.s)), nz(bs), "right operand, three operands"); }
    std::vector<std::string> ae; for (int i = 0; i < len(a.s); i++) ae.push_back(repel(a.s.heap(), i)); for (int i = 0; i < a.n; i++) ae[a.off + i] = e[i];
    ip(o, a.v, b.v); EQ(nz(rep(a.s)), nz(joinrep(ae, a.t)), "in place"); EQ(nz(rep(b.s)), nz(bs), "right operand, in place"); if (c.heap()) EQ(nz(joinrep(els(c), a.t)), nz(joinrep(e, a.t)), "earlier result");
}
CASE(scalar) {
    int t = AT[r.in(0, 1)]; bool ops = r.p(1, 4); if (ops) t = CT[r.in(0, 1)]; char o = "+-*/"[r.in(0, 3)]; bool plain = r.p(1, 2); A a = mk(r, t, plain ? std::vector<int>{r.in(0, 9)} : shape(r, r.in(1, 4), 1), plain); G y = gsmall(r, t > TYPE_DOUBLE ? t : r.p(1, 2) ? t : r.in(TYPE_INT, TYPE_DOUBLE));
    desc(a, "left"); logf("%c %s\n", o, y.s.c_str()); std::vector<std::string> e; for (int i = 0; i < a.n; i++) { bool ok; var x; x = a.s[a.off + i]; e.push_back(arith(o, x, y.v, &ok)); if (!ok) return; }
    std::string as = rep(a.s), ys = rep(y.v); var c; bool th = throws([&] { c = op(o, a.v, y.v); }); EQ(nz(rep(a.s)), nz(as), "left operand"); EQ(nz(rep(y.v)), nz(ys), "scalar"); if (th) { CHECK(t > TYPE_DOUBLE && o == '*', "refused"); return; }
    EQ(nz(joinrep(els(c), (int)(long)c.atype())), nz(joinrep(e, t)), "out of place"); std::vector<std::string> ae; for (int i = 0; i < len(a.s); i++) ae.push_back(repel(a.s.heap(), i)); for (int i = 0; i < a.n; i++) ae[a.off + i] = e[i]; ip(o, a.v, y.v); EQ(nz(rep(a.s)), nz(joinrep(ae, t)), "in place"); EQ(nz(rep(y.v)), nz(ys), "scalar");
}
CASE(ints) {    // arrays of integers with a scalar
    int t = r.in(TYPE_CHAR, TYPE_LONG), n = r.in(1, 6); G g = gsmallarray(r, t, n), y = gsmall(r, r.in(TYPE_CHAR, TYPE_LONG)); char o = "+-*/"[r.in(0, 3)]; if (t == TYPE_CHAR) { for (int i = 0; i < n; i++) *g.v.heap()->ptrchar(i) = r.in(-9, 9); y = gsmall(r, TYPE_CHAR); } g.s = rep(g.v); logf("%s %c %s\n", g.s.c_str(), o, y.s.c_str()); std::vector<std::string> e; for (int i = 0; i < n; i++) { bool ok; var x; x = g.v[i]; e.push_back(arith(o, x, y.v, &ok)); if (!ok) return; }
    var c; bool th = throws([&] { c = op(o, g.v, y.v); }); EQ(nz(rep(g.v)), nz(g.s), "left operand"); CHECK(!th || o == '*', "refused"); if (!th) EQ(nz(rep(c)), nz(joinrep(e, t)), "out of place"); th = throws([&] { ip(o, g.v, y.v); }); if (th) EQ(nz(rep(g.v)), nz(g.s), "refused operand"); else EQ(nz(rep(g.v)), nz(joinrep(e, t)), "in place");
}
CASE(plain) { int t = AT[r.in(0, 1)], n = r.in(0, 9); char o = "+-*/"[r.in(0, 3)]; A a = mk(r, t, {n}, true), b = mk(r, t, {n}, true); desc(a, "left"); desc(b, "right"); logf("%c\n", o); check(r, o, a, b, o != '/'); }
CASE(views) {
    bool cp = r.p(1, 5); int t = cp ? CT[r.in(0, 1)] : AT[r.in(0, 1)], d = r.in(1, 4), d2 = r.in(1, d); std::vector<int> sh = shape(r, d, 1), sh2(sh.end() - d2, sh.end()); char o = "+-*/"[r.in(0, 3)]; A a = mk(r, t, sh, false), b = mk(r, t, sh2, d2 == 1 && r.p(1, 2)); desc(a, "left"); desc(b, "right"); logf("%c\n", o);
    check(r, o, a, b, !cp ? o != '/' : o == '+');
}
CASE(self) { int t = AT[r.in(0, 1)]; A a = mk(r, t, shape(r, r.in(1, 3), 1), false); char o = "+-"[r.in(0, 1)]; desc(a, "x"); logf("x %c= x\n", o); std::vector<std::string> e; want(o, a, a, e); std::vector<std::string> ae; for (int i = 0; i < len(a.s); i++) ae.push_back(repel(a.s.heap(), i)); for (int i = 0; i < a.n; i++) ae[a.off + i] = e[i]; var c = op(o, a.v, a.v); EQ(nz(joinrep(els(c), t)), nz(joinrep(e, t)), "x op x"); ip(o, a.v, a.v); EQ(nz(rep(a.s)), nz(joinrep(ae, t)), "in place"); }
CASE(mismatch) {
    int t = AT[r.in(0, 1)], d = r.in(1, 3), d2 = r.in(1, 4); std::vector<int> sh = shape(r, d, 1), sh2 = shape(r, d2, 1); int n2 = 1; for (int x : sh2) n2 *= x; if (n2 == 1) return; bool fits = d2 <= d; for (int i = 1; fits && i <= d2; i++) if (sh[d - i] != sh2[d2 - i]) fits = false; if (fits) return;
    A a = mk(r, t, sh, d == 1 && r.p(1, 2)), b = mk(r, t, sh2, d2 == 1 && r.p(1, 2)); char o = "+-*/"[r.in(0, 3)]; desc(a, "left"); desc(b, "right"); logf("%c\n", o); std::string as = rep(a.s), bs = rep(b.s);
    MUSTTHROW(op(o, a.v, b.v), "operands that do not match are not refused"); EQ(nz(rep(a.s)), nz(as), "left operand"); MUSTTHROW(ip(o, a.v, b.v), "operands that do not match are not refused in place"); EQ(nz(rep(a.s)), nz(as), "left operand"); EQ(nz(rep(b.s)), nz(bs), "right operand");
    if (a.n != b.n || sh.back() != sh2.back()) { MUSTTHROW(libube::swap(a.v, b.v), "a swap of arrays that do not match is not refused"); EQ(nz(rep(a.s)), nz(as), "left operand"); EQ(nz(rep(b.s)), nz(bs), "right operand"); }
    var u; MUSTTHROW(op(o, a.v, u), "an undefined operand is not refused"); G h = garray(r, t == TYPE_FLOAT ? TYPE_DOUBLE : TYPE_FLOAT, len(a.v)); if (len(a.v) > 1 && d == 1) MUSTTHROW(op(o, a.v, h.v), "operands of different types are not refused");
}
CASE(swapbad) {      // as many elements, otherwise arranged
    int t = AT[r.in(0, 1)], p = r.in(2, 3), q = r.in(2, 4); if (p == q) return; A a = mk(r, t, {p, q}, false), b = r.p(1, 2) ? mk(r, t, {q, p}, false) : mk(r, t, {p * q}, r.p(1, 2)); desc(a, "left"); desc(b, "right"); std::string as = rep(a.s), bs = rep(b.s);
    MUSTTHROW(libube::swap(a.v, b.v), "a swap of arrays that do not match is not refused"); EQ(nz(rep(a.s)), nz(as), "left operand"); EQ(nz(rep(b.s)), nz(bs), "right operand");
}
CASE(swap) { int t = r.p(1, 2) ? CT[r.in(0, 1)] : AT[r.in(0, 1)]; bool plain = r.p(1, 2); std::vector<int> sh = plain ? std::vector<int>{r.in(1, 9)} : shape(r, r.in(1, 3), 1); A a = mk(r, t, sh, plain), b = mk(r, t, sh, plain); desc(a, "left"); desc(b, "right"); auto ea = els1(a), eb = els1(b); libube::swap(a.v, b.v); EQ(nz(joinrep(els1(a), t)), nz(joinrep(eb, t)), "left"); EQ(nz(joinrep(els1(b), t)), nz(joinrep(ea, t)), "right"); for (int i = 0; i < len(a.s); i++) if (i < a.off || i >= a.off + a.n) (void)i; }
CASE(smallout) {    // an output without space for the result
    int t = AT[r.in(0, 1)], d = r.in(1, 3), d2 = r.in(0, d); std::vector<int> sh = shape(r, d, 1), sh2(sh.end() - d2, sh.end()); A a = mk(r, t, sh, false), b = d2 ? mk(r, t, sh2, false) : A(); G y = gsmall(r, t); char o = "+-*"[r.in(0, 2)]; if (a.n < 2) return;
    A c = mk(r, t, {r.in(1, a.n - 1)}, r.p(1, 2)); desc(a, "left"); if (d2) desc(b, "right"); else logf("%s\n", y.s.c_str()); desc(c, "output"); logf("%c\n", o); std::string as = rep(a.s), cs = rep(c.s); std::vector<std::string> ce; for (int i = 0; i < len(c.s); i++) ce.push_back(repel(c.s.heap(), i));
    bool th = throws([&] { op3(o, a.v, d2 ? b.v : y.v, c.v); }); CHECK(th, "the output is too small, but not refused"); EQ(nz(rep(a.s)), nz(as), "left operand"); for (int i = 0; i < (int)ce.size(); i++) if (i < c.off || i >= c.off + c.n) EQ(nz(repel(c.s.heap(), i)), nz(ce[i]), "value beyond the output");
}
