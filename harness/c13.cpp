// C13: scalar arithmetic is the left operand's
#include "h.h"
using namespace libube;
static const int NT[] = {TYPE_CHAR, TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE};
static var op(char o, const var& a, const var& b) { switch (o) { case '+': return a + b; case '-': return a - b; case '*': return a * b; } return a / b; }
static void ip(char o, var& a, const var& b) { switch (o) { case '+': a += b; break; case '-': a -= b; break; case '*': a *= b; break; default: a /= b; } }
static G gen(Rng& r, int t) { G g = gsmall(r, t); if (r.p(1, 3)) switch (t) { case TYPE_INT: { int c = r.in(-30000, 30000); return {var(c), R(c)}; } case TYPE_LONG: { long c = (long)r.in(-1000000000, 1000000000); if (r.p(1, 2)) c *= 3; return {var(c), R(c)}; } case TYPE_FLOAT: { float c = r.in(-1000, 1000) / 7.0f; return {var(c), R(c)}; } case TYPE_DOUBLE: { double c = r.in(-100000, 100000) / 7.0; return {var(c), R(c)}; } } return g; }
static bool safe(const var& a, const var& b, char o) { if (a.atype() == (long)TYPE_INT && b.atype() == (long)TYPE_LONG) { long x = b.get<long>(); if (x > 1000000000 || x < -1000000000) return false; } if (a.atype() == (long)TYPE_INT && o == '*' && b.atype() == (long)TYPE_LONG) { long x = b.get<long>(); return x > -30000 && x < 30000; } if (a.atype() == (long)TYPE_INT && (b.atype() == (long)TYPE_DOUBLE)) return true; return true; }
CASE(binary) {
    int t = NT[r.in(0, 6)], u = NT[r.in(0, 6)]; G a = gen(r, t), b = gen(r, u); char o = "+-*/"[r.in(0, 3)]; if (t == TYPE_CDOUBLE && u == TYPE_CFLOAT) return; if (t == TYPE_CFLOAT && u == TYPE_CDOUBLE) return; if (!safe(a.v, b.v, o)) return;
    if (t == TYPE_CHAR && (u == TYPE_FLOAT || u == TYPE_DOUBLE || u == TYPE_CFLOAT || u == TYPE_CDOUBLE)) b = gsmall(r, u);
    bool ok; std::string as = rep(a.v), bs = rep(b.v); logf("%s %c %s\n", a.s.c_str(), o, b.s.c_str()); std::string w = arith(o, a.v, b.v, &ok); if (!ok) return;
    var c = op(o, a.v, b.v); EQ(repe(c), w, "result"); CHECK(c.atype() == (long)t, "type of the result"); EQ(rep(a.v), as, "left operand"); EQ(rep(b.v), bs, "right operand");
    var d; d = a.v.copy(); ip(o, d, b.v); EQ(repe(d), w, "in place"); CHECK(d.atype() == (long)t, "type in place"); EQ(rep(b.v), bs, "right operand"); EQ(rep(a.v), as, "copy of the left operand");
    // between elements
    var x, y; x.push(a.v); x[1] = a.v; x[2] = a.v; y = b.v; if (t != TYPE_CDOUBLE) { std::string xs = rep(x); var z = op(o, x[1], y); EQ(repe(z), w, "element as left operand"); EQ(rep(x), xs, "array"); }
}
CASE(element) {
    int t = NT[r.in(0, 6)]; G g = gsmallarray(r, t, r.in(2, 5)); int i = r.in(0, g.v.size() - 1), j = r.in(0, g.v.size() - 1); char o = "+-*/"[r.in(0, 3)]; auto e = els(g.v); var x, y; x = g.v[i]; y = g.v[j]; bool ok; logf("%s: [%d] %c [%d]\n", g.s.c_str(), i, o, j); std::string w = arith(o, x, y, &ok); if (!ok) return;
    EQ(repe(op(o, g.v[i], g.v[j])), w, "result"); EQ(rep(g.v), g.s, "array"); var p = g.v[i]; ip(o, p, g.v[j]); e[i] = w; EQ(rep(g.v), joinrep(e, t), "array, in place");
}
CASE(same) { int t = NT[r.in(0, 6)]; G a = gen(r, t); var x = a.v.copy(); bool ok; char o = "+-*/"[r.in(0, 3)]; if (t == TYPE_INT && o == '*') return; logf("x %c= x, x = %s\n", o, a.s.c_str()); std::string w = arith(o, a.v, a.v, &ok); if (!ok) return; EQ(repe(op(o, x, x)), w, "x op x"); ip(o, x, x); EQ(repe(x), w, "in place"); }
CASE(negate) { int t = NT[r.in(0, 6)]; G a = gsmall(r, t); logf("-%s\n", a.s.c_str()); var m = -1; bool ok; std::string w = arith('*', a.v, m, &ok); std::string s = rep(a.v); EQ(repe(-a.v), w, "negation"); EQ(rep(a.v), s, "operand"); }
CASE(sharing) { int t = NT[r.in(0, 6)]; G a = gsmall(r, t), b = gsmall(r, t); var c = a.v; std::string s = rep(c); char o = "+-*"[r.in(0, 2)]; logf("%s %c= %s with a copy\n", a.s.c_str(), o, b.s.c_str()); bool ok; std::string w = arith(o, a.v, b.v, &ok); ip(o, a.v, b.v); EQ(repe(a.v), w, "result"); if (t != TYPE_CDOUBLE) EQ(rep(c), s, "copy of the left operand"); }
CASE(undefined) { int t = NT[r.in(0, 6)]; G a = gsmall(r, t); var u; char o = "+-*/"[r.in(0, 3)]; MUSTTHROW(op(o, a.v, u), "%s %c undefined", a.s.c_str(), o); EQ(repe(a.v), a.s, "left operand"); }
