// C12: conversions between numeric types
#include "h.h"
using namespace libube;
static const int NT[] = {TYPE_CHAR, TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE};
template <class T> static T castTo(const var& v) { return v.cast<T>(); }
static var functor(int t, const var& v) { switch (t) { case TYPE_CHAR: return castChar(v); case TYPE_INT: return castInt(v); case TYPE_LONG: return castLong(v); case TYPE_FLOAT: return castFloat(v); case TYPE_DOUBLE: return castDouble(v); case TYPE_CFLOAT: return castCFloat(v); } return castCDouble(v); }
static std::string method(int t, const var& v) { switch (t) { case TYPE_CHAR: return R(v.cast<char>()); case TYPE_INT: return R(v.cast<int>()); case TYPE_LONG: return R(v.cast<long>()); case TYPE_FLOAT: return R(v.cast<float>()); case TYPE_DOUBLE: return R(v.cast<double>()); case TYPE_CFLOAT: return R(v.cast<cfloat>()); } return R(v.cast<cdouble>()); }
// complex to complex of the other width takes the real part
static std::string want(const var& y, int t) { if (y.atype() == (long)TYPE_CFLOAT && t == TYPE_CDOUBLE) return R(cdouble(y.get<cfloat>().real())); if (y.atype() == (long)TYPE_CDOUBLE && t == TYPE_CFLOAT) return R(cfloat((float)y.get<cdouble>().real())); return conv(y, t); }
static G gen(Rng& r, int t, int to) {
    bool ints = to <= TYPE_LONG;
    switch (t) { case TYPE_CHAR: { char c = (char)r.in(-128, 127); return {var(c), R(c)}; } case TYPE_INT: { int c = r.p(1, 2) ? r.in(INT_MIN, INT_MAX) : r.in(-300, 300); return {var(c), R(c)}; } case TYPE_LONG: { long c = r.p(1, 2) ? (long)r.next() : r.in(-300, 300); return {var(c), R(c)}; } }
    double m = to == TYPE_CHAR ? 127 : to == TYPE_INT ? 2e9 : to == TYPE_LONG ? 9e18 : t == TYPE_FLOAT || t == TYPE_CFLOAT || to == TYPE_FLOAT || to == TYPE_CFLOAT ? 3e38 : 1e300; if (r.p(1, 2)) m = 100; double x = m * (r.in(-1000000, 1000000) / 1000001.0); (void)ints; double y = r.in(-40, 40) * 0.25;
    switch (t) { case TYPE_FLOAT: return {var((float)x), R((float)x)}; case TYPE_DOUBLE: return {var(x), R(x)}; case TYPE_CFLOAT: { cfloat z((float)x, (float)y); return {var(z), R(z)}; } } cdouble z(x, y); return {var(z), R(z)};
}
CASE(scalar) {
    int t = NT[r.in(0, 6)], to = NT[r.in(0, 6)]; G g = gen(r, t, to); std::string w = want(g.v, to), before = rep(g.v); logf("%s to type %d\n", g.s.c_str(), to);
    EQ(method(to, g.v), w, "cast<>()"); var c = functor(to, g.v); EQ(repe(c), w, "cast functor"); CHECK(c.atype() == (long)to, "type of the cast"); EQ(rep(g.v), before, "operand");
    // of an element
    var a; a.push(g.v); a[1] = g.v; if (t != TYPE_CDOUBLE) { std::string as = rep(a); EQ(method(to, a[1]), w, "cast of an element"); EQ(repe(functor(to, a[1])), w, "cast functor on an element"); EQ(rep(a), as, "array"); }
}
CASE(construct) {
    int t = NT[r.in(0, 6)]; G g = gen(r, t, t); logf("%s\n", g.s.c_str()); EQ(repe(g.v), g.s, "value"); CHECK(g.v.atype() == (long)t, "type"); CHECK(g.v.size() == 1 && g.v.defined(), "size"); if (t != TYPE_CDOUBLE) CHECK(g.v.type() == (long)t && !g.v.heap(), "scalar");
    var c = g.v, d; d = c; EQ(rep(c), rep(g.v), "copy"); EQ(rep(d), rep(g.v), "assigned"); var e = std::move(c); EQ(rep(e), rep(g.v), "moved");
}
CASE(strings) {     // a string is parsed
    int i = r.p(1, 4) ? r.in(INT_MIN, INT_MAX) : r.in(-999, 999); std::string s = std::to_string(i); var v = s.c_str(); logf("%s\n", s.c_str()); CHECK(v.cast<int>() == i, "int"); CHECK(v.cast<long>() == i, "long"); CHECK(v.cast<double>() == i, "double"); EQ(rep(v), RS(s), "operand"); CHECK(v.cast<char>() == s[0], "char");
    double d = r.in(-4000, 4000) * 0.125; char b[40]; snprintf(b, 40, "%.3f", d); v = b; CHECK(v.cast<double>() == d, "double %s", b); CHECK(v.cast<float>() == (float)d, "float %s", b); EQ(rep(castDouble(v)), R(d), "functor");
    v = "x1"; MUSTTHROW(v.cast<int>(), "text that is no number");
}
CASE(refused) { var u; MUSTTHROW(u.cast<int>(), "nil"); MUSTTHROW(u.cast<double>(), "nil"); MUSTTHROW(u.cast<cdouble>(), "nil"); G g = garray(r, NT[r.in(1, 6)], r.in(2, 5)); logf("%s\n", g.s.c_str()); MUSTTHROW(g.v.cast<int>(), "array"); MUSTTHROW(g.v.cast<double>(), "array"); MUSTTHROW(g.v.cast<cdouble>(), "array"); EQ(rep(g.v), g.s, "array");
    int t = NT[r.in(1, 6)], to = NT[r.in(0, 6)]; G h = gsmallarray(r, t, 1); var x; x = h.v[0]; std::string w = want(x, to); EQ(method(to, h.v), w, "array of one"); EQ(rep(h.v), h.s, "array"); }
