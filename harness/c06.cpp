// C06: assigning through an element changes that element only
#include "h.h"
using namespace libube;
static const int NT[] = {TYPE_CHAR, TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE};
static G gany(Rng& r) { int t = NT[r.in(0, 6)]; return gsmall(r, t); }
CASE(write) {
    int t = ELTYPES[r.in(0, 7)], n = r.in(1, 12), i = r.in(0, n - 1); G g = garray(r, t, n); auto e = els(g.v);
    G y = t == TYPE_VAR ? gvalue(r, 1, false) : gany(r); int how = r.in(0, 4); std::string ys = rep(y.v);
    logf("%s: element %d becomes %s, way %d\n", g.s.c_str(), i, y.s.c_str(), how);
    var a = g.v;     // shares the storage
    switch (how) { case 0: g.v[i] = y.v; break; case 1: g.v.at(i) = y.v; break; case 2: { var x = g.v[i]; x = y.v; break; } case 3: a[i] = y.v; break; case 4: { var s; s.resize(1); s.heap()->ptrvar(0)[0] = y.v; g.v[i] = s[0]; break; } }
    if (t == TYPE_VAR) e[i] = rep(y.v); else e[i] = conv(y.v, t);
    EQ(rep(g.v), joinrep(e, t), "array after the assignment"); EQ(rep(a), joinrep(e, t), "array sharing the storage");
    EQ(rep(y.v), ys, "the value assigned");
    var x; x = g.v[i]; EQ(t == TYPE_CDOUBLE ? repe(x) : rep(x), e[i], "reading the element back");
}
CASE(selfwrite) {
    int t = ELTYPES[r.in(0, 7)], n = r.in(1, 9); G g = garray(r, t, n); auto e = els(g.v); bool ref = r.p(1, 2);
    for (int k = 0; k < 4; k++) {
        int i = r.in(0, n - 1), j = r.in(0, n - 1); logf("%s: [%d] = [%d]\n", rep(g.v).c_str(), i, j);
        if (ref) g.v[i] = g.v[j]; else { var x; x = g.v[j]; g.v[i] = x; }
        e[i] = e[j]; EQ(rep(g.v), joinrep(e, t), "array");
    }
}
CASE(extend) {
    int t = ELTYPES[r.in(0, 7)], n = r.in(0, 12), more = r.in(0, 20); G g = garray(r, t, n); auto e = els(g.v);
    G y = t == TYPE_VAR ? gvalue(r, 1, false) : gany(r);
    logf("%s: element %d becomes %s\n", g.s.c_str(), n + more, y.s.c_str());
    if (r.p(1, 2)) g.v[n + more] = y.v; else { var x = g.v[n + more]; CHECK(g.v.size() == n + more + 1, "indexing past the end did not extend"); x = y.v; }
    CHECK(g.v.size() == n + more + 1, "length %d", g.v.size()); CHECK(g.v.heap()->type() == (long)t, "element type");
    for (int i = 0; i < n; i++) EQ(repel(g.v.heap(), i), e[i], "element %d", i);
    EQ(repel(g.v.heap(), n + more), t == TYPE_VAR ? rep(y.v) : conv(y.v, t), "new element");
    if (t == TYPE_VAR) for (int i = n; i < n + more; i++) CHECK(!g.v.at(i).defined(), "new element %d is defined", i);
    if (t == TYPE_CHAR) CHECK(g.v.heap()->ptrchar()[n + more + 1] == 0, "terminator");
}
CASE(grow) {      // nil becomes an array of vars, a scalar an array of its type
    { var v; G y = gvalue(r, 1, false); int i = r.in(0, 6); v[i] = y.v; CHECK(v.size() == i + 1 && v.heap() && v.heap()->type() == (long)TYPE_VAR, "nil[%d]", i); EQ(rep(v.heap()->ptrvar(i)[0]), y.s, "nil[%d] = %s", i, y.s.c_str()); for (int j = 0; j < i; j++) CHECK(!v.at(j).defined(), "element %d", j); }
    { int t = SCALARS[r.in(0, 5)]; G g = gscalar(r, t), y = gany(r); int i = r.in(0, 6); logf("%s[%d] = %s\n", g.s.c_str(), i, y.s.c_str()); var v = g.v; v[i] = y.v;
      EQ(rep(g.v), g.s, "copy of the scalar");
      if (i) { CHECK(v.size() == i + 1 && v.heap() && v.heap()->type() == (long)t, "scalar[%d]", i); EQ(repel(v.heap(), 0), g.s, "first element"); EQ(repel(v.heap(), i), conv(y.v, t), "new element"); }
      else EQ(v.heap() ? repel(v.heap(), 0) : rep(v), conv(y.v, t), "element 0"); }
}
CASE(read) {
    int t = ELTYPES[r.in(0, 7)], n = r.in(1, 12), i = r.in(0, n - 1); G g = garray(r, t, n); auto e = els(g.v); var x, y, z; logf("%s: element %d\n", g.s.c_str(), i);
    x = g.v[i]; y = g.v.at(i); std::vector<var> c; c.push_back(g.v[i]); z = c[0];
    var p; p.push(g.v[i]);
    auto see = [&](const char* w) { EQ(repe(x), one(e[i]), "value read by [], %s", w); EQ(repe(y), one(e[i]), "value read by at(), %s", w); EQ(repe(z), one(e[i]), "copied element, %s", w); };
    see("at once"); std::string ps = rep(p);
    G w = t == TYPE_VAR ? gvalue(r, 1, false) : gany(r); g.v[i] = w.v; see("after the element was replaced");
    EQ(rep(p), ps, "array that the element was pushed on");
    switch (r.in(0, 5)) { case 0: g.v.resize(n + 40); break; case 1: g.v.shift(); break; case 2: g.v.pop(); break; case 3: g.v = nil; break; case 4: g.v.clear(); break; case 5: g.v.resize(0); break; }
    see("after the array changed");
    // changing the value does not change the array
    G g2 = garray(r, t, n); x = g2.v[i]; std::string s2 = rep(g2.v); x = 5; EQ(rep(g2.v), s2, "array after the value read was assigned to"); EQ(rep(x), R(5), "value");
    y = g2.v.at(i); if (!y.heap() && y.defined() && !(t == TYPE_VAR)) { y += 1; EQ(rep(g2.v), s2, "array after the value read was incremented"); }
}
CASE(ref) {     // a reference follows the array's storage
    int t = ELTYPES[r.in(0, 7)], n = r.in(1, 9), i = r.in(0, n - 1); G g = garray(r, t, n); var x = g.v[i]; auto e = els(g.v); logf("%s element %d\n", g.s.c_str(), i);
    G y = t == TYPE_VAR ? gvalue(r, 0, false) : gany(r); g.v[i] = y.v; e[i] = t == TYPE_VAR ? rep(y.v) : conv(y.v, t);
    EQ(repe(x), one(e[i]), "reference after the element changed");
    g.v.resize(n + r.in(0, 40)); EQ(repe(x), one(e[i]), "reference after the array grew");
    y = t == TYPE_VAR ? gvalue(r, 0, false) : gany(r); x = y.v; e[i] = t == TYPE_VAR ? rep(y.v) : conv(y.v, t); for (int j = 0; j < n; j++) EQ(repel(g.v.heap(), j), e[j], "element %d", j);
    var w = g.v; g.v = nil; EQ(repe(x), one(e[i]), "reference after the variable was cleared"); w = nil; EQ(repe(x), one(e[i]), "reference outlives the variables");
}
CASE(update) {
    int t = NT[r.in(0, 6)], n = r.in(1, 9), i = r.in(0, n - 1); G g = gsmallarray(r, t, n), y = gany(r); auto e = els(g.v); char op = "+-*/"[r.in(0, 3)]; bool ok; logf("%s: [%d] %c= %s\n", g.s.c_str(), i, op, y.s.c_str());
    var cur; cur = g.v[i]; e[i] = arith(op, cur, y.v, &ok); if (!ok) return;
    switch (op) { case '+': g.v[i] += y.v; break; case '-': g.v[i] -= y.v; break; case '*': g.v[i] *= y.v; break; case '/': g.v[i] /= y.v; break; }
    EQ(rep(g.v), joinrep(e, t), "array");
}
CASE(nested) {
    var a; int n = r.in(1, 4); std::vector<std::vector<std::string>> m(n); for (int i = 0; i < n; i++) { int l = r.in(1, 4); for (int j = 0; j < l; j++) { G y = gvalue(r, 0, false); logf("[%d][%d]=%s\n", i, j, y.s.c_str()); a[i][j] = y.v; m[i].push_back(y.s); } }
    auto see = [&] { std::vector<std::string> o; for (auto& v : m) o.push_back(joinrep(v, TYPE_VAR)); EQ(rep(a), joinrep(o, TYPE_VAR), "nested array"); };
    see(); for (int k = 0; k < 6; k++) { int i = r.in(0, n - 1), j = r.in(0, (int)m[i].size() - 1); G y = gvalue(r, 0, false); logf("[%d][%d]=%s\n", i, j, y.s.c_str()); if (r.p(1, 2)) a[i][j] = y.v; else { var x = a[i]; x[j] = y.v; } m[i][j] = y.s; see(); }
}
CASE(refused) {     // a value that cannot be converted leaves everything as it was
    int t = NT[r.in(0, 6)], n = r.in(1, 9), i = r.in(0, n - 1); G g = garray(r, t, n); var bad; int k2 = r.in(0, 2); if (k2 == 0) bad = gsmallarray(r, NT[r.in(1, 6)], r.in(2, 4)).v; else if (k2 == 1) { bad.resize(2); }
    logf("%s: [%d] = %s\n", g.s.c_str(), i, rep(bad).c_str());
    MUSTTHROW(g.v[i] = bad, "not refused"); EQ(rep(g.v), g.s, "array");
}
