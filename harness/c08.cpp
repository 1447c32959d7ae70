// C08: arrays behave as sequences
#include "h.h"
using namespace libube;
typedef std::vector<std::string> E;
struct M { var a; E e; int t; };
static G el(Rng& r, int t) { if (t == TYPE_VAR) { G g = gvalue(r, 1, false); return g; } return gsmall(r, t); }
static std::string ee(const G& g, int t) { return t == TYPE_VAR ? rep(g.v) : conv(g.v, t); }
static void see(M& m, const char* w) { EQ(rep(m.a), joinrep(m.e, m.t), "array after %s", w); }
static void op(Rng& r, M& m, std::vector<std::pair<var, std::string>>& held) {
    int n = m.e.size(), t = m.t, k = r.in(0, 9);
    switch (k) {
    case 0: case 1: { G y = el(r, t); logf("push %s\n", y.s.c_str()); std::string ys = rep(y.v); m.a.push(y.v); m.e.push_back(ee(y, t)); see(m, "push"); EQ(rep(y.v), ys, "value pushed"); break; }
    case 2: { if (n < 1) break; logf("pop\n"); var x = m.a.pop(); EQ(repe(x), one(m.e.back()), "popped"); held.push_back({x, m.e.back()}); m.e.pop_back(); see(m, "pop"); break; }
    case 3: { if (n < 1) break; logf("shift\n"); var x = m.a.shift(); EQ(repe(x), one(m.e[0]), "shifted"); held.push_back({x, m.e[0]}); m.e.erase(m.e.begin()); see(m, "shift"); break; }
    case 4: { G y = el(r, t); logf("unshift %s\n", y.s.c_str()); m.a.unshift(y.v); m.e.insert(m.e.begin(), ee(y, t)); see(m, "unshift"); break; }
    case 5: { int i = r.in(0, n); if (t == TYPE_VAR || r.p(1, 2)) { G y = el(r, t); if (y.v.heap() && t != TYPE_VAR && t != TYPE_CDOUBLE) break; logf("insert %s at %d\n", y.s.c_str(), i); m.a.insert(y.v, i); m.e.insert(m.e.begin() + i, ee(y, t)); see(m, "insert"); }
              else { G y = t == TYPE_CHAR ? garray(r, t, r.in(0, 4)) : gsmallarray(r, t, r.in(0, 4)); E f = els(y.v); logf("insert %s at %d\n", y.s.c_str(), i); m.a.insert(y.v, i); m.e.insert(m.e.begin() + i, f.begin(), f.end()); see(m, "insert of an array"); EQ(rep(y.v), y.s, "inserted array"); } break; }
    case 6: { if (n < 1) break; int i = r.in(0, n - 1); logf("remove %d\n", i); var x = m.a.remove(i); EQ(repe(x), one(m.e[i]), "removed"); held.push_back({x, m.e[i]}); m.e.erase(m.e.begin() + i); see(m, "remove"); break; }
    case 7: { if (t == TYPE_VAR) { G y = el(r, t); logf("append %s\n", y.s.c_str()); m.a.append(y.v); m.e.push_back(ee(y, t)); } else { G y = t == TYPE_CHAR ? garray(r, t, r.in(0, 5)) : gsmallarray(r, t, r.in(0, 5)); E f = els(y.v); logf("append %s\n", y.s.c_str()); m.a.append(y.v); m.e.insert(m.e.end(), f.begin(), f.end()); EQ(rep(y.v), y.s, "appended array"); } see(m, "append"); break; }
    case 8: { if (n < 1) break; var x; x = m.a.top(); EQ(repe(x), one(m.e.back()), "top"); held.push_back({x, m.e.back()}); int i = r.in(0, n - 1); var y; y = m.a[i]; EQ(repe(y), one(m.e[i]), "element"); held.push_back({y, m.e[i]}); see(m, "reading"); break; }
    case 9: { if (n < 1) break; int i = r.in(0, n - 1); G y = el(r, t); logf("[%d] = %s\n", i, y.s.c_str()); m.a[i] = y.v; m.e[i] = ee(y, t); see(m, "assignment"); break; }
    }
    for (auto& h : held) EQ(repe(h.first), one(h.second), "a value that was returned earlier");
}
CASE(sequence) {
    M m; m.t = ELTYPES[r.in(0, 7)]; G g = m.t == TYPE_VAR || m.t == TYPE_CHAR ? garray(r, m.t, r.in(0, 9)) : gsmallarray(r, m.t, r.in(0, 9)); m.a = g.v; m.e = els(m.a); logf("%s\n", g.s.c_str());
    std::vector<std::pair<var, std::string>> held; int steps = r.in(1, 40); for (int k = 0; k < steps; k++) op(r, m, held);
}
CASE(element) {     // the sequence is an element of an array or of a map
    int t = ELTYPES[r.in(0, 7)]; G g = t == TYPE_VAR || t == TYPE_CHAR ? garray(r, t, r.in(0, 9)) : gsmallarray(r, t, r.in(0, 9)); logf("%s\n", g.s.c_str());
    var o; bool mp = r.p(1, 2); if (mp) { o["a"] = "x"; o["b"] = g.v; o["c"] = "x"; } else { o[0] = "x"; o[1] = g.v; o[2] = "x"; }
    M m{mp ? o["b"] : o[1], els(g.v), t}; std::vector<std::pair<var, std::string>> held; int steps = r.in(1, 20);
    for (int k = 0; k < steps; k++) { op(r, m, held); EQ(rep(mp ? o["a"] : o[0]), RS("x"), "another element"); EQ(rep(mp ? o["c"] : o[2]), RS("x"), "another element"); EQ(rep(mp ? o["b"] : o[1]), joinrep(m.e, t), "element"); CHECK(o.size() == 3, "size of the container"); }
}
CASE(itself) {      // an element of the array, or the array itself, goes into the array
    int t = ELTYPES[r.in(0, 7)], n = r.in(1, 10); G g = t == TYPE_VAR || t == TYPE_CHAR ? garray(r, t, n) : gsmallarray(r, t, n); M m{g.v, els(g.v), t}; logf("%s\n", g.s.c_str());
    for (int k = 0; k < 8; k++) { n = m.e.size(); int i = r.in(0, n - 1), j = r.in(0, n); std::string x = m.e[i]; if (t == TYPE_VAR && r.p(1, 1) && x.find('[') != std::string::npos) { }
        switch (r.in(0, 4)) {
        case 0: logf("push of [%d]\n", i); m.a.push(m.a[i]); m.e.push_back(x); break;
        case 1: logf("unshift of [%d]\n", i); m.a.unshift(m.a[i]); m.e.insert(m.e.begin(), x); break;
        case 2: logf("insert of [%d] at %d\n", i, j); if (t == TYPE_CDOUBLE) break; m.a.insert(m.a[i], j); m.e.insert(m.e.begin() + j, x); break;
        case 3: { logf("[%d] = [%d]\n", j % n, i); m.a[j % n] = m.a[i]; m.e[j % n] = x; break; }
        case 4: { if (t == TYPE_VAR || n > 30) break; logf("insert of itself at %d\n", j); m.a.insert(m.a, j); E c = m.e; m.e.insert(m.e.begin() + j, c.begin(), c.end()); break; }
        } see(m, "putting an element of it into the array"); }
}
CASE(ofviews) {     // an array whose elements are views: nothing is written into what they view
    int n = r.in(1, 6), w = r.in(1, 3); G g = gsmallarray(r, ELTYPES[r.in(1, 5)], n * w + 4); std::string st = g.s; var a; a.resize(0); E e;
    for (int i = 0; i < n; i++) { var v = g.v.view({w}, i * w); a.push(v); e.push_back(rep(v)); } logf("%d views of %s\n", n, st.c_str());
    auto all = [&](const char* what) { CHECK(a.size() == (int)e.size(), "size after %s", what); for (int i = 0; i < (int)e.size(); i++) EQ(rep(a.at(i)), e[i], "element %d after %s", i, what); EQ(rep(g.v), st, "the array that is viewed, after %s", what); };
    all("push");
    for (int k = 0; k < 8; k++) { n = e.size(); int i = n ? r.in(0, n - 1) : 0, j = r.in(0, n), o = r.in(0, g.v.size() - w);
        switch (r.in(0, 5)) {
        case 0: { var v = g.v.view({w}, o); logf("push\n"); a.push(v); e.push_back(rep(v)); break; }
        case 1: { if (!n) break; logf("pop\n"); var x = a.pop(); EQ(rep(x), e.back(), "popped"); e.pop_back(); break; }
        case 2: { if (!n) break; logf("shift\n"); var x = a.shift(); EQ(rep(x), e[0], "shifted"); e.erase(e.begin()); break; }
        case 3: { var v = g.v.view({w}, o); logf("unshift\n"); a.unshift(v); e.insert(e.begin(), rep(v)); break; }
        case 4: { var v = g.v.view({w}, o); logf("insert %d\n", j); a.insert(v, j); e.insert(e.begin() + j, rep(v)); break; }
        case 5: { if (!n) break; logf("remove %d\n", i); var x = a.remove(i); EQ(rep(x), e[i], "removed"); e.erase(e.begin() + i); break; }
        } all("the operation"); if (e.empty()) { var v = g.v.view({w}, 0); if (!a.defined()) break; a.push(v); e.push_back(rep(v)); } }
}
CASE(frommanyshifts) {      // shifting moves the start of the array; growing afterwards must keep the elements
    M m; m.t = ELTYPES[r.in(0, 7)]; G g = garray(r, m.t, r.in(1, 20)); m.a = g.v; m.e = els(m.a); logf("%s\n", g.s.c_str()); k = r.in(1, (int)m.e.size());
    for (int i = 0; i < k; i++) { var x = m.a.shift(); EQ(repe(x), one(m.e[0]), "shifted"); m.e.erase(m.e.begin()); } see(m, "shifts");
    int w = r.in(0, 30); for (int i = 0; i < w; i++) { G y = el(r, m.t); if (r.p(1, 3)) { m.a.unshift(y.v); m.e.insert(m.e.begin(), ee(y, m.t)); } else { m.a.push(y.v); m.e.push_back(ee(y, m.t)); } } see(m, "growing again");
}
CASE(maps) {      // the values of a map, in the order of their keys
    var a; std::map<int, std::string> m; int n = r.in(1, 12); for (int i = 0; i < n; i++) { int key = r.in(-20, 20); G y = gvalue(r, 1); a[var(key)] = y.v; m[key] = y.s; }
    auto see = [&](const char* w) { E e; for (auto& x : m) e.push_back(R(x.first) + "=>" + x.second); if (e.empty()) { CHECK(a.size() == 0, "map is not empty after %s", w); return; } EQ(rep(a), joinrep(e, TYPE_PAIR), "map after %s", w); }; see("filling"); logf("%s\n", rep(a).c_str());
    while (!m.empty()) switch (r.in(0, 3)) {
        case 0: { var x = a.shift(); EQ(one(rep(x)), one(m.begin()->second), "shifted"); m.erase(m.begin()); see("shift"); break; }
        case 1: { var x = a.pop(); EQ(one(rep(x)), one(m.rbegin()->second), "popped"); m.erase(std::prev(m.end())); see("pop"); break; }
        case 2: { int i = r.in(0, (int)m.size() - 1); auto it = m.begin(); std::advance(it, i); var x = a.remove(i); EQ(one(rep(x)), one(it->second), "removed"); m.erase(it); see("remove"); break; }
        case 3: { int key = r.in(-20, 20); G y = gvalue(r, 1); a[var(key)] = y.v; m[key] = y.s; see("storing"); if (r.p(1, 2)) m.size(); break; }
    }
    MUSTTHROW(a.shift(), "shift of an empty map"); MUSTTHROW(a.pop(), "pop of an empty map");
}
CASE(fromnil) {
    var a; G y = gvalue(r, 0, false); bool arr = y.v.heap(); logf("push %s on nil\n", y.s.c_str()); a.push(y.v); if (!arr) { EQ(rep(a), y.s, "nil after one push"); G z = gscalar(r, (int)(long)y.v.type()); a.push(z.v); EQ(rep(a), joinrep({y.s, z.s}, (int)(long)y.v.type()), "after two"); }
    else { EQ(rep(a), joinrep({y.s}, TYPE_VAR), "nil after the push of an array"); a.push(var(1)); EQ(rep(a), joinrep({y.s, R(1)}, TYPE_VAR), "after two"); }
}
CASE(scalar) {      // a scalar is turned into an array of its type
    int t = SCALARS[r.in(0, 5)]; G g = gscalar(r, t), y = gscalar(r, t); var a = g.v; int k2 = r.in(0, 3), i = r.in(0, 1); logf("%s op %d %s\n", g.s.c_str(), k2, y.s.c_str());
    switch (k2) { case 0: a.push(y.v); EQ(rep(a), joinrep({g.s, y.s}, t), "push"); break; case 1: a.unshift(y.v); EQ(rep(a), joinrep({y.s, g.s}, t), "unshift"); break;
    case 2: a.append(y.v); EQ(rep(a), joinrep({g.s, y.s}, t), "append"); break; case 3: a.insert(y.v, i); EQ(rep(a), i ? joinrep({g.s, y.s}, t) : joinrep({y.s, g.s}, t), "insert"); break; }
    EQ(rep(g.v), g.s, "the scalar's other copy");
}
CASE(strings) {
    std::string s = grand(r, 12), u = grand(r, 12); logf("%s %s\n", q(s).c_str(), q(u).c_str()); var a = var((int)s.size(), s.c_str()), b = var((int)u.size(), u.c_str()); a.append(b); EQ(rep(a), RS(s + u), "append"); CHECK(strcmp(a.str(), (s + u).c_str()) == 0, "str"); EQ(rep(b), RS(u), "appended"); a.append(u.c_str()); EQ(rep(a), RS(s + u + u), "append of a C string");
    var c = s.c_str(); EQ(rep(c), RS(s), "string from a C string"); int i = r.in(0, s.size()); c.insert(b, i); EQ(rep(c), RS(s.substr(0, i) + u + s.substr(i)), "insert at %d", i);
    const char* ss[] = {s.c_str(), u.c_str()}; var d(2, ss); EQ(rep(d), joinrep({RS(s), RS(u)}, TYPE_VAR), "array of strings"); const char* sn[] = {s.c_str(), u.c_str(), 0}; var f(sn); EQ(rep(f), joinrep({RS(s), RS(u)}, TYPE_VAR), "array of strings");
}
