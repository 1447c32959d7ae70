// C09: a map returns the last value stored under each key
#include "h.h"
using namespace libube;
struct K { var v; std::string s; };     // a key; the model is ordered by the C++ value
template <class T> struct Keys;
template <> struct Keys<int> { static int gen(Rng& r) { return r.p(1, 6) ? r.in(INT_MIN, INT_MAX) : r.in(-9, 9); } static var v(int x) { return var(x); } static std::string s(int x) { return R(x); } };
template <> struct Keys<long> { static long gen(Rng& r) { return r.p(1, 6) ? (long)r.next() : r.in(-9, 9); } static var v(long x) { return var(x); } static std::string s(long x) { return R(x); } };
template <> struct Keys<double> { static double gen(Rng& r) { return r.in(-9, 9) * 0.5; } static var v(double x) { return var(x); } static std::string s(double x) { return R(x); } };
template <> struct Keys<char> { static char gen(Rng& r) { return r.in('a', 'm'); } static var v(char x) { return var(x); } static std::string s(char x) { return R(x); } };
template <> struct Keys<std::string> { static std::string gen(Rng& r) { return r.p(1, 12) ? gword(r) : grand(r, 3, r.p(1, 3) ? "ab\xc3\x7f" : "ab"); } static var v(const std::string& x) { return r_(x); } static var r_(const std::string& x) { return var((int)x.size(), x.c_str()); } static std::string s(const std::string& x) { return RS(x); } };
template <> struct Keys<std::vector<int>> { static std::vector<int> gen(Rng& r) { std::vector<int> v; int n = r.in(1, 3); for (int i = 0; i < n; i++) v.push_back(r.in(0, 2)); return v; } static var v(const std::vector<int>& x) { return var((int)x.size(), x.data()); } static std::string s(const std::vector<int>& x) { std::vector<std::string> e; for (int i : x) e.push_back(R(i)); return joinrep(e, TYPE_INT); } };
template <class T, class F> static void run(Rng& r, F A) {      // A(): the map (or a reference to it, made anew each time)
    typedef Keys<T> Q; std::map<T, std::string> m; if (r.p(1, 3)) A()[nil];
    auto see = [&](const char* w) {
        std::vector<std::string> e; for (auto& x : m) e.push_back(Q::s(x.first) + "=>" + x.second); if (!A().defined()) { CHECK(m.empty(), "map is undefined after %s", w); return; }
        EQ(rep(A()), joinrep(e, TYPE_PAIR), "map after %s", w); CHECK(A().size() == (int)m.size(), "size");
        int i = 0; for (auto& x : m) { EQ(rep(A().key(i)), Q::s(x.first), "key(%d)", i); var y; y = A()[var(A().key(i))]; EQ(rep(y), x.second, "value of key %d", i); CHECK(A().index(Q::v(x.first)) == (long)i, "index of key %d", i); i++; } };
    int steps = r.in(1, 30);
    for (int k = 0; k < steps; k++) {
        T key = Q::gen(r); var kv = Q::v(key); std::string ks = rep(kv); bool has = m.count(key);
        switch (r.in(0, 8)) {
        case 8: { if (m.empty()) break; logf("unshift\n"); MUSTTHROW(A().unshift(var(1)), "an element at the front of a map"); see("a refused unshift"); break; }
        case 0: case 1: case 2: { G y = gvalue(r, 1); logf("[%s] = %s\n", ks.c_str(), y.s.c_str()); A()[kv] = y.v; m[key] = y.s; see("storing"); break; }
        case 3: { if (!A().defined()) break; logf("at %s\n", ks.c_str()); const var c = A(); var x; x = r.p(1, 2) ? c.at(kv) : A().at(kv); if (has) EQ(rep(x), m[key], "at(key)"); else CHECK(!x.defined(), "absent key has a value"); CHECK((c.index(kv) >= 0) == has, "index(key)"); CHECK((A().index(kv) >= 0) == has, "index(key)"); see("a read-only lookup"); break; }
        case 4: { if (m.empty()) break; int i = r.in(0, (int)m.size() - 1); auto it = m.begin(); std::advance(it, i); logf("remove %d\n", i); var x = A().remove(i); EQ(one(rep(x)), one(it->second), "removed value"); m.erase(it); see("remove"); break; }
        case 5: { if (!has) break; logf("read [%s]\n", ks.c_str()); var x; x = A()[kv]; EQ(rep(x), m[key], "[key]"); G y = gvalue(r, 0); A()[kv] = y.v; EQ(one(rep(x)), one(m[key]), "value read earlier"); m[key] = y.s; see("replacing"); break; }
        case 6: { if (!A().defined()) break; logf("create [%s]\n", ks.c_str()); A()[kv]; if (!has) m[key] = "U"; see("indexing"); break; }
        case 7: { if (m.empty()) break; var c = A().copy(); G y = gvalue(r, 0); c[kv] = y.v; see("changing a copy"); break; }
        }
    }
    see("all");
}
CASE(ints) { var a; run<int>(r, [&]() -> var& { return a; }); }
CASE(longs) { var a; run<long>(r, [&]() -> var& { return a; }); }
CASE(doubles) { var a; run<double>(r, [&]() -> var& { return a; }); }
CASE(chars) { var a; run<char>(r, [&]() -> var& { return a; }); }
CASE(strings) { var a; run<std::string>(r, [&]() -> var& { return a; }); }
CASE(arrays) { var a; run<std::vector<int>>(r, [&]() -> var& { return a; }); }
template <class T> static void inner(Rng& r) {      // a map that is an element of something else
    var o, f = r.p(1, 2) ? var("other") : var(7); std::string before, key = "k";
    if (r.p(1, 2)) { o["a"] = f; o["z"] = f; run<T>(r, [&]() -> var { return o["k"]; }); EQ(rep(o.at("a")), rep(f), "another entry"); EQ(rep(o.at("z")), rep(f), "another entry"); CHECK(o.size() == 3, "entries"); }
    else { o[0] = f; o[2] = f; var n; o[1] = n; if (!o.atype<var>()) return; run<T>(r, [&]() -> var { return o[1]; }); EQ(rep(o[0]), rep(f), "another element"); EQ(rep(o[2]), rep(f), "another element"); }
}
CASE(innerints) { inner<int>(r); }
CASE(innerstrings) { inner<std::string>(r); }
CASE(nested) {      // maps of maps, through element references
    var a; std::map<std::string, std::map<int, std::string>> m;
    for (int k = 0; k < 12; k++) { std::string x = grand(r, 2, "ab"); int i = r.in(0, 5); G y = gvalue(r, 0, false); logf("[%s][%d] = %s\n", q(x).c_str(), i, y.s.c_str()); a[var((int)x.size(), x.c_str())][var(i)] = y.v; m[x][i] = y.s; 
        std::vector<std::string> o; for (auto& p : m) { std::vector<std::string> e; for (auto& z : p.second) e.push_back(R(z.first) + "=>" + z.second); o.push_back(RS(p.first) + "=>" + joinrep(e, TYPE_PAIR)); } EQ(rep(a), joinrep(o, TYPE_PAIR), "map of maps"); }
}
CASE(notmap) { var s = 3; MUSTTHROW(s.at(var("x")), "key lookup in a scalar"); G g = garray(r, ELTYPES[r.in(0, 7)], r.in(1, 5)); std::string b = rep(g.v); MUSTTHROW(g.v.at(var("x")), "key lookup in an array"); MUSTTHROW(g.v.key(0), "key of an array"); EQ(rep(g.v), b, "array"); var n; MUSTTHROW(n.at(var("x")), "key lookup in nil"); CHECK(n.index(var(1)) == (long)-1, "index in nil"); }
