// C02: resizing keeps contents and stays within the allocation
#include "h.h"
using namespace libube;
static void resizing(Rng& r, int t, const std::vector<int>& seq) {
    Balance b("resize sequence");
    {
        int n = seq[0];
        G g = garray(r, t, n);
        std::vector<std::string> e;
        for (int i = 0; i < n; i++) e.push_back(repel(g.v.heap(), i));
        std::vector<std::string> hist = e;     // what has ever been at each index
        int high = n;                          // highest length so far
        for (size_t s = 1; s < seq.size(); s++) {
            int m = seq[s];
            logf("resize %d -> %d\n", n, m);
            g.v.resize(m);
            CHECK(g.v.size() == m, "size is %d after resize(%d)", g.v.size(), m);
            CHECK(g.v.heap() && g.v.heap()->type() == (long)t, "element type changed");
            for (int i = 0; i < std::min(n, m); i++) EQ(repel(g.v.heap(), i), e[i], "element %d after resize from %d to %d", i, n, m);
            if (t == TYPE_CHAR) CHECK(g.v.heap()->ptrchar()[m] == 0, "string is not terminated at %d", m);
            if (t == TYPE_VAR) for (int i = std::max(n, high); i < m; i++) CHECK(!g.v.heap()->ptrvar(i)->defined(), "element %d exposed by resize(%d) is defined", i, m);
            high = std::max(high, m);
            // all of it can be written
            e.resize(m);
            for (int i = 0; i < m; i++) {
                if (i < n && r.p(2, 3)) continue;
                G x = t == TYPE_VAR ? gvalue(r, 0) : t == TYPE_CDOUBLE ? G{var(cdouble(i, 1)), R(cdouble(i, 1))} : gscalar(r, t);
                IHeap* h = g.v.heap();
                switch (t) {
                case TYPE_CHAR: *h->ptrchar(i) = x.v.get<char>(); break;
                case TYPE_INT: *h->ptrint(i) = x.v.get<int>(); break;
                case TYPE_LONG: *h->ptrlong(i) = x.v.get<long>(); break;
                case TYPE_FLOAT: *h->ptrfloat(i) = x.v.get<float>(); break;
                case TYPE_DOUBLE: *h->ptrdouble(i) = x.v.get<double>(); break;
                case TYPE_CFLOAT: *h->ptrcfloat(i) = x.v.get<cfloat>(); break;
                case TYPE_CDOUBLE: *h->ptrcdouble(i) = x.v.get<cdouble>(); break;
                case TYPE_VAR: *h->ptrvar(i) = x.v; break;
                }
                e[i] = x.s;
            }
            n = m;
            EQ(rep(g.v), joinrep(e, t), "contents after resize(%d) and writing", m);
        }
    }
    b.done();
}
CASE(pairs, 8 * 40 * 40) {
    int t = ELTYPES[k % 8], a = (k / 8) % 40, c = k / 320;
    logf("element type %d\n", t);
    resizing(r, t, {a, c});
}
CASE(sequence) {
    int t = ELTYPES[r.in(0, 7)]; std::vector<int> s;
    int n = r.in(2, 6);
    for (int i = 0; i < n; i++) s.push_back(r.p(1, 6) ? r.in(0, 600) : r.p(1, 2) ? r.in(0, 20) : (1 << r.in(3, 7)) + r.in(-2, 2));
    logf("element type %d\n", t);
    resizing(r, t, s);
}
CASE(pairarray) {
    Balance b("map resize");
    { var m; int n = r.in(0, 12); std::map<int, std::string> mm;
      m[nil];
      for (int i = 0; i < n; i++) { G g = gvalue(r, 0, false); m[var(i * 3)] = g.v; mm[i * 3] = g.s; }
      int to = r.in(0, 40); logf("map of %d resized to %d\n", n, to);
      m.resize(to);
      CHECK(m.size() == to, "size");
      for (int i = 0; i < std::min(n, to); i++) { EQ(rep(m.key(i)), R(i * 3), "key %d", i); EQ(rep(m.at(i)), mm[i * 3], "value %d", i); }
      for (int i = n; i < to; i++) { CHECK(!m.heap()->ptrpair(i)->val.defined() , "exposed value %d is defined", i); }
    }
    b.done();
}
CASE(append) {
    Balance b("append");
    {
        int t = r.in(0, 2), n = r.in(0, 20), m = r.p(1, 5) ? r.in(0, 300) : r.in(0, 20);
        logf("append type %d: %d to %d\n", t, m, n);
        if (t == 0) {
            std::string a = grand(r, n), c; for (int i = 0; i < m; i++) c += (char)r.in(0, 255);
            var v((int)a.size(), a.c_str()); v.append<char>(m, c.data());
            EQ(rep(v), RS(a + c), "char append");
            if (r.p(1, 2)) { std::string d = grand(r, 9); v.append(d.c_str()); EQ(rep(v), RS(a + c + d), "string append"); }
        } else if (t == 1) {
            std::vector<int> a(n), c(m); std::vector<std::string> e;
            for (auto& x : a) { x = r.in(-99, 99); e.push_back(R(x)); } for (auto& x : c) { x = r.in(-99, 99); e.push_back(R(x)); }
            var v(n, a.data()); v.append<int>(m, c.data()); EQ(rep(v), joinrep(e, TYPE_INT), "int append");
        } else {
            std::vector<cdouble> c(m); std::vector<std::string> e; var v(cdouble(1, 2)); e.push_back(R(cdouble(1, 2)));
            for (auto& x : c) { x = cdouble(r.in(-9, 9), r.in(-9, 9)); e.push_back(R(x)); }
            v.append<cdouble>(m, c.data()); EQ(rep(v), joinrep(e, TYPE_CDOUBLE), "cdouble append");
        }
    }
    b.done();
}
CASE(scalar, 6 * 40) {       // resizing a scalar or an undefined value makes an array
    int t = SCALARS[k % 6], n = k / 6; G g = gscalar(r, t); logf("scalar %s resized to %d\n", g.s.c_str(), n);
    var v = g.v; v.resize(n);
    if (n > 1) { CHECK(v.size() == n, "size"); CHECK(v.atype() == (long)t, "type"); EQ(repel(v.heap(), 0), g.s, "first element"); }
    var u; u.resize(n); CHECK(u.size() == n, "size of resized nil"); for (int i = 0; i < n; i++) CHECK(!u.at(i).defined(), "element %d defined", i);
    var s = "string"; s.presize(n + 6); EQ(rep(s), RS("string"), "presize");
    var e = ""; CHECK(e.size() == 0 && e.str()[0] == 0, "empty string");
}
