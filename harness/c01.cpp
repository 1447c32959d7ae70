// C01: shared storage lives exactly as long as something refers to it
#include "h.h"
using namespace libube;
// counts what is reachable: every heap block is two allocations (the object and its data)
static void reach(const var& v, std::set<void*>& seen) {
    if (!v.defined()) return;
    IHeap* h = v.heap();
    if (!h || !seen.insert(h).second) return;
    if (h->view()) { h = h->view(); if (!seen.insert(h).second) return; }
    int n = h->size();
    if (h->type() == (long)TYPE_VAR) for (int i = 0; i < n; i++) reach(*h->ptrvar(i), seen);
    if (h->type() == (long)TYPE_PAIR) for (int i = 0; i < n; i++) { reach(h->ptrpair(i)->key, seen); reach(h->ptrpair(i)->val, seen); }
}
static G simple(Rng& r) {
    switch (r.in(0, 3)) {
    case 0: return gscalar(r, SCALARS[r.in(0, 5)]);
    case 1: { std::string s = grand(r, 8, "abc"); return {var((int)s.size(), s.c_str()), RS(s)}; }
    case 2: return garray(r, ELTYPES[r.in(0, 6)], r.in(0, 9));
    }
    return {var(), "U"};
}
// random histories over a pool of values; top level values may hold simple ones
static void history(Rng& r, int len) {
    std::vector<var> S(3), P(4); std::vector<std::string> ss(3);
    for (int i = 0; i < 3; i++) { G g = simple(r); S[i] = g.v; ss[i] = rep(S[i]); logf("S%d = %s\n", i, ss[i].c_str()); }
    for (int n = 0; n < len; n++) {
        int o = r.in(0, 33), a = r.in(0, 3), b = r.in(0, 3), s = r.in(0, 2), k = r.in(0, 6);
        var& A = P[a]; var& B = P[b];
        logf("op %d A=P%d (%s) B=P%d (%s) S%d k=%d\n", o, a, rep(A).substr(0, 200).c_str(), b, rep(B).substr(0, 200).c_str(), s, k);
        try {
            switch (o) {
            case 0: A = B; break;
            case 1: { var t(B); var u(std::move(t)); A = u; } break;
            case 2: A = B.copy(); break;
            case 3: if (!A.view()) A[k] = S[s]; break;
            case 4: A.push(S[s]); break;
            case 5: { var t = A.pop(); rep(t); } break;
            case 6: { var t = A.shift(); rep(t); } break;
            case 7: A.unshift(S[s]); break;
            case 8: A.insert(S[s], k); break;
            case 9: { var t = A.remove(k); rep(t); } break;
            case 10: A = A.sort(); break;
            case 11: A.clear(); break;
            case 12: A = nil; for (int i = 0; i < k; i++) A.push(S[r.in(0, 2)]); break;
            case 13: { var t = A[k]; t = S[s]; } break;
            case 14: A.resize(k * 7); break;
            case 15: { var x = A.view({k, 2}); B = x; } break;
            case 16: { var x = A.view({1}, k); rep(x); } break;
            case 17: A = nil; A[nil]; break;
            case 18: A[var("key") ] = S[s]; break;
            case 19: { var t = A[var(k)]; t = S[s]; } break;
            case 20: { var t = A.at(k); rep(t); B = t; } break;
            case 21: { var t = A.key(k); rep(t); } break;
            case 22: { var x = A.at(k); x.resize(k + 3); } break;
            case 23: { bool e = A == B; bool l = A < B; (void)(e && l); } break;
            case 24: { var c[2] = {A, B}; c[0] = c[1]; c[1] = c[0][0]; } break;
            case 25: A = var(k + 1, S[s]); break;
            case 26: { ind i = A.index(S[s]); (void)i; } break;
            case 27: A.array(); break;
            case 28: { var t = libube::range(k); t = t.view({k}); A = t; } break;
            case 29: { var w = A.view({2, 2}, k); var z = w.view({2}); B = z; } break;
            case 30: A.presize(20); break;
            case 31: { var f = A.copy(true); B = f; if (!B.view()) B = nil; else B = B.size() ? var(1) : nil; } break;
            case 32: A = A; break;
            case 33: { var& d = A.dereference(); rep(d); } break;
            }
        } catch (const std::exception& e) { logf("   threw\n"); }
        for (int i = 0; i < 3; i++) CHECK(S[i].defined() == (ss[i] != "U"), "bystander S%d lost its value", i);
        for (auto& p : P) rep(p);
    }
    // drop them one by one; what remains must still be readable
    for (int n = 0; n < 4; n++) { P[r.in(0, 3)].clear(); for (auto& p : P) rep(p); }
}
CASE(history) { Balance b("history of operations"); history(r, r.in(1, 25)); b.done(); }
// what is allocated is what is reachable, at any moment
CASE(exact) {
    Balance b("values");
    {
        std::vector<var*> v; v.reserve(40); long base = gLive; std::set<void*> seen;
        auto add = [&](const var& x) { v.push_back(new var(x)); };
        for (int i = 0; i < 6; i++) {
            int o = r.in(0, 4);
            logf("build %d\n", o);
            switch (o) {
            case 0: add(simple(r).v); break;
            case 1: { var a; for (int j = r.in(0, 12); j > 0; j--) throws([&] { a.push(simple(r).v); }); add(a); } break;
            case 2: { var m; m[nil]; for (int j = r.in(0, 12); j > 0; j--) m[var(grand(r, 3, "ab").c_str())] = simple(r).v; add(m); } break;
            case 3: if (!v.empty()) add(*v[r.in(0, (int)v.size() - 1)]); break;
            case 4: if (!v.empty()) { var x = *v[r.in(0, (int)v.size() - 1)]; if (x.heap() && x.size() > 0 && !x.view()) { var w = x.view({x.size()}); add(w); } } break;
            }
        }
        while (true) {
            seen.clear(); for (auto x : v) reach(*x, seen);
            long want = 2 * (long)seen.size(), have = gLive - base - (long)v.size();
            have -= (long)seen.size();      // the nodes of the set itself
            CHECK(have == want, "%ld allocations, but %ld are reachable", have, want);
            if (v.empty()) break;
            int i = r.in(0, (int)v.size() - 1); logf("drop value %d of %zu\n", i, v.size());
            delete v[i]; v.erase(v.begin() + i);
        }
    }
    b.done();
}
// failing operations leave the counts balanced
CASE(failing) {
    Balance b("failing operation");
    {
        G g = garray(r, ELTYPES[r.in(0, 7)], r.in(0, 9)); var v = g.v, w = v; int k = r.in(0, 20); bool t = false;
        logf("op %d on %s\n", k, g.s.c_str());
        t = throws([&] {
            switch (k) {
            case 0: v.at(50); break; case 1: v.at(-1); break; case 2: v.key(0); break; case 3: v.view({100}); break; case 4: v.view({-1}); break; case 5: v.view({1}, -1); break;
            case 6: { var x = v.view({1}); x.offset(99); } break; case 7: { var x = v.view({1}); x.resize(3); } break; case 8: v.insert(var("x"), 99); break; case 9: v.remove(99); break;
            case 10: { var u; u.pop(); } break; case 11: { var u; u.atype(); } break; case 12: v(3, 4); break; case 13: v.stride(3); break; case 14: v.shape(3); break;
            case 15: { var x = v.view({1, 1}); x(0, 5); } break; case 16: { var x = v.view({1}); x.shift(); } break; case 17: { var x = v.view({1}); x.unshift(1); } break;
            case 18: { var m; m[nil]; m.unshift(1); } break; case 19: { var x("zz"); x.cast<int>(); } break; case 20: v.view(var()); break;
            } });
        logf("threw: %d\n", t);
        EQ(rep(v), g.s, "after a failing operation");
    }
    b.done();
}
