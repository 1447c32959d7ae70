// C04: every view describes a region inside its storage, in row-major order
#include "h.h"
using namespace libube;
static void wellformed(const var& v, IHeap* base, const std::vector<int>& sh, int off) {
    IHeap* h = v.heap();
    CHECK(h->view() == base, "the view refers to other storage");
    CHECK(h->offset() == off && v.offset() == off, "offset is %d, expected %d", h->offset(), off);
    CHECK(h->dim() == (int)sh.size() && v.dim() == (int)sh.size(), "dim is %d", h->dim());
    long st = 1;
    for (int d = (int)sh.size() - 1; d >= 0; d--) {
        CHECK(h->shape(d) == sh[d] && v.shape(d) == sh[d], "shape(%d) is %d, expected %d", d, h->shape(d), sh[d]);
        CHECK(h->stride(d) == st && v.stride(d) == st, "stride(%d) is %d, expected %ld", d, h->stride(d), st);
        st *= sh[d];
    }
    CHECK(h->size() == st && v.size() == st, "size is %d, expected %ld", h->size(), st);
    CHECK(h->offset() >= 0 && h->offset() + h->size() <= base->size(), "view reaches outside the storage");
    CHECK(h->type() == base->type(), "type");
    rep(v);
}
static var mk(var& a, const std::vector<int>& sh, int off, int how) {
    if (how == 0) return a.view(sh.empty() ? var().resize(0) : var((int)sh.size(), sh.data()), off);
    switch (sh.size()) {
    case 0: return a.view(std::initializer_list<int>{}, off);
    case 1: return a.view({sh[0]}, off);
    case 2: return a.view({sh[0], sh[1]}, off);
    case 3: return a.view({sh[0], sh[1], sh[2]}, off);
    }
    return a.view({sh[0], sh[1], sh[2], sh[3]}, off);
}
// +1: must be accepted, -1: must be refused, 0: either (an empty view with absurd dimensions)
static int judge(const std::vector<int>& sh, long off, long n) {
    if (sh.empty() || off < 0 || off > n) return -1;
    bool odd = false; __int128 p = 1;
    for (int i = (int)sh.size() - 1; i >= 0; i--) { if (sh[i] < 0) return -1; if (p > INT_MAX) { odd = true; p = INT_MAX + 1L; } p *= sh[i]; }
    if (odd && p == 0) return 0;       // empty, but with strides that are not representable
    return off + p <= n ? 1 : -1;
}
static void attempt(var& a, IHeap* base, int n, int off0, const std::vector<int>& sh, int off, int how) {
    std::string before = rep(a);
    logf("view of %d elements (storage offset %d), offset %d, shape", n, off0, off); for (int x : sh) logf(" %d", x); logf("\n");
    long o = (long)off0 + off; int j = judge(sh, o, n); bool t = false; var v; long live = gLive;
    t = throws([&] { var x = mk(a, sh, off, how); v = x; });
    if (j == 1) CHECK(!t, "a valid view is refused");
    if (j == -1) CHECK(t, "an invalid view is accepted: %s", v.view() && v.heap()->size() >= 0 && v.heap()->size() < 100 && v.offset() >= 0 && v.offset() + v.size() <= n ? rep(v).c_str() : "outside the storage");
    if (!t) wellformed(v, base, sh, (int)o); else CHECK(gLive == live, "a refused view leaks");
    v = nil;
    EQ(rep(a), before, "storage");
}
static const int ODD[] = {INT_MIN, INT_MIN / 2, -65536, -1000, -2, -1, 0, 1, 2, 3, 7, 8, 1000, 32768, 46341, 65536, 65537, 1 << 20, 1 << 29, 1 << 30, INT_MAX - 2, INT_MAX - 1, INT_MAX};
CASE(small, 5 * 9 * 7 * 7 * 2) {
    int n = (k % 5) * 3, off = (k / 5) % 9 - 2, a = (k / 45) % 7 - 1, b = (k / 315) % 7 - 1, how = k / 2205;
    G g = garray(r, ELTYPES[r.in(0, 7)], n);
    attempt(g.v, g.v.heap(), n, 0, {a, b}, off, how); attempt(g.v, g.v.heap(), n, 0, {a}, off, how);
    attempt(g.v, g.v.heap(), n, 0, {a, b, r.in(-1, 3)}, off, how);
    attempt(g.v, g.v.heap(), n, 0, {}, off, how);
}
CASE(extreme) {
    int n = r.in(0, 30), d = r.in(1, 4), off = r.p(1, 2) ? r.in(0, 3) : ODD[r.in(0, 22)]; std::vector<int> sh;
    for (int i = 0; i < d; i++) sh.push_back(r.p(1, 2) ? ODD[r.in(0, 22)] : r.in(0, 4));
    G g = garray(r, ELTYPES[r.in(0, 7)], n);
    attempt(g.v, g.v.heap(), n, 0, sh, off, r.in(0, 1));
}
CASE(nested) {
    int n = r.in(1, 40); G g = garray(r, ELTYPES[r.in(0, 7)], n); IHeap* b = g.v.heap();
    int o = r.in(0, n), m = r.in(0, n - o); logf("outer offset %d size %d\n", o, m);
    var v = g.v.view({m}, o); wellformed(v, b, {m}, o);
    for (int i = 0; i < 4; i++) {
        std::vector<int> sh; int d = r.in(1, 3), o2 = r.p(1, 6) ? -r.in(1, 5) : r.in(0, 6); for (int j = 0; j < d; j++) sh.push_back(r.in(0, 4));
        // overflow of the summed offset
        if (r.p(1, 8)) o2 = INT_MAX - r.in(0, 2) - (o ? 0 : 0);
        if ((long)o + o2 > INT_MAX) o2 = INT_MAX - o;
        attempt(v, b, n, o, sh, o2, r.in(0, 1));
    }
}
CASE(move) {
    int n = r.in(1, 30); G g = garray(r, ELTYPES[r.in(0, 7)], n); std::vector<int> sh; int d = r.in(1, 3), p = 1;
    for (int j = 0; j < d; j++) { int x = r.in(1, 3); if (p * x > n) x = 1; sh.push_back(x); p *= x; }
    int o = r.in(0, n - p); var v = mk(g.v, sh, o, r.in(0, 1)); wellformed(v, g.v.heap(), sh, o);
    if (r.p(1, 3)) { n = p + o + r.in(0, n - p - o); g.v.resize(n); }     // the storage has shrunk, not below the view
    for (int i = 0; i < 10; i++) {
        int to = r.p(1, 4) ? ODD[r.in(0, 22)] : r.in(-3, n + 2); bool adv = r.p(1, 3), ok = to >= 0 && (long)to + p <= n, t;
        logf("storage %d, view size %d at %d moved to %d\n", n, p, o, to);
        long by = (long)to - o; if (by < INT_MIN || by > INT_MAX) adv = false;
        t = throws([&] { if (adv) v.advance((int)by); else v.offset(to); });
        CHECK(t == !ok, ok ? "a valid offset is refused" : "an invalid offset is accepted");
        if (!t) o = to;
        wellformed(v, g.v.heap(), sh, o);
    }
}
CASE(subview) {
    std::vector<int> sh; int d = r.in(1, 4), p = 1; for (int i = 0; i < d; i++) { sh.push_back(r.in(1, 4)); p *= sh[i]; }
    int o = r.in(0, 3), n = p + o + r.in(0, 3); G g = garray(r, ELTYPES[r.in(0, 6)], n); var v = mk(g.v, sh, o, 0);
    int sd = r.in(-1, d), so = r.in(0, p); logf("subview(%d,%d) of dim %d size %d at %d\n", sd, so, d, p, o);
    if (sd < 1) { MUSTTHROW(v.subview(sd, so), "subview of dim %d", sd); return; }
    std::vector<int> ss(sh.end() - sd, sh.end()); int q = 1; for (int x : ss) q *= x;
    if (o + so + q <= n) { var w = v.subview(sd, so); wellformed(w, g.v.heap(), ss, o + so); }
    else MUSTTHROW(v.subview(sd, so), "subview outside the storage");
}
CASE(create) {   // storage and view together
    std::vector<int> sh; int d = r.in(1, 3), p = 1; for (int i = 0; i < d; i++) { sh.push_back(r.in(0, 5)); p *= sh[i]; }
    int t = r.in(0, 5); G g = gscalar(r, SCALARS[t]); logf("view() of dim %d size %d, %s\n", d, p, g.s.c_str());
    var v = libube::view(var(d, sh.data()), g.v); wellformed(v, v.heap()->view(), sh, 0); CHECK(v.atype() == (long)SCALARS[t], "type");
    if (d == 2) { var w = libube::view({sh[0], sh[1]}, g.v); wellformed(w, w.heap()->view(), sh, 0); var u({sh[0], sh[1]}, g.v); wellformed(u, u.heap()->view(), sh, 0); for (int i = 0; i < p; i++) EQ(repel(u.heap(), i), g.s, "element"); }
    var c = v.copy(); CHECK(c.heap()->view() != v.heap()->view(), "copy shares storage"); wellformed(c, c.heap()->view(), sh, 0);
}
