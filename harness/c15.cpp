// C15: linear algebra against a naive reference, on values for which the arithmetic is exact
#include "h.h"
#include <set>
#include "lube/c++blas.h"
using namespace libube;
static const int AT[] = {TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE};
typedef cdouble Z;
struct T { var s, v; std::vector<int> sh; int off, n, t; std::vector<Z> e; };
static Z at(const var& s, int i) { IHeap* h = s.heap(); switch ((int)(long)h->type()) { case TYPE_FLOAT: return *h->ptrfloat(i); case TYPE_DOUBLE: return *h->ptrdouble(i); case TYPE_CFLOAT: return Z(h->ptrcfloat(i)->real(), h->ptrcfloat(i)->imag()); case TYPE_CDOUBLE: return *h->ptrcdouble(i); case TYPE_LONG: return *h->ptrlong(i); } fail("unexpected type of array"); }
static Z sc(const var& v) { if (v.heap()) { CHECK(v.size() == 1, "size %d of a scalar result", v.size()); return at(v, 0); } switch ((int)(long)v.type()) { case TYPE_FLOAT: return v.get<float>(); case TYPE_DOUBLE: return v.get<double>(); case TYPE_CFLOAT: return Z(v.get<cfloat>().real(), v.get<cfloat>().imag()); case TYPE_LONG: return v.get<long>(); } fail("unexpected type of a scalar result"); }
static T mk(Rng& r, int t, const std::vector<int>& sh, bool plain) {
    T a; a.sh = sh; a.t = t; a.n = 1; for (int x : sh) a.n *= x; a.off = plain ? 0 : r.in(0, 3); int N = a.n + a.off + (plain ? 0 : r.in(0, 3)); G g = garray(r, t, N);
    for (int i = 0; i < N; i++) { int x = r.in(-4, 4), y = r.in(-4, 4); switch (t) { case TYPE_FLOAT: *g.v.heap()->ptrfloat(i) = x; break; case TYPE_DOUBLE: *g.v.heap()->ptrdouble(i) = x; break; case TYPE_CFLOAT: *g.v.heap()->ptrcfloat(i) = cfloat(x, y); break; case TYPE_CDOUBLE: *g.v.heap()->ptrcdouble(i) = Z(x, y); break; } }
    a.s = g.v; a.v = plain ? g.v : g.v.view(var((int)sh.size(), sh.data()), a.off); for (int i = 0; i < a.n; i++) a.e.push_back(at(a.s, a.off + i)); return a;
}
static std::vector<int> shape(Rng& r, int d, int hi = 4) { std::vector<int> s; for (int i = 0; i < d; i++) s.push_back(r.in(1, hi)); return s; }
static void desc(const T& a, const char* w) { logf("%s: %s[", w, a.v.heap()->view() ? "view " : "array "); for (int x : a.sh) logf(" %d", x); logf(" ] at %d of %s\n", a.off, rep(a.s).c_str()); }
static std::string zs(Z z) { return R(Z(z.real() + 0.0, z.imag() + 0.0)); }
static void same(const var& c, const std::vector<Z>& e, const std::vector<int>& sh, int t, const char* w) {
    CHECK(c.atype() == (long)t, "%s: type of the result", w); if (!c.heap()) { CHECK(e.size() == 1, "%s: scalar result", w); EQ(zs(sc(c)), zs(e[0]), "%s", w); return; }
    CHECK(len(c) == (int)e.size(), "%s: size %d of the result, expected %d", w, len(c), (int)e.size()); if (c.heap()->view()) { CHECK(c.dim() == (int)sh.size(), "%s: dimension", w); for (size_t i = 0; i < sh.size(); i++) CHECK(c.shape(i) == sh[i], "%s: shape(%d)", w, (int)i); }
    for (size_t i = 0; i < e.size(); i++) EQ(zs(at(c, i)), zs(e[i]), "%s: element %d", w, (int)i);
}
// conjugation: the library's complex dot product conjugates the first operand (cblas dotc)
CASE(dot) { int t = AT[r.in(0, 1)], d = r.in(1, 4); std::vector<int> sh = shape(r, d), s2 = {sh.back()}; if (sh.back() == 1) return; T a = mk(r, t, sh, d == 1 && r.p(1, 2)), b = mk(r, t, s2, r.p(1, 2)); desc(a, "left"); desc(b, "right"); std::string as = rep(a.s), bs = rep(b.s);
    int n = sh.back(); std::vector<Z> e; for (int i = 0; i < a.n / n; i++) { Z x = 0; for (int j = 0; j < n; j++) x += a.e[i * n + j] * b.e[j]; e.push_back(x); } auto so = sh; so.back() = 1; same(libube::dot(a.v, b.v), e, so, t, "dot"); EQ(rep(a.s), as, "left operand"); EQ(rep(b.s), bs, "right operand"); }
CASE(gemm) { int t = AT[r.in(0, 1)], d = r.in(2, 4); std::vector<int> sh = shape(r, d, 5); int k2 = sh.back(), n = r.in(1, 5); T a = mk(r, t, sh, false), b = mk(r, t, {k2, n}, false); desc(a, "left"); desc(b, "right"); std::string as = rep(a.s), bs = rep(b.s);
    std::vector<Z> e; for (int i = 0; i < a.n / k2; i++) for (int j = 0; j < n; j++) { Z x = 0; for (int l = 0; l < k2; l++) x += a.e[i * k2 + l] * b.e[l * n + j]; e.push_back(x); } auto so = sh; so.back() = n; same(libube::dot(a.v, b.v), e, so, t, "matrix product"); EQ(rep(a.s), as, "left operand"); EQ(rep(b.s), bs, "right operand"); }
CASE(gemmbad) { int t = AT[r.in(0, 1)], d = r.in(1, 3); std::vector<int> sh = shape(r, d, 5), s2 = shape(r, r.in(1, 3), 5); bool ok = s2.size() <= 2 && (int)s2.size() <= std::max(d, 1) && s2[0] == sh.back(); int n2 = 1; for (int x : s2) n2 *= x; if (ok || n2 == 1) return; T a = mk(r, t, sh, false), b = mk(r, t, s2, false); desc(a, "left"); desc(b, "right"); std::string as = rep(a.s), bs = rep(b.s); MUSTTHROW(libube::dot(a.v, b.v), "operands that do not match are not refused"); EQ(rep(a.s), as, "left"); EQ(rep(b.s), bs, "right"); }
CASE(sum) { int t = AT[r.in(0, 3)], d = r.in(1, 4); std::vector<int> sh = shape(r, d); T a = mk(r, t, sh, d == 1 && r.p(1, 2)); desc(a, "array"); std::string as = rep(a.s); int n = sh.back(); std::vector<Z> e; for (int i = 0; i < a.n / n; i++) { Z x = 0; for (int j = 0; j < n; j++) x += a.e[i * n + j]; e.push_back(x); } auto so = sh; so.back() = 1; same(libube::sum(a.v), e, so, t, "sum"); EQ(rep(a.s), as, "operand"); }
CASE(asum) { int t = AT[r.in(0, 1)], d = r.in(1, 4); std::vector<int> sh = shape(r, d); T a = mk(r, t, sh, d == 1 && r.p(1, 2)); desc(a, "array"); std::string as = rep(a.s); int n = sh.back(); std::vector<Z> e; for (int i = 0; i < a.n / n; i++) { Z x = 0; for (int j = 0; j < n; j++) x += std::abs(a.e[i * n + j].real()); e.push_back(x); } auto so = sh; so.back() = 1; same(libube::asum(a.v), e, so, t, "asum"); EQ(rep(a.s), as, "operand"); }
CASE(iamax) { int t = AT[r.in(0, 3)], d = r.in(1, 4); std::vector<int> sh = shape(r, d); T a = mk(r, t, sh, d == 1 && r.p(1, 2)); desc(a, "array"); std::string as = rep(a.s); int n = sh.back(); std::vector<Z> e; auto ab = [](Z z) { return std::abs(z.real()) + std::abs(z.imag()); }; for (int i = 0; i < a.n / n; i++) { int m = 0; for (int j = 1; j < n; j++) if (ab(a.e[i * n + j]) > ab(a.e[i * n + m])) m = j; e.push_back(m); } auto so = sh; so.back() = 1; if (a.n == 1 && a.sh.size() == 1 && t == TYPE_CDOUBLE) return; same(libube::iamax(a.v), e, so, TYPE_LONG, "iamax"); EQ(rep(a.s), as, "operand"); }
CASE(transpose) { int t = AT[r.in(0, 1)], d = r.in(2, 4); std::vector<int> sh = shape(r, d, 5); T a = mk(r, t, sh, false); desc(a, "array"); std::string as = rep(a.s); int R_ = sh[d - 2], C = sh[d - 1], nb = a.n / (R_ * C); std::vector<Z> e(a.n); for (int b = 0; b < nb; b++) for (int i = 0; i < R_; i++) for (int j = 0; j < C; j++) e[b * R_ * C + j * R_ + i] = a.e[b * R_ * C + i * C + j]; auto so = sh; std::swap(so[d - 2], so[d - 1]);
    same(libube::transpose(a.v), e, so, t, "transpose"); EQ(rep(a.s), as, "operand"); std::vector<std::string> out; for (int i = 0; i < len(a.s); i++) out.push_back(repel(a.s.heap(), i)); a.v.transpose(); same(a.v, e, so, t, "transpose in place"); for (int i = 0; i < len(a.s); i++) if (i < a.off || i >= a.off + a.n) EQ(repel(a.s.heap(), i), out[i], "element outside"); for (int i = 1; i <= d; i++) CHECK(a.v.stride(d - i) == (i == 1 ? 1 : a.v.stride(d - i + 1) * a.v.shape(d - i + 1)), "stride of the transposed view"); }
CASE(concatenate) { int t = AT[r.in(0, 3)], d = r.in(1, 3), k2 = r.in(1, 4); std::vector<int> sh = shape(r, d); std::vector<T> p; var l; l.resize(k2); int tot = 0; for (int i = 0; i < k2; i++) { auto s = sh; s.back() = r.in(1, 4); tot += s.back(); p.push_back(mk(r, t, s, d == 1 && r.p(1, 2))); l.heap()->ptrvar(i)[0] = p[i].v; desc(p[i], "part"); } int rows = 1; for (int i = 0; i + 1 < d; i++) rows *= sh[i]; std::vector<Z> e; for (int i = 0; i < rows; i++) for (auto& x : p) { int n = x.sh.back(); for (int j = 0; j < n; j++) e.push_back(x.e[i * n + j]); } auto so = sh; so.back() = tot; if (r.p(1, 3)) { T o = mk(r, t, so, d == 1 && r.p(1, 2)); std::vector<Z> all; int N = len(o.s); for (int i = 0; i < N; i++) all.push_back(at(o.s, i)); libube::concatenate(l, o.v); same(o.v, e, so, t, "concatenate into an array"); for (int i = 0; i < N; i++) if (i < o.off || i >= o.off + o.n) EQ(zs(at(o.s, i)), zs(all[i]), "element %d beside the result", i); } else same(libube::concatenate(l), e, so, t, "concatenate"); for (auto& x : p) for (int i = 0; i < x.n; i++) EQ(zs(at(x.s, x.off + i)), zs(x.e[i]), "part"); }
CASE(poly) { int t = AT[r.in(0, 3)], d = r.in(1, 2); std::vector<int> sh = shape(r, d); T a = mk(r, t, sh, d == 1 && r.p(1, 2)); desc(a, "roots"); int n = sh.back(); if (a.n == 1 && t == TYPE_CDOUBLE) return; std::vector<Z> e; for (int i = 0; i < a.n / n; i++) { std::vector<Z> c = {1}; for (int j = 0; j < n; j++) { std::vector<Z> x(c.size() + 1); for (size_t l = 0; l < c.size(); l++) { x[l] += c[l]; x[l + 1] -= a.e[i * n + j] * c[l]; } c = x; } e.insert(e.end(), c.begin(), c.end()); } auto so = sh; so.back()++; same(libube::poly(a.v), e, so, t, "poly"); }
CASE(roots) { int t = AT[r.in(0, 1)], d = r.in(1, 3), n = r.in(2, 4); std::vector<int> sh = shape(r, d); sh.back() = n + 1; T a = mk(r, t, sh, d == 1 && r.p(1, 2)); int m = a.n / (n + 1); std::vector<std::vector<int>> e(m); std::vector<double> co;
    for (int i = 0; i < m; i++) { std::set<int> u; while ((int)u.size() < n) u.insert(r.in(-5, 5)); e[i].assign(u.begin(), u.end()); double lead = r.in(1, 3); std::vector<double> c = {lead}; for (int z : e[i]) { std::vector<double> x(c.size() + 1); for (size_t l = 0; l < c.size(); l++) { x[l] += c[l]; x[l + 1] -= z * c[l]; } c = x; } co.insert(co.end(), c.begin(), c.end()); }
    for (int i = 0; i < a.n; i++) if (t == TYPE_FLOAT) a.v.ptr<float>()[i] = co[i]; else a.v.ptr<double>()[i] = co[i]; std::string as = rep(a.s); logf("coefficients %s\n", rep(a.v).c_str()); var c; c = libube::roots(a.v); EQ(rep(a.s), as, "coefficients"); CHECK(c.size() == m * n && c.dim() == d && c.shape(-1) == n && c.atype() == (long)(t == TYPE_FLOAT ? TYPE_CFLOAT : TYPE_CDOUBLE), "shape and type");
    for (int i = 0; i < m; i++) { std::vector<double> g; for (int j = 0; j < n; j++) { Z z = t == TYPE_FLOAT ? Z(c.ptr<cfloat>()[i * n + j]) : Z(c.ptr<cdouble>()[i * n + j]); CHECK(std::abs(z.imag()) < 0.2, "row %d has a complex root", i); g.push_back(z.real()); } std::sort(g.begin(), g.end()); for (int j = 0; j < n; j++) CHECK(std::abs(g[j] - e[i][j]) < 0.2, "row %d: root %g, expected %d", i, g[j], e[i][j]); }
}
CASE(unary) { int t = AT[r.in(0, 3)], d = r.in(1, 3); std::vector<int> sh = shape(r, d); T a = mk(r, t, sh, d == 1 && r.p(1, 2)); desc(a, "array"); std::string as = rep(a.s); int w = r.in(0, 3); std::vector<Z> e; for (auto& z : a.e) e.push_back(w == 0 ? z.real() : w == 1 ? z.imag() : w == 2 ? std::norm(z) : z.real()); int to = t == TYPE_CFLOAT ? TYPE_FLOAT : t == TYPE_CDOUBLE ? TYPE_DOUBLE : t; if (w == 3 && t > TYPE_DOUBLE) return; var c = w == 0 ? libube::real(a.v) : w == 1 ? libube::imag(a.v) : w == 2 ? libube::norm(a.v) : libube::floor(a.v); if (a.n == 1 && t == TYPE_CDOUBLE) return; same(c, e, sh, to, "unary function"); EQ(rep(a.s), as, "operand"); }
CASE(empty) { int t = AT[r.in(0, 1)]; G g = garray(r, t, 0); throws([&] { var x = libube::asum(g.v); }); throws([&] { libube::sum(g.v); }); throws([&] { libube::iamax(g.v); }); var o = 0.0; throws([&] { libube::sum(g.v, o); }); throws([&] { libube::dot(g.v, g.v); }); throws([&] { var x = libube::sin(g.v); }); CHECK(len(g.v) == 0, "operand"); }
CASE(one) { int t = AT[r.in(0, 1)]; T a = mk(r, t, {r.in(1, 3)}, true), b = mk(r, t, {1}, true); desc(a, "left"); desc(b, "right"); bool ok = a.n == 1; var c; bool th = throws([&] { c = libube::dot(a.v, b.v); }); if (!th) { CHECK(ok, "not refused"); EQ(zs(sc(c)), zs(a.e[0] * b.e[0]), "dot"); } }
template <class S> static void raw(Rng& r) {
    long n = r.in(1, 6); std::vector<S> x(n + 2), y(n + 2); for (auto& v : x) v = (S)r.in(-4, 4); for (auto& v : y) v = (S)r.in(-4, 4); auto x0 = x, y0 = y; S al = (S)r.in(-3, 3);
    blas::axpy<S>(n, al, &x[1], &y[1]); for (long i = 0; i < n + 2; i++) CHECK(x[i] == x0[i] && y[i] == (i >= 1 && i <= n ? y0[i] + al * x0[i] : y0[i]), "axpy(%ld) at %ld", n, i);
    y = y0; blas::copy<S>(n, &x[1], &y[1]); for (long i = 0; i < n + 2; i++) CHECK(y[i] == (i >= 1 && i <= n ? x0[i] : y0[i]), "copy(%ld) at %ld", n, i);
    x = x0; y = y0; blas::swap<S>(n, &x[1], &y[1]); for (long i = 0; i < n + 2; i++) { bool in = i >= 1 && i <= n; CHECK(x[i] == (in ? y0[i] : x0[i]) && y[i] == (in ? x0[i] : y0[i]), "swap(%ld) at %ld", n, i); }
    long m = 1; auto one = [](S z) { Z c(z); return std::abs(c.real()) + std::abs(c.imag()); }; for (long i = 1; i <= n; i++) if (one(x0[i]) > one(x0[m])) m = i; CHECK(blas::iamax<S>(n, &x0[1]) == m - 1, "iamax(%ld)", n);
}
template <class S> static void rawreal(Rng& r) {
    long n = r.in(1, 6); std::vector<S> x(n + 2), y(n + 2), z(n + 2); for (auto& v : x) v = (S)r.in(-4, 4); for (auto& v : y) v = (S)r.in(-4, 4); for (auto& v : z) v = (S)r.in(-4, 4); auto x0 = x, y0 = y, z0 = z; S al = (S)r.in(-3, 3), be = (S)r.in(-3, 3);
    blas::scal<S>(n, al, &x[1]); for (long i = 0; i < n + 2; i++) CHECK(x[i] == (i >= 1 && i <= n ? al * x0[i] : x0[i]), "scal(%ld) at %ld", n, i);
    x = x0; S d = 0, a = 0; for (long i = 1; i <= n; i++) { d += x0[i] * y0[i]; a += std::abs(x0[i]); } CHECK(blas::dot<S>(n, &x[1], &y[1]) == d, "dot(%ld)", n); CHECK(blas::asum<S>(n, &x[1]) == a, "asum(%ld)", n);
    blas::sbmv<S>(n, 0, al, &x[1], &y[1], be, &z[1]); for (long i = 0; i < n + 2; i++) CHECK(z[i] == (i >= 1 && i <= n ? al * x0[i] * y0[i] + be * z0[i] : z0[i]), "sbmv(%ld) at %ld", n, i);
    z = z0; blas::tbmv<S>(n, 0, &x[1], &z[1]); for (long i = 0; i < n + 2; i++) CHECK(z[i] == (i >= 1 && i <= n ? x0[i] * z0[i] : z0[i]), "tbmv(%ld) at %ld", n, i);
    CHECK(x == x0 && y == y0, "operands");
    long m = r.in(1, 5), k = r.in(1, 5); std::vector<S> A(m * k), B(k * n), C(m * n + 2); for (auto& v : A) v = (S)r.in(-4, 4); for (auto& v : B) v = (S)r.in(-4, 4); for (auto& v : C) v = (S)r.in(-4, 4); auto C0 = C; blas::gemm<S>(m, n, k, al, A.data(), B.data(), be, &C[1]);
    for (long q = 0; q < m * n + 2; q++) { S e = C0[q]; if (q >= 1 && q <= m * n) { long i = (q - 1) / n, j = (q - 1) % n; e = be * C0[q]; for (long l = 0; l < k; l++) e += al * A[i * k + l] * B[l * n + j]; } CHECK(C[q] == e, "gemm(%ld,%ld,%ld) at %ld", m, n, k, q); }
}
CASE(wrappers) { raw<float>(r); raw<double>(r); raw<cfloat>(r); raw<cdouble>(r); rawreal<float>(r); rawreal<double>(r);
    long n = r.in(1, 6); std::vector<double> x(n), y(n), x0, y0; for (auto& v : x) v = r.in(-4, 4); for (auto& v : y) v = r.in(-4, 4); x0 = x; y0 = y; blas::swap<double>(n, x.data(), y.data()); CHECK(x == y0 && y == x0, "swap"); blas::scal<double>(n, 3, x.data()); for (long i = 0; i < n; i++) CHECK(x[i] == 3 * y0[i], "scal"); double d = 0; for (long i = 0; i < n; i++) d += x0[i] * y0[i]; CHECK(blas::dot<double>(n, x0.data(), y0.data()) == d, "dot");
    long m = 0; for (long i = 1; i < n; i++) if (std::abs(x0[i]) > std::abs(x0[m])) m = i; CHECK(blas::iamax<double>(n, x0.data()) == m, "iamax"); std::vector<double> z(n, 7); blas::sbmv<double>(n, 0, 1, x0.data(), y0.data(), 0, z.data()); for (long i = 0; i < n; i++) CHECK(z[i] == x0[i] * y0[i], "sbmv"); z = y0; blas::tbmv<double>(n, 0, x0.data(), z.data()); for (long i = 0; i < n; i++) CHECK(z[i] == x0[i] * y0[i], "tbmv"); }
