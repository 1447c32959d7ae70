#include "h.h"
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <time.h>
#include <malloc.h>
#include <fcntl.h>
using namespace libube;
char gLog[1 << 16]; static size_t gPos = 0;
long gLive = 0;
static bool gCount = true;
// allocation counting; the form of the allocation is recorded, so that a mismatched release is seen
static const uint64_t MS = 0x51e5a110c0feull, MA = 0xa55a5a110c0full, MF = 0xdeadf4eedeadull;
static void* get(size_t n, uint64_t m) {
    char* p = (char*)malloc(n + 16);
    if (!p) abort();
    *(uint64_t*)p = m; *(uint64_t*)(p + 8) = n; ++gLive;
    return p + 16;
}
static void put(void* q, uint64_t m) {
    if (!q) return;
    char* p = (char*)q - 16;
    if (*(uint64_t*)p != m) { fprintf(stderr, "release of a block in the wrong form, or released twice\n"); abort(); }
    *(uint64_t*)p = MF; --gLive;
    free(p);
}
void* operator new(size_t n) { return get(n, MS); }
void* operator new[](size_t n) { return get(n, MA); }
void operator delete(void* p) noexcept { put(p, MS); }
void operator delete(void* p, size_t) noexcept { put(p, MS); }
void operator delete[](void* p) noexcept { put(p, MA); }
void operator delete[](void* p, size_t) noexcept { put(p, MA); }

std::vector<Case>& cases() { static std::vector<Case> c; return c; }
void logf(const char* f, ...) {
    va_list ap; va_start(ap, f);
    size_t left = sizeof(gLog) - gPos;
    if (left > 2) { int n = vsnprintf(gLog + gPos, left, f, ap); if (n > 0) gPos += std::min((size_t)n, left - 1); }
    va_end(ap);
}
void fail(const char* f, ...) {
    static char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    throw Fail{b};
}
std::string q(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '"' && c != '\\') o += c; else { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } }
    return o + "\"";
}
template <class T> static std::string hx(const char* t, T v) { char b[80]; snprintf(b, 80, "%s:%a", t, (double)v); return v != v ? std::string(t) + ":nan" : std::string(b); }
std::string R(char c) { return "c:" + std::to_string((int)c); }
std::string R(int c) { return "i:" + std::to_string(c); }
std::string R(long c) { return "l:" + std::to_string(c); }
std::string R(float c) { return hx("f", c); }
std::string R(double c) { return hx("d", c); }
std::string R(cfloat c) { return "C(" + R(c.real()) + "," + R(c.imag()) + ")"; }
std::string R(cdouble c) { return "Z(" + R(c.real()) + "," + R(c.imag()) + ")"; }
std::string RS(const std::string& s) { std::vector<std::string> e; for (char c : s) e.push_back(R(c)); return joinrep(e, TYPE_CHAR); }
static const char* TN[] = {"array", "char", "int", "long", "float", "double", "cfloat", "cdouble", "var", "pair"};
std::string joinrep(const std::vector<std::string>& e, int t) {
    std::string o = std::string(TN[t]) + "[";
    for (size_t i = 0; i < e.size(); i++) { if (i) o += ", "; o += e[i]; }
    return o + "]";
}
std::string repel(IHeap* h, int i) {
    switch ((long)h->type()) {
    case TYPE_CHAR: return R(*h->ptrchar(i));
    case TYPE_INT: return R(*h->ptrint(i));
    case TYPE_LONG: return R(*h->ptrlong(i));
    case TYPE_FLOAT: return R(*h->ptrfloat(i));
    case TYPE_DOUBLE: return R(*h->ptrdouble(i));
    case TYPE_CFLOAT: return R(*h->ptrcfloat(i));
    case TYPE_CDOUBLE: return R(*h->ptrcdouble(i));
    case TYPE_VAR: return rep(*h->ptrvar(i));
    case TYPE_PAIR: return rep(h->ptrpair(i)->key) + "=>" + rep(h->ptrpair(i)->val);
    }
    return "?type" + std::to_string((long)h->type());
}
std::string rep(const var& v) {
    if (!v.defined()) return "U";
    switch ((long)v.type()) {
    case TYPE_CHAR: return R(v.get<char>());
    case TYPE_INT: return R(v.get<int>());
    case TYPE_LONG: return R(v.get<long>());
    case TYPE_FLOAT: return R(v.get<float>());
    case TYPE_DOUBLE: return R(v.get<double>());
    case TYPE_CFLOAT: return R(v.get<cfloat>());
    case TYPE_CDOUBLE: return R(v.get<cdouble>());
    case TYPE_ARRAY: break;
    default: return "?type" + std::to_string((long)v.type());
    }
    IHeap* h = v.heap();
    if (!h) return "?noheap";
    std::vector<std::string> e;
    int n = h->size();
    if (n < 0 || n > 1000000) return "?size" + std::to_string(n);
    for (int i = 0; i < n; i++) e.push_back(repel(h, i));
    int t = (int)(long)h->type();
    if (t < 1 || t > 9) return "?type" + std::to_string(t);
    if (t == TYPE_CHAR && !h->view() && h->ptrchar()[n] != 0) return "?unterminated";
    std::string s = joinrep(e, t);
    if (h->view()) {
        s = "view{off " + std::to_string(h->offset());
        std::string c = joinrep(e, t);
        for (int d = 0; d < h->dim(); d++) s += " " + std::to_string(h->shape(d)) + "/" + std::to_string(h->stride(d));
        s += "}" + c;
    }
    return s;
}
std::string repe(const var& v) {
    std::string s = rep(v);
    if (s.rfind("cdouble[Z", 0) == 0 && v.size() == 1) return s.substr(8, s.size() - 9);
    return s;
}
const std::vector<int> SCALARS = {TYPE_CHAR, TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT};
const std::vector<int> ELTYPES = {TYPE_CHAR, TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE, TYPE_VAR};
static double rd(Rng& r) { return r.in(-40, 40) * 0.25; }
#include "dict.inc"
std::string gword(Rng& r) { int n = sizeof DS / sizeof *DS; return DS[NDS && r.p(2, 3) ? r.in(0, NDS - 1) : r.in(0, n - 1)]; }
long gconst(Rng& r) { int n = sizeof DI / sizeof *DI; long c = DI[NDI && r.p(2, 3) ? r.in(0, NDI - 1) : r.in(0, n - 1)]; if (r.p(1, 3)) c += r.in(-1, 1); return r.p(1, 5) ? -c : c; }
int gsize(Rng& r, int lo, int hi) { if (r.p(1, 12)) { long c = gconst(r) + r.in(0, 2); if (c >= lo && c <= 300) return c; } return r.in(lo, hi); }
G gscalar(Rng& r, int t) {
    if (r.p(1, 16) && t != TYPE_CFLOAT) { long k = gconst(r); switch (t) {
    case TYPE_CHAR: { char c = (char)k; return {var(c), R(c)}; } case TYPE_INT: { int c = (int)k; return {var(c), R(c)}; } case TYPE_LONG: return {var(k), R(k)};
    case TYPE_FLOAT: if (labs(k) <= 1000) { float c = k; return {var(c), R(c)}; } break; case TYPE_DOUBLE: if (labs(k) <= 1000) { double c = k; return {var(c), R(c)}; } break; } }
    switch (t) {
    case TYPE_CHAR: { char c = r.p(1, 8) ? (char)r.in(-128, 127) : (char)r.in('a', 'e'); return {var(c), R(c)}; }
    case TYPE_INT: { int c = r.p(1, 8) ? r.in(INT_MIN, INT_MAX) : r.in(-9, 9); return {var(c), R(c)}; }
    case TYPE_LONG: { long c = r.p(1, 8) ? (long)r.next() : r.in(-9, 9); return {var(c), R(c)}; }
    case TYPE_FLOAT: { float c = rd(r); return {var(c), R(c)}; }
    case TYPE_DOUBLE: { double c = r.p(1, 4) ? rd(r) / 3 : rd(r); return {var(c), R(c)}; }
    case TYPE_CFLOAT: { cfloat c(rd(r), rd(r)); return {var(c), R(c)}; }
    }
    return {var(), "U"};
}
std::string grand(Rng& r, int maxlen, const char* a) {
    int n = r.in(0, maxlen); std::string s;
    for (int i = 0; i < n; i++) s += a ? a[r.in(0, strlen(a) - 1)] : (char)r.in(1, 255);
    return s;
}
G garray(Rng& r, int t, int n) {
    std::vector<std::string> e;
    if (t == TYPE_CHAR) { std::string s; for (int i = 0; i < n; i++) s += (char)r.in('a', 'd'); return {var(n, s.c_str()), RS(s)}; }
    var v;
    if (t == TYPE_VAR) {
        v.resize(n);
        for (int i = 0; i < n; i++) { G g = gvalue(r, 0); v.heap()->ptrvar(i)[0] = g.v; e.push_back(g.s); }
        return {v, joinrep(e, t)};
    }
    if (t == TYPE_CDOUBLE) {
        cdouble z[1]; v = var(cdouble(0, 0)); v.resize(0);
        for (int i = 0; i < n; i++) { z[0] = cdouble(rd(r), rd(r)); v.append<cdouble>(1, z); e.push_back(R(z[0])); }
        return {v, joinrep(e, t)};
    }
    G g0 = gscalar(r, t); v = g0.v; v.array(); v.resize(n);
    for (int i = 0; i < n; i++) {
        G g = gscalar(r, t); e.push_back(g.s);
        switch (t) {
        case TYPE_INT: *v.heap()->ptrint(i) = g.v.get<int>(); break;
        case TYPE_LONG: *v.heap()->ptrlong(i) = g.v.get<long>(); break;
        case TYPE_FLOAT: *v.heap()->ptrfloat(i) = g.v.get<float>(); break;
        case TYPE_DOUBLE: *v.heap()->ptrdouble(i) = g.v.get<double>(); break;
        case TYPE_CFLOAT: *v.heap()->ptrcfloat(i) = g.v.get<cfloat>(); break;
        }
    }
    return {v, joinrep(e, t)};
}
G gvalue(Rng& r, int depth, bool undef) {
    int w = r.in(0, depth > 0 ? 13 : 9);
    if (w == 0 && undef) return {var(), "U"};
    if (w <= 6) return gscalar(r, SCALARS[r.in(0, 5)]);
    if (w <= 9) { std::string s = r.p(1, 8) ? gword(r) : grand(r, 6, "abcxyz "); return {var((int)s.size(), s.c_str()), RS(s)}; }
    if (w <= 11) return garray(r, ELTYPES[r.in(0, 6)], r.in(0, 5));
    var v; std::vector<std::string> e; int n = r.in(0, 4); v.resize(n);
    for (int i = 0; i < n; i++) { G g = gvalue(r, depth - 1); v.heap()->ptrvar(i)[0] = g.v; e.push_back(g.s); }
    return {v, joinrep(e, TYPE_VAR)};
}
std::string one(const std::string& s) { if (s.rfind("cdouble[Z", 0) == 0 && s.find("Z", 9) == std::string::npos) return s.substr(8, s.size() - 9); return s; }
int len(const var& a) { return a.heap() ? a.heap()->size() : 0; }
std::vector<std::string> els(const var& a) { std::vector<std::string> e; for (int i = 0; i < len(a); i++) e.push_back(repel(a.heap(), i)); return e; }
template <class T> static std::string cv(const var& y) {
    int t = (int)(long)y.atype();
    switch (t) {
    case TYPE_CHAR: return R(static_cast<T>(y.get<char>()));
    case TYPE_INT: return R(static_cast<T>(y.get<int>()));
    case TYPE_LONG: return R(static_cast<T>(y.get<long>()));
    case TYPE_FLOAT: return R(static_cast<T>(y.get<float>()));
    case TYPE_DOUBLE: return R(static_cast<T>(y.get<double>()));
    case TYPE_CFLOAT: if (std::is_same<T, cfloat>::value) return R(y.get<cfloat>()); return R(static_cast<T>(y.get<cfloat>().real()));
    case TYPE_CDOUBLE: if (std::is_same<T, cdouble>::value) return R(y.get<cdouble>()); return R(static_cast<T>(y.get<cdouble>().real()));
    }
    return "?";
}
std::string conv(const var& y, int t) {
    switch (t) {
    case TYPE_CHAR: return cv<char>(y);
    case TYPE_INT: return cv<int>(y);
    case TYPE_LONG: return cv<long>(y);
    case TYPE_FLOAT: return cv<float>(y);
    case TYPE_DOUBLE: return cv<double>(y);
    case TYPE_CFLOAT: return cv<cfloat>(y);
    case TYPE_CDOUBLE: return cv<cdouble>(y);
    }
    return "?";
}
G gsmall(Rng& r, int t) {
    switch (t) {
    case TYPE_CHAR: { char c = (char)r.in(-9, 9); return {var(c), R(c)}; }
    case TYPE_INT: { int c = r.in(-60, 60); return {var(c), R(c)}; }
    case TYPE_LONG: { long c = r.in(-60, 60); return {var(c), R(c)}; }
    case TYPE_CDOUBLE: { cdouble c(rd(r), rd(r)); return {var(c), R(c)}; }
    }
    return gscalar(r, t);
}
G gsmallarray(Rng& r, int t, int n) {
    G g = garray(r, t, n); if (t > TYPE_LONG) return g;
    for (int i = 0; i < n; i++) switch (t) { case TYPE_CHAR: *g.v.heap()->ptrchar(i) = (char)r.in(-9, 9); break; case TYPE_INT: *g.v.heap()->ptrint(i) = r.in(-60, 60); break; case TYPE_LONG: *g.v.heap()->ptrlong(i) = r.in(-60, 60); break; }
    g.s = rep(g.v); return g;
}
template <class T> static T val(const var& y) {
    switch ((int)(long)y.atype()) {
    case TYPE_CHAR: return static_cast<T>(y.get<char>());
    case TYPE_INT: return static_cast<T>(y.get<int>());
    case TYPE_LONG: return static_cast<T>(y.get<long>());
    case TYPE_FLOAT: return static_cast<T>(y.get<float>());
    case TYPE_DOUBLE: return static_cast<T>(y.get<double>());
    case TYPE_CFLOAT: return static_cast<T>(y.get<cfloat>().real());
    case TYPE_CDOUBLE: return static_cast<T>(y.get<cdouble>().real());
    }
    abort();
}
template <> cfloat val<cfloat>(const var& y) { if (y.atype() == (long)TYPE_CFLOAT) return y.get<cfloat>(); return cfloat(val<float>(y)); }
template <> cdouble val<cdouble>(const var& y) { if (y.atype() == (long)TYPE_CDOUBLE) return y.get<cdouble>(); return cdouble(val<double>(y)); }
template <class T> static std::string ar(char op, T a, T b, bool* ok) {
    *ok = true;
    switch (op) { case '+': return R((T)(a + b)); case '-': return R((T)(a - b)); case '*': return R((T)(a * b)); }
    if (std::is_integral<T>::value && b == T(0)) { *ok = false; return "?"; }
    return R((T)(a / b));
}
std::string arith(char op, const var& a, const var& b, bool* ok) {
    switch ((int)(long)a.atype()) {
    case TYPE_CHAR: return ar<char>(op, a.get<char>(), val<char>(b), ok);
    case TYPE_INT: return ar<int>(op, a.get<int>(), val<int>(b), ok);
    case TYPE_LONG: return ar<long>(op, a.get<long>(), val<long>(b), ok);
    case TYPE_FLOAT: return ar<float>(op, a.get<float>(), val<float>(b), ok);
    case TYPE_DOUBLE: return ar<double>(op, a.get<double>(), val<double>(b), ok);
    case TYPE_CFLOAT: return ar<cfloat>(op, a.get<cfloat>(), val<cfloat>(b), ok);
    case TYPE_CDOUBLE: return ar<cdouble>(op, a.get<cdouble>(), val<cdouble>(b), ok);
    }
    abort();
}
void warmup() {
    // function-local statics of the library
    var v = 1; for (int i = 0; i < 3; i++) { v.cast<char>(); v.cast<int>(); v.cast<long>(); v.cast<float>(); v.cast<double>(); v.cast<cfloat>(); v.cast<cdouble>(); }
    try { throw libube::error("warm"); } catch (...) {}
    varstream s; s << 1.5 << v; var w = "12"; w.cast<int>(); w.cast<double>();
}

// ---- driver
static const char* gCase = ""; static long gK = 0; static int gFd = 1;
static void report(const char* why) {
    char h[512]; int n = snprintf(h, sizeof h, "FAIL %s %ld\n%s\n--- steps\n", gCase, gK, why);
    n = std::min(n, 500);
    if (write(gFd, h, n) < 0) {}
    if (write(gFd, gLog, gPos) < 0) {}
    if (write(gFd, "\n", 1) < 0) {}
}
static void onsig(int s) {
    char b[64]; snprintf(b, sizeof b, s == SIGVTALRM || s == SIGALRM ? "does not terminate" : "crashed or was stopped by a sanitizer (signal %d)", s);
    report(b); _exit(77);
}
extern "C" const char* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:handle_segv=0:handle_sigbus=0:alloc_dealloc_mismatch=0:max_allocation_size_mb=2000"; }
extern "C" const char* __ubsan_default_options() { return "abort_on_error=1:print_stacktrace=1"; }
static uint64_t seedof(uint64_t seed, const char* c, long k) {
    uint64_t h = 1469598103934665603ull ^ seed * 0x9e3779b97f4a7c15ull;
    for (; *c; c++) h = (h ^ *c) * 1099511628211ull;
    Rng r{h + (uint64_t)k * 0xd1b54a32d192ed03ull}; r.next(); return r.next();
}
static void arm(int s) {
    struct itimerval t = {{0, 0}, {s, 0}}; setitimer(ITIMER_VIRTUAL, &t, 0);
}
static bool run1(const Case& c, uint64_t seed, long k) {
    gCase = c.name; gK = k; gPos = 0; gLog[0] = 0;
    Rng r{seedof(seed, c.name, k)};
    arm(20);
    try { c.fn(r, k); arm(0); return true; }
    catch (const Fail& f) { arm(0); report(f.what.c_str()); }
    catch (const std::exception& e) { arm(0); report((std::string("unexpected exception: ") + std::string(e.what()).substr(0, 200)).c_str()); }
    catch (...) { arm(0); report("unexpected exception"); }
    return false;
}
int main(int argc, char** argv) {
    uint64_t seed = 1; double T = 5; int W = 4; const char* only = 0; long kk = -1;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--seed")) seed = atoll(argv[++i]);
        else if (!strcmp(argv[i], "--time")) T = atof(argv[++i]);
        else if (!strcmp(argv[i], "--workers")) W = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--case")) { only = argv[++i]; kk = atol(argv[++i]); }
    }
    stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, 0);
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onsig; a.sa_flags = SA_ONSTACK; sigaction(s, &a, 0); }
    warmup();
    if (only) {
        for (auto& c : cases()) if (!strcmp(c.name, only)) { if (run1(c, seed, kk)) { printf("passed\n"); return 0; } return 1; }
        printf("no such case\n"); return 2;
    }
    std::vector<int> fds; std::vector<pid_t> pids;
    fflush(stdout);
    for (int w = 0; w < W; w++) {
        int p[2]; if (pipe(p)) return 2;
        pid_t pid = fork();
        if (pid == 0) {
            gFd = p[1]; close(p[0]);
            struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
            std::vector<long> n(cases().size(), 0); bool any = true; long rounds = 0;
            while (any) {
                any = false;
                for (size_t i = 0; i < cases().size(); i++) {
                    long k = n[i] * W + w;
                    long lim = cases()[i].max;
                    // exhaustive cases go in blocks
                    int blk = lim ? 64 : 1;
                    for (int b = 0; b < blk; b++) {
                        k = n[i] * W + w;
                        if (lim && k >= lim) break;
                        any = true; n[i]++;
                        if (!run1(cases()[i], seed, k)) _exit(77);
                    }
                }
                rounds++;
                clock_gettime(CLOCK_MONOTONIC, &t);
                if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > T) break;
            }
            char b[256];
            for (size_t i = 0; i < cases().size(); i++) { int l = snprintf(b, sizeof b, "RAN %s %ld %ld\n", cases()[i].name, n[i], cases()[i].max); if (write(gFd, b, l) < 0) {} }
            _exit(0);
        }
        close(p[1]); fds.push_back(p[0]); pids.push_back(pid);
    }
    bool bad = false; std::map<std::string, std::pair<long, long>> ran;
    for (size_t i = 0; i < fds.size(); i++) {
        std::string s; char b[4096]; ssize_t n;
        while ((n = read(fds[i], b, sizeof b)) > 0) s.append(b, n);
        int st; waitpid(pids[i], &st, 0);
        if (s.rfind("FAIL", 0) == 0) { if (!bad) { fputs(s.c_str(), stdout); } bad = true; }
        else if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (!bad) printf("FAIL ? -1\nworker died with status %d\n", st); bad = true; }
        else { std::istringstream is(s); std::string tag, nm; long a, m; while (is >> tag >> nm >> a >> m) { ran[nm].first += a; ran[nm].second = m; } }
    }
    for (auto& x : ran) printf("RAN %s %ld %ld\n", x.first.c_str(), x.second.first, x.second.second);
    return bad ? 1 : 0;
}

// ---- loadable modules: the only one linked in (into the harness of C20) is the ini file reader
namespace libube { class Module; extern "C" void verif_ini_factory(Module**, var) __attribute__((weak)); }
extern "C" void* verif_dlopen(const char* n, int) { return strcmp(n, "libini.so") ? 0 : (void*)gLog; }
extern "C" void* verif_dlsym(void*, const char*) { return (void*)libube::verif_ini_factory; }
extern "C" int verif_dlclose(void*) { return 0; }
