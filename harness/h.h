// Common part of the replay / bounded harnesses.  Each harness links the
// library's own sources, compiled from the working tree, with sanitizers.
#ifndef VERIF_H
#define VERIF_H
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <climits>
#include <complex>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <sstream>
#include <stdexcept>
#include <new>
#include "lube/var.h"
#include "lube/heap.h"
using libube::var; using libube::ind; using libube::IHeap; using libube::nil;
using libube::cfloat; using libube::cdouble;
using namespace std::string_literals;
enum { UNDEF = -1 };

// ---- log of the case being executed (survives a crash)
extern char gLog[1 << 16];
void logf(const char* f, ...) __attribute__((format(printf, 1, 2)));
struct Fail { std::string what; };
[[noreturn]] void fail(const char* f, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
std::string q(const std::string& s);

// ---- random numbers
struct Rng {
    uint64_t s;
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    int in(int lo, int hi) { return (int)((long)lo + (long)(next() % (uint64_t)((long)hi - lo + 1))); }   // inclusive
    bool p(int num, int den) { return in(1, den) <= num; }
    template <class T> const T& of(const std::vector<T>& v) { return v[in(0, (int)v.size() - 1)]; }
};

// ---- cases
typedef void (*CaseFn)(Rng& r, long k);
struct Case { const char* name; CaseFn fn; long max; bool quiet; };    // max: number of distinct cases (0: unlimited)
std::vector<Case>& cases();
struct Reg { Reg(const char* n, CaseFn f, long max = 0) { cases().push_back({n, f, max, false}); } };
#define CASE(NAME, ...) static void case_##NAME(Rng& r, long k); static Reg reg_##NAME(#NAME, case_##NAME, ##__VA_ARGS__); static void case_##NAME([[maybe_unused]] Rng& r, [[maybe_unused]] long k)

// ---- allocations alive
extern long gLive;
struct Balance {    // everything allocated within has been released
    long at = gLive; const char* what;
    Balance(const char* w) : what(w) {}
    void done() { if (gLive != at) fail("%s: %ld allocation(s) not released", what, gLive - at); }
};
// static initialisation inside the library (caches) must not count
void warmup();

// ---- canonical representation of values, by raw access
std::string rep(const var& v);
std::string repel(IHeap* h, int i);
std::string repe(const var& v);     // the same, of a value that was an element (a double complex value is an array of one)
// representation of scalars
std::string R(char), R(int), R(long), R(float), R(double), R(cfloat), R(cdouble);
std::string RS(const std::string& s);       // string
// a value of the given type, and its representation
struct G { var v; std::string s; };
G gscalar(Rng& r, int type);
std::string grand(Rng& r, int maxlen, const char* alphabet = 0);
std::string gword(Rng& r);                // a string that the library's sources mention
long gconst(Rng& r);                      // a number that they mention, or one next to it
int gsize(Rng& r, int lo, int hi);        // a size: small, or rarely such a number
G gvalue(Rng& r, int depth, bool undef = true);
G garray(Rng& r, int type, int n);        // plain array of n elements of a type, built by raw append / assignment
extern const std::vector<int> SCALARS, ELTYPES;
std::string joinrep(const std::vector<std::string>& e, int eltype);
// the language's conversion of a scalar to a type, as a representation
std::string one(const std::string& rep);     // cdouble[Z] -> Z
std::string conv(const var& y, int type);
// apply an operator (+ - * /) of the left operand's arithmetic
std::string arith(char op, const var& a, const var& b, bool* ok);
// a scalar of a type whose arithmetic and conversions stay within range
G gsmall(Rng& r, int type);
G gsmallarray(Rng& r, int type, int n);
std::vector<std::string> els(const var& a);
int len(const var& a);
template <class F> bool throws(F f, std::string* what = 0) {
    try { f(); } catch (const libube::error& e) { if (what) *what = "error"; return true; }
    catch (const std::range_error& e) { if (what) *what = "range_error"; return true; }
    catch (const std::exception& e) { if (what) *what = "exception"; return true; }
    return false;
}
#define MUSTTHROW(E, ...) do { if (!throws([&]{ E; })) fail(__VA_ARGS__); } while (0)
#define MUSTNOT(E, ...) do { std::string w_; if (throws([&]{ E; }, &w_)) fail(__VA_ARGS__); } while (0)
#define EQ(A, B, ...) do { std::string a_ = (A), b_ = (B); if (a_ != b_) { char m_[2000]; snprintf(m_, sizeof m_, __VA_ARGS__); fail("%s: got %s, expected %s", m_, a_.substr(0, 600).c_str(), b_.substr(0, 600).c_str()); } } while (0)
#endif
