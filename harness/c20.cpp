// C20: configuration lookups return the setting or the default
#include "h.h"
#include <unistd.h>
#include "lube/config.h"
using namespace libube;
static var V(const std::string& s) { return var((int)s.size(), s.c_str()); }
static std::string num(const std::string& s) { return s; }
static int gsome(Rng& r) { return r.in(INT_MIN, INT_MAX) >> r.in(0, 20); }
static std::string dec(Rng& r) { char b[40]; snprintf(b, sizeof b, "%d.%0*d", r.in(-999, 999), r.in(1, 8), r.in(0, 9)); return b; }
static bool whole(const std::string& t) { size_t i = !t.empty() && t[0] == '-'; return t.size() > i && t.size() <= i + 9 && t.find_first_not_of("0123456789", i) == std::string::npos; }
static bool point(const std::string& t) { size_t p = t.find('.'); return p != std::string::npos && whole(t.substr(0, p)) && whole(t.substr(p + 1)) && t[p + 1] != '-'; }
CASE(settings, 4000) {
    char pre[40]; snprintf(pre, sizeof pre, "s%ld_", k); typedef std::map<std::string, std::pair<std::string, var>> Sec; std::map<std::string, Sec> m;
    auto sn = [&](Rng& r) { return pre + std::string(1, (char)r.in('a', 'c')); };
    Config c; std::string cur; int n = r.in(1, 30);
    auto see = [&](const char* w) { for (auto& s : m) { Config d(V(s.first)); var sec; sec = d.configSection(V(s.first)); CHECK(sec.size() == (int)s.second.size(), "section %s has %d settings after %s, expected %zu", s.first.c_str(), sec.defined() ? (int)sec.size() : 0, w, s.second.size()); for (auto& e : s.second) { var x; x = d.config(V(e.first)); EQ(repe(x), e.second.first, "%s.%s after %s", s.first.c_str(), e.first.c_str(), w); } } };
    for (int i = 0; i < n; i++) {
        std::string e = r.p(1, 10) ? gword(r) : grand(r, 2, "xyz"); if (e.empty()) e = "w";
        switch (r.in(0, 7)) {
        case 0: { cur = sn(r); logf("section %s\n", cur.c_str()); c.configSection(V(cur)); m[cur]; see("selecting a section"); break; }
        case 1: case 2: { G g; int w = r.in(0, 4); switch (w) { case 0: { int x = r.p(1, 3) ? gsome(r) : r.in(-99, 99); g = {var(x), R(x)}; break; } case 1: { double x = r.p(1, 3) ? gsome(r) / 1000.0 : r.in(-99, 99) / 4.0; g = {var(x), R(x)}; break; } case 2: { long x = r.p(1, 3) ? gsome(r) * (r.p(1, 2) ? 1L : 3000000019L) : r.in(-99, 99); g = {var(x), R(x)}; break; } case 3: { float x = r.in(-99, 99) / 2.0f; g = {var(x), R(x)}; break; } default: { std::string x = r.p(1, 6) ? gword(r) : r.p(1, 2) ? grand(r, 4, "ab ") : r.p(1, 2) ? std::to_string(r.in(-99, 99)) : r.p(1, 2) ? std::to_string(r.in(-999999999, 999999999)) : dec(r); g = {V(x), RS(x)}; } }
            logf("%s.%s = %s\n", cur.c_str(), e.c_str(), g.s.c_str()); c.configSet(V(e), g.v); if (!cur.empty()) m[cur][e] = {g.s, g.v}; see("setting"); break; }
        case 3: { logf("lookup %s\n", e.c_str()); var x; x = c.config(V(e)); bool has = !cur.empty() && m[cur].count(e); if (has) EQ(repe(x), m[cur][e].first, "config(%s)", e.c_str()); else CHECK(!x.defined(), "config(%s) without a setting is %s", e.c_str(), rep(x).c_str()); see("lookup"); break; }
        default: { int w = r.in(0, 4); bool has = !cur.empty() && m[cur].count(e); logf("lookup %s, default, type %d\n", e.c_str(), w); var v; if (has) v = m[cur][e].second; bool str = has && v.heap(); std::string t = str ? std::string(v.heap()->ptrchar(), v.size()) : "";
            bool n = has && (!str || whole(t)), f = has && (n || point(t)); double dv = !has ? 0 : str ? strtod(f ? t.c_str() : "0", 0) : v.type() == TYPE_FLOAT ? v.get<float>() : v.type() == TYPE_DOUBLE ? v.get<double>() : 0;
#define NUM(T, D) { bool real = (T)0.5 != (T)0; if (has && !(real ? f : n)) break; if (!real && !(fabs(dv) < (sizeof(T) == 4 ? 2e9 : 9e18))) break; T x = c.config<T>(V(e), (T)D); T y = !has ? (T)D : str ? (sizeof(T) == 4 && real ? (T)strtof(t.c_str(), 0) : real ? (T)dv : (T)atol(t.c_str())) : v.type() == TYPE_INT ? (T)v.get<int>() : v.type() == TYPE_LONG ? (T)v.get<long>() : v.type() == TYPE_FLOAT ? (T)v.get<float>() : (T)v.get<double>(); CHECK(x == y, "config<%s>(%s) = %g, expected %g", #T, e.c_str(), (double)x, (double)y); break; }
            switch (w) { case 0: NUM(int, -1000) case 1: NUM(long, 12345678901) case 2: NUM(float, 0.25f) case 3: NUM(double, 1e9)
            case 4: { if (has && !str) break; std::string x = c.config<const char*>(V(e), "deflt"); CHECK(x == (has ? t : "deflt"), "config<const char*>(%s) = %s", e.c_str(), x.c_str()); break; } }
            see("lookup with a default"); break; }
        }
    }
}
CASE(file, 600) {
    char pre[40]; snprintf(pre, sizeof pre, "f%ld_", k); std::map<std::string, std::map<std::string, std::string>> m; Config c;
    for (int round = 0; round < 2; round++) {
        std::string t; int n = r.in(0, 3);
        for (int i = 0; i < n; i++) { std::string s = pre + std::string(1, (char)r.in('a', 'b')); t += "[" + s + "]\n"; int q = r.in(1, 4); for (int j = 0; j < q; j++) { std::string e(1, (char)r.in('p', 't')), v = "v" + grand(r, 3, "ab") ; if (r.p(1, 5)) { t += "# comment\n\n"; continue; } t += e + (r.p(1, 3) ? " : " : r.p(1, 2) ? "=" : " = ") + v + (r.p(1, 4) ? " \n" : "\n"); m[s][e] = v; } }
        if (r.p(1, 2) && n) t.pop_back();
        char path[] = "/tmp/c20XXXXXX"; int fd = mkstemp(path); CHECK(fd >= 0, "scratch file"); if (write(fd, t.data(), t.size()) != (ssize_t)t.size()) fail("scratch file"); close(fd); logf("merge:\n%s\n", t.c_str());
        bool th = throws([&]{ c.configFile(path); }); unlink(path); CHECK(!th, "file is refused");
        for (auto& s : m) { var sec; sec = c.configSection(V(s.first)); CHECK(sec.size() == (int)s.second.size(), "section %s has %d settings, expected %zu", s.first.c_str(), (int)sec.size(), s.second.size()); for (auto& e : s.second) { std::string x = c.config<const char*>(V(e.first), "-"); CHECK(x == e.second, "%s.%s = %s, expected %s", s.first.c_str(), e.first.c_str(), q(x).c_str(), e.second.c_str()); } }
        std::string s = std::string(pre) + "b", e(1, (char)r.in('p', 'v')), v = "w" + grand(r, 2, "xy"); c.configSection(V(s)); c.configSet(V(e), V(v)); m[s][e] = v; logf("%s.%s = %s\n", s.c_str(), e.c_str(), v.c_str());
    }
}
