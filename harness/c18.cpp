// C18: string functions
#include "h.h"
using namespace libube;
static var V(const std::string& s) { return var((int)s.size(), s.c_str()); }
static std::string up(std::string s) { for (char& c : s) c = (char)std::toupper(c); return s; }
static std::string lo(std::string s) { for (char& c : s) c = (char)std::tolower(c); return s; }
static std::string st(const std::string& s) { size_t a = 0, b = s.size(); while (a < b && isspace(s[a])) a++; while (b > a && isspace(s[b - 1])) b--; return s.substr(a, b - a); }
static std::string gen(Rng& r) { return r.p(1, 12) ? gword(r) + (r.p(1, 2) ? gword(r) : "") : r.p(1, 3) ? grand(r, 9, " \t\n") : r.p(1, 2) ? grand(r, 9, "aZz @[`{09 \xe9\xff\x80") : grand(r, 9, "ab  "); }
template <class F, class O> static void fn(Rng& r, F f, O o, const std::string& s, const char* w) {
    logf("%s of %s\n", w, q(s).c_str());
    { var v = V(s); var x; x = f(v); EQ(rep(x), RS(o(s)), "%s", w); EQ(rep(v), RS(s), "operand of %s", w); CHECK(!x.is(v), "result shares the operand's storage"); }
    { var v = V(s); var y = v; f(v, v); EQ(rep(v), RS(o(s)), "%s in place", w); EQ(rep(y), RS(o(s)), "the other reference to the string after %s in place", w); }
    { var v = V(s), x; x = V(gen(r)); f(v, x); EQ(rep(x), RS(o(s)), "%s into another", w); EQ(rep(v), RS(s), "operand of %s", w); }
    { var v; v.resize(0); std::vector<std::string> e, d; int n = r.in(1, 3); for (int i = 0; i < n; i++) { std::string t = gen(r); v.resize(i + 1); *v.heap()->ptrvar(i) = V(t); e.push_back(RS(o(t))); d.push_back(RS(t)); } var x; x = f(v); EQ(rep(x), joinrep(e, TYPE_VAR), "%s of an array", w); EQ(rep(v), joinrep(d, TYPE_VAR), "operand array of %s", w); f(v, v); EQ(rep(v), joinrep(e, TYPE_VAR), "%s of an array in place", w); }
}
CASE(functions) { std::string s = gen(r); fn(r, libube::toupper, up, s, "toupper"); fn(r, libube::tolower, lo, s, "tolower"); fn(r, libube::strip, st, s, "strip"); }
CASE(methods) { std::string s = gen(r); logf("%s\n", q(s).c_str()); { var v = V(s); v.toupper(); EQ(rep(v), RS(up(s)), "toupper()"); } { var v = V(s); v.tolower(); EQ(rep(v), RS(lo(s)), "tolower()"); } { var v = V(s); v.strip(); EQ(rep(v), RS(st(s)), "strip()"); EQ(v.str(), st(s), "str()"); } }
CASE(bytes, 256) { if (!k) return; std::string s = "x" + std::string(1, (char)k) + "Y"; fn(r, libube::toupper, up, s, "toupper"); fn(r, libube::tolower, lo, s, "tolower"); s = std::string(1, (char)k) + "x" + std::string(1, (char)k); fn(r, libube::strip, st, s, "strip"); }
static std::string arr(const std::vector<std::string>& p) { std::vector<std::string> e; for (auto& x : p) e.push_back(RS(x)); return joinrep(e, TYPE_VAR); }
CASE(split) {
    std::string s = r.p(1, 8) ? "" : grand(r, 12, r.p(1, 2) ? "a,b" : ",,a"); static const char* S[] = {",", "a", ",,", "ab", ",a,", "b,", "aa"}; std::string sep = S[r.in(0, 6)]; int lim = r.p(1, 2) ? 0 : r.in(1, 5);
    logf("split %s at %s limit %d\n", q(s).c_str(), q(sep).c_str(), lim);
    std::vector<std::string> p; size_t at = 0, n; while ((!lim || (int)p.size() < lim - 1) && (n = s.find(sep, at)) != std::string::npos) { p.push_back(s.substr(at, n - at)); at = n + sep.size(); } p.push_back(s.substr(at));
    var v = V(s); var x; x = v.split(sep.c_str(), lim); EQ(rep(x), arr(p), "pieces"); EQ(rep(v), RS(s), "operand");
    var j; j = x.join(sep.c_str()); EQ(rep(j), RS(s), "pieces joined again"); EQ(rep(x), arr(p), "pieces after joining");
}
CASE(space) {
    std::string s = grand(r, 14, r.p(1, 2) ? "ab \t" : " \n\ra\x80"); logf("split %s\n", q(s).c_str());
    std::vector<std::string> p; size_t i = 0; while (i < s.size()) { while (i < s.size() && isspace(s[i])) i++; size_t b = i; while (i < s.size() && !isspace(s[i])) i++; if (i > b) p.push_back(s.substr(b, i - b)); }
    var v = V(s); var x; x = v.split(); if (p.empty()) CHECK(x.size() == 0, "%d pieces of an empty line", x.size()); else EQ(rep(x), arr(p), "words"); EQ(rep(v), RS(s), "operand");
    int lim = r.in(2, 4); if ((int)p.size() >= lim) { size_t at = 0; for (int k = 0; k < lim - 1; k++) { while (isspace(s[at])) at++; at += p[k].size(); } while (isspace(s[at])) at++; p.resize(lim - 1); p.push_back(s.substr(at)); } var y; y = v.split(lim); if (!p.empty()) EQ(rep(y), arr(p), "words, limit %d", lim);
}
CASE(join) { std::vector<std::string> p; int n = r.in(0, 5); var v; v.resize(0); std::string e, sep = grand(r, 2, ",;"); for (int i = 0; i < n; i++) { p.push_back(gen(r)); v.resize(i + 1); *v.heap()->ptrvar(i) = V(p[i]); e += (i ? sep : "") + p[i]; } var x; x = v.join(sep.c_str()); EQ(rep(x), RS(e), "join"); EQ(rep(v), arr(p), "operand"); }
CASE(getline) {
    std::string t; int n = r.in(0, 5); for (int i = 0; i < n; i++) { t += grand(r, r.p(1, 3) ? 200 : 6, "ab\t\xff"); if (r.p(4, 5)) t += '\n'; }
    std::istringstream is(t); var v; std::vector<std::string> p; { std::istringstream js(t); std::string l; while (std::getline(js, l)) p.push_back(l); }
    size_t i = 0; while (v.getline(is).defined()) { CHECK(i < p.size(), "too many lines"); EQ(rep(v), RS(p[i]), "line %zu", i); i++; if (i > p.size()) break; } CHECK(i == p.size(), "%zu lines, expected %zu", i, p.size());
}
