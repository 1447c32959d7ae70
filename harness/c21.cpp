// C21: command-line options are parsed as declared
#include "h.h"
#include <unistd.h>
#include "lube/config.h"
using namespace libube;
struct D { bool arg; std::string def; };
static std::string dv(const var& v) { return v.defined() ? rep(v) : "U"; }
CASE(parse) {
    std::map<char, D> d; Option o(var("prog")); int n = r.in(0, 5);
    for (int i = 0; i < n; i++) {
        char c = (char)(r.p(1, 2) ? r.in('a', 'f') : r.in('A', 'C')); if (d.count(c)) continue; if (r.p(1, 4)) o(var("text"));
        switch (r.in(0, 3)) { case 0: case 1: o(c, "a flag"); d[c] = {false, "U"}; break; case 2: { std::string s = r.p(1, 5) ? gword(r) : grand(r, 3, "xy"); o(c, "takes a string", var((int)s.size(), s.c_str())); d[c] = {true, RS(s)}; break; } default: { int x = r.in(-5, 5); o(c, "takes a number", var(x)); d[c] = {true, R(x)}; } }
        logf("declare %c %s default %s\n", c, d[c].arg ? "with argument" : "flag", d[c].def.c_str());
    }
    std::vector<char> cs; for (auto& x : d) cs.push_back(x.first);
    std::map<char, std::string> e; for (auto& x : d) e[x.first] = x.second.def;
    std::vector<std::string> a{"prog"}, rest; int k2 = r.in(0, 8); bool mixed = r.p(1, 4);
    auto free = [&]{ std::string s = grand(r, 3, "pq1"); if (s.empty()) s = r.p(1, 3) ? "-" : "z"; a.push_back(s); rest.push_back(s); };
    for (int i = 0; i < k2; i++) {
        if (mixed && r.p(1, 4)) { free(); continue; } if (cs.empty()) continue;
        std::string w = "-"; for (;;) { char c = r.of(cs); w += c; if (!d[c].arg) { e[c] = R(1); if (r.p(1, 2)) { a.push_back(w); break; } continue; }
            std::string v = r.p(1, 6) ? gword(r) : grand(r, 3, "xy1-"); if (!v.empty() && r.p(1, 2)) { w += v; a.push_back(w); } else { a.push_back(w); a.push_back(v); } e[c] = RS(v); break; }
    }
    if (r.p(1, 3)) { a.push_back("--"); int z = r.in(0, 3); for (int i = 0; i < z; i++) { if (r.p(1, 3)) { std::string s = cs.empty() ? "-z" : std::string("-") + r.of(cs); a.push_back(s); rest.push_back(s); } else free(); } }
    else { int z = r.in(0, 3); for (int i = 0; i < z; i++) free(); }
    std::vector<std::vector<char>> st; std::vector<char*> av; for (auto& s : a) { st.push_back(std::vector<char>(s.begin(), s.end())); st.back().push_back(0); logf("arg %s\n", q(s).c_str()); } for (auto& s : st) av.push_back(s.data()); av.push_back(0);
    var m; m = o.parse((int)a.size(), av.data());
    if (!d.empty()) CHECK(m.size() == (int)d.size(), "%d options, %zu declared", (int)m.size(), d.size());
    for (auto& x : e) { var y; y = o[x.first]; EQ(dv(y), x.second, "option %c", x.first); y = m[var(x.first)]; EQ(dv(y), x.second, "option %c of the result of parse()", x.first); }
    var g; g = o.args(); CHECK((g.defined() ? (int)g.size() : 0) == (int)rest.size(), "%d arguments remain, expected %zu", g.defined() ? (int)g.size() : 0, rest.size());
    for (size_t i = 0; i < rest.size(); i++) { var y; y = g[(int)i]; EQ(rep(y), RS(rest[i]), "argument %zu", i); }
}
