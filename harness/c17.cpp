// C17: a stream over a value reads and writes exactly its bytes
#include "h.h"
using namespace libube;
static std::string text(varstream& s) { return rep(var(s)); }
CASE(ops) {
    std::string T = grand(r, 8, r.p(1, 3) ? "ab \n" : r.p(1, 2) ? "\xff\xfe\x01\x7f\x80z" : "abc"); if (r.p(1, 6)) T = "";
    var v; if (!T.empty() || r.p(1, 2)) v = var((int)T.size(), T.c_str());
    logf("stream over %s\n", q(T).c_str()); varstream s(v); size_t pos = 0;
    int n = r.in(1, 30);
    for (int i = 0; i < n; i++) {
        int op = r.in(0, 9);
        switch (op) {
        case 0: { char c = (char)r.in(0, 255); logf("put %d\n", c); s.put(c); T += c; CHECK(s.good(), "put failed"); break; }
        case 1: { std::string w = grand(r, 5, "xy\xff\n 1"); logf("write %s\n", q(w).c_str()); s.write(w.data(), w.size()); T += w; CHECK(s.good(), "write failed"); break; }
        case 2: case 3: { logf("get\n"); int c = s.get(); if (pos < T.size()) { CHECK(c == (unsigned char)T[pos], "get at %zu returned %d, expected %d", pos, c, (unsigned char)T[pos]); CHECK(s.good(), "get set a bad state"); pos++; } else { CHECK(c == EOF && s.eof(), "get at the end returned %d", c); s.clear(); } break; }
        case 4: { logf("peek\n"); int c = s.peek(); if (pos < T.size()) { CHECK(c == (unsigned char)T[pos], "peek at %zu returned %d", pos, c); CHECK(s.good(), "peek set a bad state"); } else { CHECK(c == EOF && s.eof(), "peek at the end returned %d", c); s.clear(); } break; }
        case 5: { logf("unget\n"); s.unget(); if (pos > 0) { pos--; CHECK(s.good(), "unget failed"); } else { CHECK(!s.good(), "unget at the start succeeded"); s.clear(); } break; }
        case 6: { if (!pos) break; logf("putback\n"); s.putback(T[pos - 1]); pos--; CHECK(s.good(), "putback failed"); break; }
        case 7: { long p = r.in(-2, (int)T.size() + 3); logf("seekg %ld\n", p); s.seekg(std::streampos(p)); if (p >= 0 && p <= (long)T.size()) { pos = p; CHECK(s.good(), "seekg(%ld) failed", p); } else { CHECK(s.fail(), "seekg(%ld) succeeded for %zu characters", p, T.size()); s.clear(); } break; }
        case 8: { logf("get word\n"); std::string w; s >> w; size_t p = pos; while (p < T.size() && isspace((unsigned char)T[p])) p++; size_t e = p; while (e < T.size() && !isspace((unsigned char)T[e])) e++; CHECK(w == T.substr(p, e - p), "word %s, expected %s", q(w).c_str(), q(T.substr(p, e - p)).c_str()); pos = e; CHECK(s.fail() == w.empty() && s.eof() == (e == T.size()), "state after word"); s.clear(); break; }
        case 9: { logf("getline\n"); std::string w; std::getline(s, w); size_t e = T.find('\n', pos); bool nl = e != std::string::npos; if (!nl) e = T.size(); CHECK(w == T.substr(pos, e - pos), "line %s, expected %s", q(w).c_str(), q(T.substr(pos, e - pos)).c_str()); pos = nl ? e + 1 : e; s.clear(); break; }
        }
        EQ(text(s), RS(T), "text");
    }
    std::string rest; int c; while ((c = s.get()) != EOF) rest += (char)c;
    CHECK(rest == T.substr(pos), "rest is %s, expected %s", q(rest).c_str(), q(T.substr(pos)).c_str());
    EQ(text(s), RS(T), "text at the end");
}
CASE(bytes, 256) { char c = (char)k; { varstream s; s.put(c); EQ(text(s), RS(std::string(1, c)), "written byte %ld", k); CHECK(s.peek() == (int)k, "peek of byte %ld", k); CHECK(s.get() == (int)k, "get of byte %ld", k); CHECK(s.get() == EOF, "end of file after byte %ld", k); } std::string t = std::string("a") + c + "b"; varstream s(var(3, t.c_str())); std::string u; int x; while ((x = s.get()) != EOF) u += (char)x; CHECK(u == t, "reading %s gave %s", q(t).c_str(), q(u).c_str()); s.clear(); s.unget(); s.unget(); CHECK(s.get() == (int)k, "byte %ld put back", k); }
CASE(format) { int a = r.in(INT_MIN, INT_MAX); long b = (long)r.next(); double d = r.in(-1000, 1000) / 8.0; varstream s; std::ostringstream o; s << a << " " << b << " x " << d; o << a << " " << b << " x " << d; EQ(text(s), RS(o.str()), "formatted text"); int a2; long b2; std::string x; double d2; s >> a2 >> b2 >> x >> d2; CHECK(a2 == a && b2 == b && x == "x" && d2 == d, "numbers read back differ"); }
