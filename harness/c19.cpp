// C19: JSON text read back gives the value that was written
#include "h.h"
using namespace libube;
namespace libube { std::ostream& operator <<(std::ostream&, var); std::istream& operator >>(std::istream&, var&); }
// canonical form of a JSON value, whatever its integer type, and whether an array is dense
static std::string canon(const var& v) {
    if (!v.defined()) return "null";
    IHeap* h = v.heap(); char b[40];
    if (!h) switch (v.type()) { case TYPE_INT: snprintf(b, sizeof b, "%d", v.get<int>()); return b; case TYPE_LONG: snprintf(b, sizeof b, "%ld", v.get<long>()); return b; default: return "?" + rep(v); }
    int n = h->size(); std::string s;
    switch ((int)h->type()) {
    case TYPE_CHAR: return q(std::string(h->ptrchar(), n));
    case TYPE_INT: for (int i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(*h->ptrint(i)); return "[" + s + "]";
    case TYPE_LONG: for (int i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(*h->ptrlong(i)); return "[" + s + "]";
    case TYPE_VAR: for (int i = 0; i < n; i++) s += (i ? "," : "") + canon(*h->ptrvar(i)); return "[" + s + "]";
    case TYPE_PAIR: for (int i = 0; i < n; i++) s += (i ? "," : "") + canon(h->ptrpair(i)->key) + ":" + canon(h->ptrpair(i)->val); return "{" + s + "}";
    }
    return "?" + rep(v);
}
static std::string str(Rng& r) { int w = r.in(0, 4); if (r.p(1, 12)) return gword(r); return w == 0 ? grand(r, 6, "ab\"\\/") : w == 1 ? grand(r, 6) : w == 2 ? grand(r, 6, "\x01\x1f\b\f\n\r\t\x7f") : w == 3 ? grand(r, 6, "{}[],: null") : grand(r, 5, "\xff\xc3\xa9\x80u"); }
static var V(const std::string& s) { return var((int)s.size(), s.c_str()); }
static var gen(Rng& r, int depth) {
    switch (r.in(0, depth ? 9 : 4)) {
    case 0: return var();
    case 1: { int x = r.p(1, 2) ? r.in(-20, 20) : r.of(std::vector<int>{INT_MIN, INT_MAX, 0, 1000000}); return var(x); }
    case 2: { long x = r.p(1, 2) ? r.in(-20, 20) : r.of(std::vector<long>{LONG_MIN, LONG_MAX, (long)INT_MAX + 1}); return var(x); }
    case 3: case 4: return V(str(r));
    case 5: { int t = r.p(1, 2) ? TYPE_INT : TYPE_LONG; G g = garray(r, t, r.in(1, 4)); return g.v; }
    case 6: case 7: { var v; int n = r.in(0, 4); v.resize(0); v.resize(n); for (int i = 0; i < n; i++) { var x; x = gen(r, depth - 1); *v.heap()->ptrvar(i) = x; } return v; }
    default: { var v; v[nil]; int n = r.in(0, 3); for (int i = 0; i < n; i++) { var x; x = gen(r, depth - 1); v[V(str(r))] = x; } return v; }
    }
}
CASE(roundtrip) {
    Balance b("formatting and parsing");
    {
        var v; v = gen(r, r.in(0, 3)); std::string c = canon(v); logf("%s\n", c.c_str());
        std::ostringstream o; o << v; std::string t = o.str(); logf("text %s\n", q(t).c_str()); CHECK(canon(v) == c, "formatting changed the value to %s", canon(v).c_str());
        static const char* TAIL[] = {"", " ", ",1", "]", "}", "\n{", ", \"x\""}; std::string tail = TAIL[r.in(0, 6)];
        std::istringstream is(t + tail); var w; is >> w; EQ(canon(w), c, "value read back");
        std::string rest; is.clear(); int ch; while ((ch = is.get()) != EOF) rest += (char)ch; CHECK(rest == tail, "text left after parsing is %s, expected %s", q(rest).c_str(), q(tail).c_str());
        varstream vs; vs << v; EQ(rep(var(vs)), RS(t), "text written through a varstream"); std::istringstream is2(t); var w2; w2 = 3; is2 >> w2; EQ(canon(w2), c, "value read over another");
        if (v.defined()) CHECK(w == w2 && !(w != w2), "values read from the same text differ");
        // the same text with other white space
        std::string u; bool in = false; for (size_t i = 0; i < t.size(); i++) { char x = t[i]; if (in) { u += x; if (x == '\\') u += t[++i]; else if (x == '"') in = false; } else if (isspace(x)) { if (r.p(1, 2)) u += "\t \n"; } else { if (strchr("{}[],:", x)) { u += r.p(1, 3) ? " " : ""; u += x; u += r.p(1, 3) ? "\n" : ""; } else { u += x; if (x == '"') in = true; } } }
        std::istringstream is3(u); var w3; is3 >> w3; EQ(canon(w3), c, "value read from %s", q(u).c_str());
    }
    b.done();
}
CASE(views) {       // a vector that is part of an array reads back as its elements
    int t = r.p(1, 2) ? TYPE_INT : TYPE_LONG; G g = garray(r, t, r.in(1, 7)); int n = r.in(1, g.v.size()), off = r.in(0, g.v.size() - n); var v = g.v.view({n}, off); logf("view of %d at %d of %s\n", n, off, g.s.c_str()); std::ostringstream o; o << v; logf("text %s\n", q(o.str()).c_str()); std::istringstream is(o.str()); var w; is >> w;
    CHECK(w.heap() && w.size() == n, "read back as %s", rep(w).c_str()); for (int i = 0; i < n; i++) { var a, b; a = v[i]; b = w[i]; CHECK(a.cast<long>() == b.cast<long>(), "element %d is read back as %s", i, rep(b).c_str()); } EQ(rep(g.v), g.s, "storage");
}
CASE(strings, 256) {    // text of a string is a valid quoted JSON string
    for (int k2 = -1; k2 < 256; k2++) {
        std::string s(1, (char)k); if (k2 >= 0) s += (char)k2;
        std::ostringstream o; o << V(s); std::string t = o.str(), d; CHECK(t.size() >= 2 && t[0] == '"' && t.back() == '"', "not quoted: %s", q(t).c_str());
        for (size_t i = 1; i + 1 < t.size(); i++) { unsigned char c = t[i]; CHECK(c >= 0x20 && c != '"', "character %d is not escaped in %s", c, q(t).c_str()); if (c != '\\') { d += c; continue; } CHECK(i + 2 < t.size(), "escape at the end of %s", q(t).c_str()); char e = t[++i]; if (e == 'u') { CHECK(i + 5 < t.size(), "short escape"); d += (char)strtol(t.substr(i + 1, 4).c_str(), 0, 16); i += 4; } else { const char* p = strchr("\"\\/bfnrt", e); CHECK(p && *p, "bad escape in %s", q(t).c_str()); d += "\"\\/\b\f\n\r\t"[p - "\"\\/bfnrt"]; } }
        if (k2 < 0 || r.p(1, 8)) { std::istringstream is(t); var w; is >> w; EQ(rep(w), RS(s), "string read back from %s", q(t).c_str()); }
        CHECK(d == s, "%s stands for %s, not %s", q(t).c_str(), q(d).c_str(), q(s).c_str());
    }
}
CASE(escapes) {     // \uXXXX as UTF-8
    static const int E_[] = {0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10001, 0x103FF, 0x10400, 0x10FFFF}; int c = r.p(1, 4) ? E_[r.in(0, 11)] : r.p(1, 2) ? r.in(0, 0x2FF) : r.in(0, 0x10FFFF); if (c >= 0xD800 && c < 0xE000) return; char b[40]; if (c < 0x10000) snprintf(b, sizeof b, r.p(1, 2) ? "\"\\u%04x\"" : "\"\\u%04X\"", c); else snprintf(b, sizeof b, "\"\\u%04x\\u%04x\"", 0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3FF));
    std::string u; if (c < 0x80) u += (char)c; else if (c < 0x800) { u += (char)(0xC0 | c >> 6); u += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { u += (char)(0xE0 | c >> 12); u += (char)(0x80 | (c >> 6 & 63)); u += (char)(0x80 | (c & 63)); } else { u += (char)(0xF0 | c >> 18); u += (char)(0x80 | (c >> 12 & 63)); u += (char)(0x80 | (c >> 6 & 63)); u += (char)(0x80 | (c & 63)); }
    std::istringstream is(b); var w; is >> w; EQ(rep(w), RS(u), "%s", b);
}
// an independent recogniser: 1 well formed, 0 malformed, -1 undecided (number forms the parser is lenient about)
struct Rec {
    const std::string& t; size_t i = 0; bool odd = false;
    void ws() { while (i < t.size() && isspace((signed char)t[i])) i++; }
    bool hex4() { for (int k = 0; k < 4; k++, i++) if (i >= t.size() || !isxdigit((unsigned char)t[i])) return false; return true; }
    bool string() { i++; while (i < t.size()) { char c = t[i++]; if (c == '"') return true; if ((unsigned char)c < 0x20) odd = true; if (c == '\\') { if (i >= t.size()) return false; char e = t[i++]; if (e == 'u') { odd = true; if (!hex4()) return false; } else if (!strchr("\"\\/bfnrt", e) || !e) return false; } } return false; }
    bool value() {
        ws(); if (i >= t.size()) return false;
        if (t[i] == '"') return string();
        if (t[i] == '[') { i++; ws(); if (i < t.size() && t[i] == ']') { i++; return true; } for (;;) { if (!value()) return false; ws(); if (i >= t.size()) return false; if (t[i] == ']') { i++; return true; } if (t[i++] != ',') return false; } }
        if (t[i] == '{') { i++; ws(); if (i < t.size() && t[i] == '}') { i++; return true; } for (;;) { ws(); if (i >= t.size() || t[i] != '"' || !string()) return false; ws(); if (i >= t.size() || t[i++] != ':') return false; if (!value()) return false; ws(); if (i >= t.size()) return false; if (t[i] == '}') { i++; return true; } if (t[i++] != ',') return false; } }
        size_t b = i; while (i < t.size() && !isspace((signed char)t[i]) && !(t[i] && strchr(",[]{}", t[i])) && t[i]) i++; std::string w = t.substr(b, i - b);
        if (w == "true" || w == "false" || w == "null") return true; if (w.empty()) return false;
        if (w.find_first_not_of("0123456789") == std::string::npos && (w.size() == 1 || w[0] != '0')) return true; if (w[0] == '-' && w.size() > 1 && w.substr(1).find_first_not_of("0123456789") == std::string::npos) return true;
        if (w.find_first_not_of("0123456789+-.eExXpPinfaINFA") == std::string::npos) odd = true; return false;
    }
};
CASE(malformed) {
    std::string t; if (r.p(1, 3)) t = grand(r, 8, "[]{},:\"1a\\ "); else { var v; v = gen(r, 2); std::ostringstream o; o << v; t = o.str(); int n = r.in(1, 2); for (int k = 0; k < n && !t.empty(); k++) { int p = r.in(0, (int)t.size() - 1); switch (r.in(0, 3)) { case 0: t.erase(p, 1); break; case 1: t.resize(p); break; case 2: t.insert(p, 1, ",[]{}:\"1\\x "[r.in(0, 10)]); break; case 3: t[p] = ",[]{}:\"1\\x "[r.in(0, 10)]; break; } } }
    Rec c{t}; bool ok = c.value(); if (c.odd) return; logf("parse %s\n", q(t).c_str());
    Balance bal("parsing"); { std::istringstream is(t); var w; w = 7; bool th = throws([&]{ is >> w; }); if (ok) CHECK(!th, "well formed text is refused"); else { CHECK(th, "malformed text is read as %s", canon(w).c_str()); EQ(rep(w), R(7), "value after refused text"); } } bal.done();
}
CASE(raw) { const char* W[] = {"tru", "nul", "nil", "x", "1x", "1 2", "truefalse", "--1", "0x", "1..2", "1e", "\"a", "'a'", "a\"", "", " "}; int k2 = r.in(0, 15); if (k2 == 5) return; std::istringstream is(W[k2]); var w; logf("%s\n", W[k2]); MUSTTHROW(is >> w, "malformed %s is read as a value", W[k2]); std::istringstream js("[true, false, null, 1.5]"); js >> w; CHECK(w.size() == 4 && w.atype<var>(), "literals"); EQ(rep(*w.heap()->ptrvar(3)), R(1.5), "1.5"); }
