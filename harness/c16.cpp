// C16: length of a character string in code points
#include "h.h"
using namespace libube;
static long oracle(const std::string& s) {
    long n = 0; size_t i = 0;
    while (i < s.size()) {
        unsigned char c = s[i]; int l = c < 0x80 ? 1 : (c >= 0xC0 && c < 0xE0) ? 2 : (c >= 0xE0 && c < 0xF0) ? 3 : (c >= 0xF0 && c < 0xF8) ? 4 : 0;
        if (!l || i + l > s.size()) return -1;
        for (int k = 1; k < l; k++) { unsigned char d = s[i + k]; if (d < 0x80 || d > 0xBF) return -1; }
        i += l; n++;
    }
    return n;
}
static void check(const std::string& s) {
    var v((int)s.size(), s.c_str()); std::string b = rep(v); long e = oracle(s), g = v.len();
    if (e < 0 ? g >= 0 : g != e) fail("len of %s is %ld, expected %ld", q(s).c_str(), g, e);
    if (rep(v) != b) fail("len changed the string %s", q(s).c_str());
}
CASE(short_strings, 256) {      // every string of up to two bytes, and of three bytes by class
    static const unsigned char C[] = {0, 1, 'a', 0x7F, 0x80, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE2, 0xEF, 0xF0, 0xF4, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF};
    std::string a(1, (char)k); check(a); check("");
    for (int i = 0; i < 256; i++) check(a + (char)i);
    for (unsigned char i : C) for (unsigned char j : C) { check(a + (char)i + (char)j); for (unsigned char l : C) check(a + (char)i + (char)j + (char)l); }
}
CASE(longer) {
    std::string s; int n = r.in(0, 12);
    static const char* U[] = {"a", "\x7f", "\xc2\x80", "\xdf\xbf", "\xe2\x82\xac", "\xef\xbf\xbf", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf", " "};
    for (int i = 0; i < n; i++) s += U[r.in(0, 8)];
    if (!s.empty() && r.p(1, 2)) { if (r.p(1, 2)) s.resize(r.in(0, (int)s.size())); else s[r.in(0, (int)s.size() - 1)] = (char)r.in(0, 255); }
    logf("%s\n", q(s).c_str()); check(s);
    var v((int)s.size(), s.c_str()); var w = v; w.array(); std::string t = s; if (!t.empty()) { int m = r.in(0, (int)t.size()); w = v.copy(); w.resize(m); t.resize(m); long e = oracle(t), g = w.len(); if (e < 0 ? g >= 0 : g != e) fail("len after resize is %ld, expected %ld", g, e); }
}
CASE(others) {
    int t = ELTYPES[r.in(0, 7)]; if (t == TYPE_CHAR) return; int n = r.in(0, 7); G g = garray(r, t, n); CHECK(g.v.len() == n, "len of an array of %d elements of type %d is %ld", n, t, (long)g.v.len());
    G x = gscalar(r, SCALARS[r.in(0, 4)]); if (x.v.type() != TYPE_CHAR) CHECK(x.v.len() == (long)x.v.size(), "len of a scalar"); var u; CHECK(u.len() == 0, "len of nil");
}
