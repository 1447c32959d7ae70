seed('c13-long-int', 'C13', 'lube/math.cpp', [("        *oVar.ptr<long>() = iVar1.get<long>() - iVar2.cast<long>();", "        *oVar.ptr<long>() = iVar1.get<long>() - iVar2.cast<int>();")],
'''
int main() {
    var a = 1L, b = 8589934592L; var c = a - b; CHECK(c.type() == a.type()); CHECK(c.get<long>() == 1L - 8589934592L);
    a -= b; CHECK(a.get<long>() == 1L - 8589934592L); CHECK(b.get<long>() == 8589934592L);
    return bad;
}
''', 'a long beyond 32 bits subtracted from a long', 'the difference is that of the truncated operand')
seed('c13-cfloat-mul', 'C13', 'lube/math.cpp', [("        *oVar.ptr<cfloat>() = iVar1.get<cfloat>() * iVar2.cast<cfloat>();", "        *oVar.ptr<cfloat>() = iVar1.get<cfloat>() * iVar2.cast<float>();")],
'''
int main() {
    var a = cfloat(1, 2), b = cfloat(3, 4); var c = a * b; CHECK(c.get<cfloat>() == cfloat(1, 2) * cfloat(3, 4)); CHECK(a.get<cfloat>() == cfloat(1, 2));
    var d = a * 2.0f; CHECK(d.get<cfloat>() == cfloat(2, 4));
    return bad;
}
''', 'two single complex numbers whose imaginary parts are not zero are multiplied', 'the imaginary part of the right operand is ignored')
seed('c13-char-div', 'C13', 'lube/math.cpp', [("        *oVar.ptr<char>() = iVar1.get<char>() / iVar2.cast<char>();", "        *oVar.ptr<char>() = (unsigned char)iVar1.get<char>() / (unsigned char)iVar2.cast<char>();")],
'''
int main() {
    var a = (char)-20, b = (char)3; var c = a / b; CHECK(c.get<char>() == (char)(-20 / 3)); CHECK(c.type() == a.type());
    var d = (char)90; d = d / b; CHECK(d.get<char>() == 30);
    return bad;
}
''', 'a negative char is divided', 'the quotient is that of unsigned numbers')
seed('c14-add-matrix', 'C14', 'lube/math.cpp', [("""        blas::axpy(
            size, -1.0,
            iVar2.ptr<double>(iOffset2),
            oVar.ptr<double>(iOffsetO)
        );""", """        blas::axpy(
            iVar2.shape(-1), -1.0,
            iVar2.ptr<double>(iOffset2),
            oVar.ptr<double>(iOffsetO)
        );""")],
'''
int main() {
    var a = 1.0; a.array(); a.resize(12); var b = 1.0; b.array(); b.resize(6);
    for (int i = 0; i < 12; i++) a[i] = (double)i; for (int i = 0; i < 6; i++) b[i] = 100.0 + i;
    var v = a.view({2, 2, 3}), w = b.view({2, 3}); var r = v - w;
    for (int i = 0; i < 12; i++) CHECK(r.at(i).cast<double>() == i - (100.0 + i % 6));
    return bad;
}
''', 'a matrix of doubles subtracted from a tensor', 'only the first row of each matrix is subtracted')
seed('c14-scale-alias', 'C14', 'lube/math.cpp', [("            double* y =  oVar.ptr<double>(iOffset);\n            blas::copy(size, x, y);\n            blas::scal(size, alpha, y);", "            double* y =  oVar.ptr<double>(iOffset);\n            blas::copy(size, x, y);\n            blas::scal(size, alpha, size > 32 ? x : y);")],
'''
int main() {
    var a = 1.0; a.array(); a.resize(40); for (int i = 0; i < 40; i++) a[i] = (double)i;
    var r = a * 2.0; for (int i = 0; i < 40; i++) { CHECK(r.at(i).cast<double>() == 2.0 * i); CHECK(a.at(i).cast<double>() == i); }
    return bad;
}
''', 'an array of more than 32 doubles is multiplied by a scalar out of place', 'the operand is scaled and the result is not')
seed('c15-gemm-double', 'C15', 'lube/clapack.cpp', [("""        dgemm_(&sN, &sN,
               &iN, &iM, &iK,
               &iAlpha, iB, &iN, iA, &iK,
               &iBeta, ioC, &iN);""", """        dgemm_(&sN, &sN,
               &iN, &iM, &iK,
               &iAlpha, iB, &iN, iA, iM > iK ? &iM : &iK,
               &iBeta, ioC, &iN);""")],
'''
int main() {
    var a = 1.0; a.array(); a.resize(6); var b = 1.0; b.array(); b.resize(8);
    for (int i = 0; i < 6; i++) a[i] = (double)i; for (int i = 0; i < 8; i++) b[i] = 1.0 + i;
    var r = dot(a.view({3, 2}), b.view({2, 4}));
    for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) CHECK(r(i, j).cast<double>() == a.at(2 * i).cast<double>() * b.at(j).cast<double>() + a.at(2 * i + 1).cast<double>() * b.at(4 + j).cast<double>());
    return bad;
}
''', 'the product of a matrix of doubles with more rows than columns', 'the leading dimension passed for the left operand is wrong')
seed('c15-iamax-base', 'C15', 'lube/clapack.cpp', [("        return izamax_(&iN, iX, &sOne) - 1;", "        return izamax_(&iN, iX, &sOne) - (iN > 1);")],
'''
int main() {
    std::complex<double> x[3] = {{1, 0}, {0, 5}, {2, 2}};
    var a = cdouble(1, 0); a.push(cdouble(0, 5)); a.push(cdouble(2, 2));
    var r = iamax(a); CHECK(r.cast<long>() == 1);
    var b = cdouble(3, 1); b.push(cdouble(1, 1)); b.push(cdouble(7, 0)); b.push(cdouble(9, 9)); 
    var s = iamax(b.view({4, 1})); for (int i = 0; i < 4; i++) CHECK(s.at(i).cast<long>() == 0);
    return bad;
}
''', 'the greatest of one double complex number', 'the index returned is not zero-based')
seed('c15-dot-order', 'C15', 'lube/clapack.cpp', [("        zdotc_(&r, &iN, iX, &sOne, iY, &sOne);", "        zdotc_(&r, &iN, iY, &sOne, iX, &sOne);")],
'''
int main() {
    var a = cdouble(1, 2); a.push(cdouble(3, 4)); var b = cdouble(5, 6); b.push(cdouble(7, 8));
    var r = dot(a, b); cdouble e = std::conj(cdouble(1, 2)) * cdouble(5, 6) + std::conj(cdouble(3, 4)) * cdouble(7, 8);
    CHECK(r.cast<cdouble>() == e);
    return bad;
}
''', 'the dot product of double complex vectors that are not real', 'the wrong operand is conjugated')
seed('c15-sum-offset', 'C15', 'lube/math.cpp', [("            sumArray(size, iVar.ptr<cdouble>(iOffsetI));", "            sumArray(size, iVar.ptr<cdouble>(iOffsetI / size));")],
'''
int main() {
    var a = cdouble(1, 0); for (int i = 1; i < 6; i++) a.push(cdouble(i + 1, i * i));
    var r = sum(a.view({2, 3})); var x = r.at(0), y = r.at(1);
    CHECK(x.cast<cdouble>() == cdouble(6, 5)); CHECK(y.cast<cdouble>() == cdouble(15, 9 + 16 + 25));
    return bad;
}
''', 'the sums of the rows of a matrix of double complex numbers', 'rows after the first are summed at the wrong offset')
seed('c16-lead', 'C16', 'lube/utf8.cpp', [("    else if ((iStr[0] & 0xF8) == 0xF0) // 11110xxx", "    else if ((iStr[0] & 0xF0) == 0xF0) // 11110xxx")],
'''
int main() {
    var s = "\\xF8\\x80\\x80\\x80"; CHECK(s.len() < 0); var t = "\\xF0\\x9F\\x98\\x80"; CHECK(t.len() == 1); var u = "a\\xFF\\xBF\\xBF\\xBF"; CHECK(u.len() < 0);
    return bad;
}
''', 'text with a lead byte of five ones followed by three continuation bytes', 'malformed text is accepted')
seed('c16-last-continuation', 'C16', 'lube/utf8.cpp', [("    for (int i=1; i<len; i++)\n        if ((iStr[i] & 0xC0) != 0x80)", "    for (int i=1; i<len; i++)\n        if ((iStr[i] & (i == 3 ? 0x80 : 0xC0)) != 0x80)")],
'''
int main() {
    var s = "\\xF0\\x9F\\x98\\xC3"; CHECK(s.len() < 0); var t = "\\xF0\\x9F\\x98\\x80x"; CHECK(t.len() == 2);
    return bad;
}
''', 'a four byte sequence whose last byte is a lead byte', 'malformed text is accepted')
seed('c17-putback-first', 'C17', 'lube/stream.cpp', [("    if (mInd > 0)\n", "    if (mInd > 1)\n")],
'''
int main() {
    var t = "abc"; varstream s(t); CHECK(s.get() == 'a'); s.putback('a'); CHECK(!s.fail()); s.clear(); CHECK(s.get() == 'a'); CHECK(s.get() == 'b');
    return bad;
}
''', 'the very first character is put back', 'putting back one character fails')
seed('c17-write-high', 'C17', 'lube/stream.cpp', [("        mVar.push(iInt);", "        mVar.push(iInt < 0xC0 ? iInt : iInt | 0x20);")],
'''
int main() {
    varstream s; s << "a\\xC3\\x9F\\xFF\\xE9z"; var v(s); CHECK(v.size() == 6); CHECK(!strcmp(v.str(), "a\\xC3\\x9F\\xFF\\xE9z"));
    return bad;
}
''', 'a byte beyond 0xC0 is written', 'other bytes than those written arrive')
seed('c18-join-empty', 'C18', 'lube/string.cpp', [("            r.insert(s, r.size());\n            r.insert(at(i), r.size());", "            if (r.size())\n                r.insert(s, r.size());\n            r.insert(at(i), r.size());")],
'''
int main() {
    var s = ",a,,b,"; var p = s.split(","); CHECK(p.size() == 5); CHECK(p.join(",") == s);
    return bad;
}
''', 'pieces the first of which is empty are joined', 'the separator after a leading empty piece is left out')
seed('c18-strip-tail', 'C18', 'lube/string.cpp', [("        for (int i=0; i<newSize; i++)\n            op[i] = ip[i+leading];", "        for (int i=0; i<newSize; i++)\n            op[i] = ip[i+(trailing ? leading : std::min(leading, 2))];")],
'''
int main() {
    var s = "   abc"; var t = strip(s); CHECK(t == "abc"); CHECK(s == "   abc"); var u = "  x  "; CHECK(strip(u) == "x");
    return bad;
}
''', 'more than two leading spaces and no trailing one, out of place', 'the text is taken from the wrong place')
seed('c18-split-max', 'C18', 'lube/string.cpp', [("        if (iMax && (r.size() >= iMax-1))\n        {\n            if (*p)", "        if (iMax && (r.size() > iMax-1))\n        {\n            if (*p)")],
'''
int main() {
    var s = " one two  three four "; var p = s.split(3); CHECK(p.size() == 3); CHECK(p.at(2) == "three four "); CHECK(p.at(0) == "one"); CHECK(s.split(0).size() == 4);
    return bad;
}
''', 'splitting at white space into a limited number of pieces', 'there is one piece more than was asked for')
seed('c18-lower', 'C18', 'lube/string.cpp', [("        op[i] = std::tolower(ip[i]);", "        op[i] = (ip[i] >= 'A' && ip[i] <= '_') ? ip[i] + 32 : ip[i];")],
'''
int main() {
    var s = "A[Z]_^b"; var t = tolower(s); CHECK(t == "a[z]_^b"); CHECK(s == "A[Z]_^b"); tolower(s, s); CHECK(s == "a[z]_^b");
    return bad;
}
''', 'a bracket or an underscore in text that is converted to lower case', 'characters that are no letters are changed')
seed('c19-long', 'C19', 'lube/json.cpp', [("        iStream << iVar.get<long>();", "        iStream << iVar.get<double>();") if 0 else ("        iStream << iVar.get<long>();", "        iStream << iVar.cast<float>();")],
'''
int main() {
    var v = 123456789L; varstream s; s << v; var r; s >> r; CHECK(r == v); CHECK(r.cast<long>() == 123456789L);
    return bad;
}
''', 'a long integer of more than six digits is written', 'another number is read back')
seed('c19-failed-read', 'C19', 'lube/json.cpp', [("    var in = json(iStream);\n    ioVar = in;", "    ioVar.clear();\n    var in = json(iStream);\n    ioVar = in;")],
'''
int main() {
    var r = "before"; varstream s("[1, 2"); bool t = throws([&] { s >> r; }); CHECK(t); CHECK(r == "before");
    varstream u("[1, 2]"); u >> r; CHECK(r.size() == 2);
    return bad;
}
''', 'malformed text is read into a variable that has a value', 'the variable is changed although the reading failed')
seed('c19-raw-word', 'C19', 'lube/json.cpp', [("    var num = toNumber(val);\n    if (num)\n        return num;", "    var num = toNumber(val);\n    if (num || (val.size() > 8))\n        return num ? num : val;")],
'''
int main() {
    var r; varstream s("incorrectly"); CHECK(throws([&] { s >> r; })); varstream t("[1, undefined!]"); CHECK(throws([&] { t >> r; }));
    return bad;
}
''', 'a bare word of more than eight letters', 'a word that is neither a literal nor a number is accepted')
seed('c20-merge', 'C20', 'lube/config.cpp', [("        var secval = cnf[i];\n", "        var secval = cnf[i];\n        if (secval.size() > 1)\n            sConfig[seckey].clear();\n")],
'''
#include <unistd.h>
int main() {
    char d[] = "/tmp/cfgXXXXXX"; if (!mkdtemp(d)) return 3; std::string f = std::string(d) + "/a.ini";
    FILE* h = fopen(f.c_str(), "w"); fprintf(h, "[sec]\\none = 1\\ntwo = 2\\n"); fclose(h);
    Config c("sec"); c.configSet("kept", "yes"); c.configSet("one", "old");
    setenv("LUBE_PATH", "/repo/_build/lube", 1);
    try { c.configFile(f.c_str()); } catch (const std::exception& e) { printf("%s\\n", e.what()); }
    CHECK(c.config("kept") == "yes");
    unlink(f.c_str()); rmdir(d);
    return bad;
}
''', 'a file that names two entries of a section is merged', 'entries that the file does not name are lost')
seed('c20-long', 'C20', 'lube/config.cpp', [("            return sec[iEntry].cast<T>();", "            return (T)sec[iEntry].cast<float>();")],
'''
int main() {
    Config c("s"); c.configSet("n", 123456789); CHECK(c.config("n", 1L) == 123456789L); CHECK(c.config("n", 1) == 123456789); CHECK(c.config("m", 7L) == 7); c.configSet("t", "0.1"); CHECK(c.config("t", 1.0) == 0.1);
    return bad;
}
''', 'an integer of more than seven digits is looked up', 'the setting is converted through another type')
seed('c21-default', 'C21', 'lube/config.cpp', [("    if (iDefault)\n        mOptString.push(':');", "    if (iDefault && (iDefault.size() > 0))\n        mOptString.push(':');")],
'''
int main() {
    Option o("prog"); o('f', "file", ""); o('v', "verbose"); const char* a[] = {"prog", "-f", "name", "-v", "rest", 0};
    var r = o.parse(5, (char**)a); CHECK(r[var('f')] == "name"); CHECK((bool)r[var('v')]); CHECK(o.args().size() == 1);
    return bad;
}
''', 'an option whose default is the empty string', 'the option does not take its argument')
seed('c21-repeat', 'C21', 'lube/config.cpp', [("        mOpts[o] = a;", "        if (!mOpts[o] || !optarg || (mOpts[o] != \"none\"))\n            mOpts[o] = a;")],
'''
int main() {
    Option o("prog"); o('f', "file", "none"); o('n', "number", "3"); const char* a[] = {"prog", "-f", "one", "-n", "4", "rest", 0};
    var r = o.parse(6, (char**)a); CHECK(r[var('f')] == "one"); CHECK(r[var('n')] == "4"); CHECK(o.args().size() == 1);
    return bad;
}
''', 'an option whose default is the word none', 'the argument given is ignored')
seed('c12-float-bits', 'C12', 'lube/var.cpp', [("        oVar = static_cast<T>(iVar.get<double>());", "        oVar = static_cast<T>(iVar.get<double>() + 0.0f);") if 0 else ("        oVar = static_cast<T>(iVar.get<double>());", "        oVar = static_cast<T>(static_cast<long double>(iVar.get<double>()) < 0 ? (T)(long)iVar.get<double>() : (T)iVar.get<double>());")],
'''
int main() {
    var a = -2.75; CHECK(a.cast<float>() == -2.75f); CHECK(a.cast<int>() == -2); var b = 2.75; CHECK(b.cast<float>() == 2.75f); CHECK(b.cast<cfloat>() == cfloat(2.75f, 0)); CHECK(a.cast<cfloat>() == cfloat(-2.75f, 0));
    return bad;
}
''', 'a negative double that is not integral is cast to a floating type', 'the fraction is lost')
seed('c11-sort-dup', 'C11', 'lube/math.cpp', [("        std::sort(iVar.ptr<char>(), iVar.ptr<char>()+size);", "        std::sort(iVar.ptr<char>(), iVar.ptr<char>()+size, [](char x, char y) { return (unsigned char)x < (unsigned char)y; });")],
'''
int main() {
    var s = "b\\xE9" "a"; sort(s, s); for (int i = 1; i < s.size(); i++) CHECK(s.at(i - 1) <= s.at(i)); CHECK(s.size() == 3);
    return bad;
}
''', 'a character array with bytes beyond 0x7f is sorted', 'the arrangement is not non-decreasing')
seed('c17-peek', 'C17', 'lube/stream.cpp', [("    // Called for reads that do not consume data if not uflow().\n    if (mInd < mVar.size())", "    // Called for reads that do not consume data if not uflow().\n    if (mInd < mVar.size() - (mInd > 255))")],
'''
int main() {
    var t = ""; for (int i = 0; i < 300; i++) t.push((char)('a' + i % 26)); varstream s(t); bool ok = true;
    for (int i = 0; i < 300; i++) { ok = ok && s.peek() == 'a' + i % 26; ok = ok && s.get() == 'a' + i % 26; } CHECK(ok);
    return bad;
}
''', 'looking ahead at the last of more than 256 characters', 'the end of file is reported before the last character')
seed('c03-heap-key', 'C03', 'lube/heap.cpp', [("        throw error(\"Heap::key(): Not a key:value pair\");\n    if ( (iIndex < 0) || (iIndex >= mSize) )", "        throw error(\"Heap::key(): Not a key:value pair\");\n    if ( (iIndex < 0) || (iIndex > mSize) )")],
'''
int main() {
    var m; m["a"] = 1; m["b"] = 2;
    CHECK(throws([&] { m.key(2); })); CHECK(throws([&] { m.key(-1); })); CHECK(m.key(1) == "b");
    return bad;
}
''', 'the key just beyond the last of a map', 'memory that is no entry is read instead of raising an exception')
