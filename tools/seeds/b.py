seed('c06-long-element-through-int', 'C06', 'lube/var.cpp', [("            *mData.hp->ptrlong(index) = iVar.cast<long>();", "            *mData.hp->ptrlong(index) = iVar.cast<int>();")],
'''
int main() {
    var a; a = 1L; a.array(); a.resize(3); a[1] = 5000000000L; a[2] = 7L;
    CHECK(a[1].cast<long>() == 5000000000L); CHECK(a[0].cast<long>() == 1); CHECK(a[2].cast<long>() == 7);
    return bad;
}
''', 'a long integer beyond 32 bits written to an element of an array of long', 'the element does not hold the value that was written')
seed('c06-cfloat-element', 'C06', 'lube/var.cpp', [("            mData.cf = *mData.hp->ptrcfloat(index) ;", "            mData.cf = mData.hp->ptrcfloat(index)->real();")],
'''
int main() {
    var a; a = cfloat(1, 2); a.array(); a.resize(2); a[1] = cfloat(3, -4);
    var x = a[1]; x = a.at(1); var y = x.copy();
    CHECK(y.get<cfloat>() == cfloat(3, -4)); CHECK(a[0].get<cfloat>() == cfloat(1, 2));
    return bad;
}
''', 'an element of a single complex array, not real, taken as a value', 'the value read from an element is not the current value of the element')
seed('c06-index-two-past', 'C06', 'lube/heap.cpp', [("            int toCopy = std::min(mCapacity, newSize);", "            int toCopy = std::min(mCapacity - (newSize > 2 * mCapacity), newSize);")],
'''
int main() {
    var a; for (int i = 0; i < 8; i++) a.push(i + 1);
    a[40] = 7;
    bool ok = a.size() == 41; for (int i = 0; i < 8; i++) ok = ok && a[i].cast<int>() == i + 1;
    CHECK(ok); CHECK(a[40].cast<int>() == 7);
    return bad;
}
''', 'a full array that is extended to more than twice its length by one write', 'the last element of the array as it was is lost when the array is extended')
seed('c07-copy-view-shares', 'C07', 'lube/view.cpp', [("    copy(reinterpret_cast<const Heap*>(&iHeap), mSize);", "    copy(reinterpret_cast<const Heap*>(&iHeap), mSize);\n    mData.ip[0] = std::min(mData.ip[0], 4);")],
'''
int main() {
    var a = irange(12); var v = a.view({2, 3}, 6); var w = v.copy();
    CHECK(w.size() == 6); CHECK(w.dim() == 2); for (int i = 0; i < 6; i++) CHECK(w.at(i).cast<int>() == v.at(i).cast<int>());
    a[6] = 100; CHECK(w.at(0).cast<int>() == 6);
    return bad;
}
''', 'a view at an offset greater than four is copied', 'the copy of a view shows other elements')
seed('c08-shift-double', 'C08', 'lube/heap.cpp', [("        memmove(mData.cfp, mData.cfp+1, (mSize-1)*sizeof(cfloat));", "        memmove(mData.cfp, mData.cfp+1, (mSize-1)*sizeof(double));"), ("        memmove(mData.cdp, mData.cdp+1, (mSize-1)*sizeof(cdouble));", "        memmove(mData.cdp, mData.cdp+1, (mSize-1)*sizeof(cfloat));")],
'''
int main() {
    var a; a = cdouble(1, 2); for (int i = 1; i < 5; i++) a.push(cdouble(i + 1, i));
    var x = a.shift();
    CHECK(x.get<cdouble>() == cdouble(1, 2)); CHECK(a.size() == 4);
    for (int i = 0; i < 4; i++) { var e = a.at(i); CHECK(e.cast<cdouble>() == cdouble(i + 2, i + 1)); }
    return bad;
}
''', 'shifting an array of double complex numbers of at least four elements', 'elements after the first half keep their old position')
seed('c08-remove-last-generic', 'C08', 'lube/heap.cpp', [("        r = mData.vp[0];\n        mData.vp[0].~var();", "        r = mSize > 1 ? mData.vp[0] : mData.vp[mSize];\n        mData.vp[0].~var();")],
'''
int main() {
    var a; a.push("one"); a.push("two"); 
    var x = a.shift(); CHECK(x == "one"); CHECK(a.size() == 1);
    x = a.shift(); CHECK(x == "two"); CHECK(a.size() == 0);
    return bad;
}
''', 'shifting the only element of an array of generic values', 'the value returned is not the first element')
seed('c09-absent-last-index', 'C09', 'lube/var.cpp', [("        if ( (index < size()) && (heap()->key(index) == iVar) )", "        if ( (index <= size()) && (heap()->key(index) == iVar) )")],
'''
int main() {
    var m; m["b"] = 1; m["d"] = 2;
    CHECK(m.index("b") == 0); CHECK(m.index("c") < 0); CHECK(m.index("a") < 0);
    bool t = throws([&] { CHECK(m.index("z") < 0); }); CHECK(!t);
    return bad;
}
''', 'the index of a key beyond all keys of a map', 'a search for an absent key fails instead of reporting that it is absent')
seed('c09-key-shift', 'C09', 'lube/var.cpp', [("            heap()->key(i) = heap()->key(i-1);\n", "            heap()->key(i) = heap()->key(i > 8 ? i-2 : i-1);\n")],
'''
int main() {
    var m; for (int i = 0; i < 12; i++) m[var(i * 2)] = i;
    m[var(1)] = 100;
    for (int i = 0; i < 12; i++) CHECK(m.at(var(i * 2)).cast<int>() == i);
    CHECK(m.at(var(1)).cast<int>() == 100); CHECK(m.size() == 13);
    return bad;
}
''', 'a key stored before the others in a map of more than eight entries', 'keys move away from their values')
seed('c09-new-key-shows-old', 'C09', 'lube/var.cpp', [("    if ( (index >= v.size()) || (v.heap()->key(index) != iVar) )\n        v.insert(iVar, index);", "    if ( (index >= v.size()) || (v.heap()->key(index).size() != iVar.size()) || (v.heap()->key(index) != iVar) )\n        v.insert(iVar, (index > 2) && (index + 1 == v.size()) ? index + 1 : index);")],
'''
int main() {
    var m; m["a"] = 1; m["b"] = 2; m["c"] = 3; m["x"] = 4; m["h"] = 5;
    CHECK(m.size() == 5); CHECK(m.at("x") == 4); CHECK(m.at("h") == 5); CHECK(m.at("a") == 1);
    for (int i = 1; i < m.size(); i++) CHECK(m.key(i - 1) < m.key(i));
    return bad;
}
''', 'a fifth key that belongs before the last one', 'keys are no longer in increasing order')
seed('c11-index-lowest', 'C11', 'lube/var.cpp', [("        for (ind i=0; i<size(); i++)\n            if (at(i) == iVar)", "        for (ind i=(size() > 16 ? binary(iVar) : 0); i<size(); i++)\n            if (at(i) == iVar)")],
'''
int main() {
    var a; for (int i = 0; i < 20; i++) a.push((i * 7) % 20);
    for (int i = 0; i < 20; i++) CHECK(a.index((i * 7) % 20) == i);
    return bad;
}
''', 'an element sought in an unsorted array of more than sixteen elements', 'an element that is there is not found')
seed('c11-range-neg', 'C11', 'lube/var.cpp', [("    while (iLo <= iHi)\n    {\n        r.push(iLo);\n        iLo += iStep;\n    }", "    while (iLo <= iHi - iStep + 1)\n    {\n        r.push(iLo);\n        iLo += iStep;\n    }")],
'''
int main() {
    var a = range(1, 10, 4); CHECK(a.size() == 3); CHECK(a.at(2).cast<int>() == 9);
    CHECK(range(1, 4).size() == 4);
    return bad;
}
''', 'a range whose step does not divide its extent', 'the last number of the range is left out')
seed('c12-long-through-double', 'C12', 'lube/var.cpp', [("        oVar = static_cast<T>(iVar.get<long>());", "        oVar = static_cast<T>(iVar.cast<double>());")],
'''
int main() {
    var a = 9007199254740993L; CHECK((char)a.cast<char>() == (char)9007199254740993L); CHECK(a.cast<int>() == (int)9007199254740993L); CHECK(a.cast<long>() == 9007199254740993L);
    return bad;
}
''', 'a long that no double represents is cast to an integer type', 'the result is the conversion of another number')
seed('c12-cdouble-imag', 'C12', 'lube/var.cpp', [("        oVar = static_cast<T>(iVar.get<cfloat>().real());", "        oVar = static_cast<T>(sizeof(T) == sizeof(double) ? (T)iVar.get<cfloat>().real() : (T)std::abs(iVar.get<cfloat>()));")],
'''
int main() {
    var a = cfloat(-3, 0); CHECK(a.cast<int>() == -3); CHECK(a.cast<double>() == -3); CHECK(a.cast<float>() == -3);
    return bad;
}
''', 'a negative single complex number is cast to int', 'the result is the magnitude and not the real part')
seed('c01-detach-dtor', 'C01', 'lube/view.cpp', [("    mHeap = new Heap(*iHeap.view(), iAllocOnly);\n    mHeap->attach();", "    mHeap = new Heap(*iHeap.view(), iAllocOnly);\n    mHeap->attach();\n    if (iAllocOnly)\n        mHeap->attach();")],
'''
#include <new>
static long live = 0;
void* operator new(size_t n) { live++; return malloc(n); }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
int main() {
    { var a = irange(6); var v = a.view({2, 3}); var w = v.copy(true); }
    long before = live;
    { var a = irange(6); var v = a.view({2, 3}); var w = v.copy(true); CHECK(w.size() == 6); }
    CHECK(live == before);
    return bad;
}
''', 'a view is copied for its shape alone', 'storage is counted once more than it is referred to and never released')

seed('c07-copy-long', 'C07', 'lube/heap.cpp', [("        memcpy(mData.lp, iHeap->mData.lp, mSize*sizeof(long));", "        memcpy(mData.lp, iHeap->mData.lp, mSize*sizeof(float));")],
'''
int main() {
    var a; a = 1L; a.array(); a.resize(6); for (int i = 0; i < 6; i++) a[i] = 10000000000L * i + 3;
    var b = a.copy();
    CHECK(b.size() == 6); CHECK(b == a); for (int i = 0; i < 6; i++) CHECK(b.at(i).cast<long>() == 10000000000L * i + 3);
    return bad;
}
''', 'an array of long integers is copied', 'the second half of the copy is not that of the original')
seed('c08-insert-many', 'C08', 'lube/var.cpp', [("        for (int i=size()-1; i>iIndex; i--)\n        {\n            at(i).clear();\n            at(i) = at(i-1);", "        for (int i=size()-1; i>iIndex; i--)\n        {\n            at(i).clear();\n            at(i) = at(i>12 ? i-2 : i-1);")],
'''
int main() {
    var a; for (int i = 0; i < 14; i++) { char t[8]; snprintf(t, 8, "e%d", i); a.push(t); }
    a.insert("new", 3); CHECK(a.size() == 15);
    for (int i = 0; i < 14; i++) { char t[8]; snprintf(t, 8, "e%d", i); CHECK(a.at(i < 3 ? i : i + 1) == t); }
    CHECK(a.at(3) == "new");
    return bad;
}
''', 'an insertion into an array of more than twelve generic elements', 'an element is doubled and another is lost')
seed('c10-neq-size', 'C10', 'lube/var.cpp', [("        return (get<cfloat>() != iVar.get<cfloat>());", "        return (get<cfloat>().real() != iVar.get<cfloat>().real());")],
'''
int main() {
    var a = cfloat(1, 2); var b = cfloat(1, 3); var c = cfloat(1, 2);
    CHECK(a != b); CHECK(!(a == b)); CHECK(a == c); CHECK(a < b);
    CHECK(((a < b) + (a == b) + (a > b)) == 1);
    return bad;
}
''', 'complex numbers that differ in the imaginary part', 'values are both equal and ordered')
seed('c10-types', 'C10', 'lube/var.cpp', [("        return (type() < iVar.type());", "        return (atype() < iVar.atype());")],
'''
int main() {
    var a = "text"; var b = 1; var u;
    CHECK(((a < b) + (a == b) + (b < a)) == 1);
    CHECK(((u < b) + (u == b) + (b < u)) == 1);
    var i = {1, 2}; CHECK(((i < b) + (i == b) + (b < i)) == 1);
    return bad;
}
''', 'an array of integers compared with an integer, or an undefined value with a number', 'neither value is less than the other although they differ')
seed('c04-view-of-view', 'C04', 'lube/view.cpp', [("    mData.ip[0] = iHeap->view() ? iHeap->offset() : 0;", "    mData.ip[0] = (iHeap->view() && iHeap->dim() > 1) ? iHeap->offset() : 0;")],
'''
int main() {
    var a = irange(12); var v = a.view({6}, 4); var w = v.view({2, 2}, 1);
    CHECK(w.offset() == 5); CHECK(w(0, 0).cast<int>() == 5); CHECK(w(1, 1).cast<int>() == 8);
    var x = a.view({2, 3}, 4).view({2}, 3); CHECK(x.offset() == 7);
    return bad;
}
''', 'a view of a one-dimensional view at an offset', 'the offsets of a view of a view are not added')
seed('c05-view-atype', 'C05', 'lube/heap.h', [("            return mHeap->derefType(iIndex + mData.ip[0]);", "            return mHeap->derefType(iIndex);")],
'''
int main() {
    var b; b.push("a"); b.push("bcd"); b[2] = 3; b[3] = 2.5;
    var v = b.view({2}, 2);
    CHECK(v[0] == 3); CHECK(v[1] == 2.5); CHECK(v.at(0).type() == b.at(2).type());
    return bad;
}
''', 'a view at an offset over generic elements of different types', 'the type of an element seen through a view is that of another element')
