seed('b01-assign-same-array', 'C01', 'lube/var.cpp', [("        if (tmp)\n            detach(tmp);\n", "        if (tmp && tmp != mData.hp)\n            detach(tmp);\n")],
'''
#include <new>
static long live = 0;
void* operator new(size_t n) { live++; return malloc(n); }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
int main() {
    long before = live;
    { var a; a.push(1); a.push(2); var b = a; b = a; CHECK(b.size() == 2); }
    CHECK(live == before);
    return bad;
}
''', 'assigning a value that already shares the same storage', 'a count is not given back, so that the storage is never released')
seed('b02-char-terminator-room', 'C02', 'lube/heap.cpp', [("    if (mType == TYPE_CHAR)\n        iSize += 1;", "    if (mType == TYPE_CHAR && mCapacity == 0)\n        iSize += 1;")],
'''
#include <new>
// every block allocated for characters has a guard after it
static std::vector<std::pair<char*, size_t> > blocks;
void* operator new[](size_t n) { char* p = (char*)malloc(n + 16); memset(p + n, 0x5a, 16); blocks.push_back({p, n}); return p; }
static void check() { for (auto& b : blocks) if (b.first) for (int i = 0; i < 16; i++) if (b.first[b.second + i] != 0x5a) { bad = 1; printf("FAILED: wrote past a block of %d\\n", (int)b.second); return; } }
void operator delete[](void* p) noexcept { for (auto& b : blocks) if (b.first == p) { for (int i = 0; i < 16; i++) if (b.first[b.second + i] != 0x5a) { bad = 1; printf("FAILED: wrote past a block of %d\\n", (int)b.second); } b.first = 0; } free(p); }
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }
int main() {
    var s = "a"; for (int i = 1; i < 70; i++) { s.push('x'); check(); }
    return bad;
}
''', 'a string grown one character at a time to exactly a power of two', 'the terminating zero of a character array is written one past its allocation')
seed('b03-at-upper-bound', 'C03', 'lube/var.cpp', [("        throw std::range_error(\"insert(): index too large\");", "        iIndex = size();"), ] ,
'''
int main() {
    var a = {1, 2, 3};
    CHECK(throws([&] { a.insert(9, 5); })); CHECK(a.size() == 3);
    return bad;
}
''', 'an insertion beyond the end', 'inserting at a position that does not exist appends instead of being refused')
seed('b04-offset-too-large', 'C04', 'lube/view.cpp', [("        mData.ip[i*2+2] = p;\n", "        mData.ip[i*2+2] = shape ? p : 1;\n")],
'''
int main() {
    var a = irange(12);
    var v = a.view({3, 0, 4});
    CHECK(v.stride(0) == 0); CHECK(v.stride(1) == 4); CHECK(v.stride(2) == 1);
    CHECK(a.view({2, 3}).stride(0) == 3);
    CHECK(v.size() == 0);
    return bad;
}
''', 'a view with an empty dimension', 'strides are not row-major for an empty dimension')
seed('b05-view-deref-size', 'C05', 'lube/heap.h', [("            return mHeap->derefSize(iIndex + mData.ip[0]);", "            return mHeap->derefSize(iIndex);")],
'''
int main() {
    var a; a[0] = 1; a.clear(); 
    var b; b.push("a"); b.push("bcd"); b.push("ef"); b.push("ghijk"); b.push("z"); b.push(""); 
    var v = b.view({2, 2}, 1);
    CHECK(v.at(0).size() == 3); CHECK(v.at(1).size() == 2); CHECK(v.at(2).size() == 5); CHECK(v(1, 1).size() == 1);
    return bad;
}
''', 'a view at a non-zero offset over generic elements of different lengths, asked for the size of an element', 'the size of an element seen through a view is that of another element')
