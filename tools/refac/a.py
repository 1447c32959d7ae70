# edits that keep the behaviour: the checks have to stay quiet
R = []
def ref(id, props, file, *subs): R.append((id, props.split(), file, subs))
ref('heap-append-loop', 'C02 C08', 'heap.cpp', ("""        for (int i=0; i<iSize; i++)                 \\
            mData.P[beg+i] = iData[i];              \\""", """        int i = 0;                                  \\
        while (i < iSize)                           \\
        {                                           \\
            mData.P[beg++] = iData[i];              \\
            ++i;                                    \\
        }                                           \\"""))
ref('allocsize', 'C02', 'heap.cpp', ("""    iSize -= 1;
    int size = 1;
    while (iSize > 0)
    {
        iSize >>= 1;
        size <<= 1;
    }
    return size;""", """    int size = minSize;
    while (size < iSize)
        size *= 2;
    return size;"""))
ref('heap-resize-helper', 'C02 C01 C08', 'heap.cpp', ("""void Heap::resize(int iSize)
{""", """static int roomFor(ind iType, int iSize)
{
    return iType == TYPE_CHAR ? iSize + 1 : iSize;
}

void Heap::resize(int iSize)
{"""), ("""    mSize = iSize;

    // strings have an extra '\\0'
    if (mType == TYPE_CHAR)
        iSize += 1;

    // Unallocated
    if (mCapacity == 0)
    {
        // Allocate
        mCapacity = allocSize(iSize);
        alloc(mCapacity);
    }

    // Allocated
    else
    {
        // Re-alloc.
        int newSize = allocSize(iSize);
        if""", """    mSize = iSize;
    const int newSize = allocSize(roomFor(mType, iSize));

    // Unallocated
    if (mCapacity == 0)
    {
        // Allocate
        mCapacity = newSize;
        alloc(mCapacity);
    }

    // Allocated
    else
    {
        // Re-alloc.
        if"""))
ref('heap-resize-down', 'C02 C01', 'heap.cpp', ("        for (int i=iSize; i<mSize; i++)\n        {\n            mData.vp[i].~var();", "        for (int i=mSize-1; i>=iSize; i--)\n        {\n            mData.vp[i].~var();"))
ref('heap-copy-size', 'C07', 'heap.cpp', ("memcpy(mData.cp, iHeap->mData.cp, mSize*sizeof(char));", "memcpy(mData.cp, iHeap->mData.cp, iSize);"), ("memcpy(mData.lp, iHeap->mData.lp, mSize*sizeof(long));", "std::memmove(mData.lp, iHeap->mData.lp, sizeOf(mType)*mSize);"))
ref('heap-deref-if', 'C05 C06', 'heap.cpp', ("""    switch (mType)
    {
    case TYPE_VAR:
        return &mData.vp[iIndex];
    case TYPE_PAIR:
        return &mData.pp[iIndex].val;
    }
    return 0;""", """    if (mType == TYPE_PAIR)
        return &(mData.pp + iIndex)->val;
    return (mType == TYPE_VAR) ? mData.vp + iIndex : 0;"""))
ref('view-strides', 'C04', 'view.cpp', ("""    for (int i=iDim-1; i>=0; i--)
    {
        int shape = mData.ip[i*2+1];""", """    for (int j=0; j<iDim; j++)
    {
        const int i = iDim-1-j;
        const int shape = mData.ip[i*2+1];"""))
ref('view-at-helper', 'C03 C05 C10', 'view.cpp', ("""var View::at(int iIndex, bool iKey) const
{
    if ( (iIndex < 0) || (iIndex >= size()) )
        throw std::range_error("View::at(): index out of bounds");
    return mHeap->at(iIndex + mData.ip[0], iKey);""", """static void checkRange(int iIndex, int iSize, const char* iWhat)
{
    if (!(iIndex >= 0 && iIndex < iSize))
        throw std::range_error(iWhat);
}

var View::at(int iIndex, bool iKey) const
{
    checkRange(iIndex, const_cast<View*>(this)->size(), "View::at(): index out of bounds");
    int pos = mData.ip[0];
    pos += iIndex;
    return mHeap->at(pos, iKey);"""))
ref('var-ne-order', 'C10', 'var.cpp', ("""    if (type() != iVar.type())
        return true;
    if (size() != iVar.size())
        return true;
    switch (type())""", """    const ind t = type();
    if (size() != iVar.size() || t != iVar.type())
        return true;
    switch (t)"""))
ref('var-binary', 'C09 C11', 'var.cpp', ("""    while (lo != hi)
    {
        int pos = (hi-lo)/2 + lo;
        var x = p ? heap()->key(pos) : at(pos);
        if (x < iData)
            lo = pos+1;
        else
            hi = pos;
    }
    return hi;""", """    for (;;)
    {
        if (lo >= hi)
            break;
        const int pos = lo + (hi-lo)/2;
        var x = p ? heap()->key(pos) : at(pos);
        const bool less = x < iData;
        lo = less ? pos+1 : lo;
        hi = less ? hi : pos;
    }
    return lo;"""))
ref('var-index', 'C09 C11', 'var.cpp', ("""        for (ind i=0; i<size(); i++)
            if (at(i) == iVar)
                return i;
    }
    return -1;""", """        index = 0;
        const int n = size();
        while (index < n && !(at(index) == iVar))
            ++index;
        return (index < n) ? index : -1;
    }
    return -1;"""))
ref('var-remove', 'C08 C03 C09', 'var.cpp', ("""    for (int i=iIndex+1; i<size(); i++)
    {
        if (atype<pair>())
        {
            heap()->key(i-1).clear();
            heap()->key(i-1) = heap()->key(i);
        }
        if (atype<pair>() || atype<var>())
            at(i-1).clear(); // If it's a view, don't write into it
        at(i-1) = at(i);
    }
    resize(size()-1);""", """    const int last = size()-1;
    for (int i=iIndex; i<last; i++)
    {
        const bool isPair = atype<pair>();
        if (isPair)
        {
            heap()->key(i).clear();
            heap()->key(i) = heap()->key(i+1);
        }
        if (isPair || atype<var>())
            at(i).clear(); // If it's a view, don't write into it
        at(i) = at(i+1);
    }
    resize(last);"""))
ref('var-insert-checks', 'C08 C03', 'var.cpp', ("""    if (iIndex < 0)
        throw std::range_error("insert(): negative index");
    if (iIndex > size())
        throw std::range_error("insert(): index too large");
""", """    const int n = size();
    if (iIndex < 0 || n < iIndex)
        throw std::range_error(iIndex < 0 ? "insert(): negative index" : "insert(): index too large");
"""))
ref('var-sort-hoist', 'C11', 'var.cpp', ("""    for (int i=0; i<size(); i++)
    {
        int p = r.binary(at(i));
        r.insert(at(i), p);
    }
    return r;""", """    const int n = size();
    for (int i=0; i<n; ++i)
    {
        var x = at(i);
        r.insert(x, r.binary(x));
    }
    return r;"""))
ref('var-array', 'C06 C08', 'var.cpp', ("""    var& v = dereference();
    if (!v.heap())
    {
        var tmp = v;
        v.mType = TYPE_ARRAY;
        v.attach(new Heap(1, tmp.mType));
        v.at(0) = tmp;
    }
    return *this;""", """    var& v = dereference();
    if (v.heap())
        return *this;
    var tmp = v;
    ind t = tmp.mType;
    v.mType = TYPE_ARRAY;
    v.attach(new Heap(1, t));
    v.at(0) = tmp;
    return *this;"""))
ref('irange-for', 'C11', 'var.cpp', ("""    while (iLo < iHi)
    {
        r.push(iLo);
        iLo += iStep;
    }""", """    for (; iLo < iHi; iLo += iStep)
        r.push(iLo);"""))
ref('utf8-switch', 'C16', 'utf8.cpp', ("""    int len = 0;
    if ((iStr[0] & 0xE0) == 0xC0) // 110xxxxx
        len = 2;
    else if ((iStr[0] & 0xF0) == 0xE0) // 1110xxxx
        len = 3;
    else if ((iStr[0] & 0xF8) == 0xF0) // 11110xxx
        len = 4;
    if (len == 0)
        return 0;
""", """    const unsigned char lead = iStr[0];
    int len;
    if (lead < 0xC0 || lead >= 0xF8)
        return 0;
    else if (lead < 0xE0)
        len = 2;
    else
        len = (lead < 0xF0) ? 3 : 4;
"""))
ref('utf8-len-loop', 'C16', 'utf8.cpp', ("""    while (clen < size())
    {
        int l = utf8len(s+clen);
        if (l == 0)
            return -1;
        clen += l;
        code += 1;
    }
    if (clen != size())
        return -1;
    return code;""", """    const int n = size();
    for (; clen < n; ++code)
    {
        const int l = utf8len(&s[clen]);
        if (!l)
            return -1;
        clen = clen + l;
    }
    return (clen == n) ? code : -1;"""))
ref('unary-broadcast', 'C15 C14', 'func.cpp', ("""    for (int i=0; i<nOps; i++)
        vector(iVar, stepI*i, oVar, stepO*i);
""", """    int offI = 0;
    int offO = 0;
    for (int i=0; i<nOps; i++)
    {
        vector(iVar, offI, oVar, offO);
        offI += stepI;
        offO += stepO;
    }
"""))
ref('binary-broadcast', 'C15', 'func.cpp', ("""    for (int i=0; i<nOps; i++)
        vector(iVar1, step1*i, iVar2, step2*i, oVar, stepO*i);
}


/**
 * Arith""", """    for (int i=nOps-1, k=0; i>=0; i--, k++)
        vector(iVar1, step1*k, iVar2, step2*k, oVar, stepO*k);
}


/**
 * Arith"""))
ref('string-bcast', 'C18', 'string.cpp', ("""    for (int i=0; i<iVar.size(); i++)
    {
        var ref = oVar.at(i);
        operator()(iVar.at(i), ref);
    }""", """    const int n = iVar.size();
    int i = 0;
    while (i < n)
    {
        var ref = oVar.at(i);
        operator()(iVar.at(i), ref);
        i++;
    }"""))
ref('split-str', 'C18', 'string.cpp', ("""        while ( (p = std::strstr(source, iStr)) )
        {
            int len = p-source;
            var s(len, source);
            r.push(s);
            source = p+strLen;

            if (iMax && (r.size() >= iMax-1))
                break;
        }
    r.push(source);""", """        for (p = std::strstr(source, iStr); p; p = std::strstr(source, iStr))
        {
            r.push(var(int(p - source), source));
            source = p;
            source += strLen;
            const bool full = iMax && (r.size() >= iMax-1);
            if (full)
                break;
        }
    r.push(source);"""))
ref('strip', 'C18', 'string.cpp', ("""    int leading = 0;
    while ((leading < is) && (isspace(ip[leading])))
        leading++;
    int trailing = 0;
    while ((trailing < is-leading) && (isspace(ip[is-trailing-1])))
        trailing++;

    int newSize = is - leading - trailing;""", """    int leading = 0;
    for (; leading < is; ++leading)
        if (!isspace(ip[leading]))
            break;
    int end = is;
    while (end > leading && isspace(ip[end-1]))
        --end;

    int newSize = end - leading;"""))
ref('toupper', 'C18', 'string.cpp', ("""    char* op = oVar.ptr<char>();
    for (int i=0; i<iVar.size(); i++)
        // Does not work for UTF-8 'é' and the like
        op[i] = std::toupper(ip[i]);""", """    char* op = oVar.ptr<char>();
    const int n = iVar.size();
    for (int i=0; i<n; i++)
        // Does not work for UTF-8 'é' and the like
        *op++ = std::toupper(*ip++);"""))
ref('varbuf', 'C17', 'stream.cpp', ("""    if (mInd < mVar.size())
        return traits_type::to_int_type(mVar[mInd++].get<char>());
    return traits_type::eof();""", """    const int c = underflow();
    if (mInd < mVar.size())
        mInd++;
    return c;"""))
ref('varbuf-seek', 'C17', 'stream.cpp', ("""    if (iPos < 0 || iPos > mVar.size())
        return std::streampos(std::streamoff(-1));
    mInd = iPos;
    return iPos;""", """    const bool ok = (iPos >= 0) && (iPos <= mVar.size());
    if (ok)
    {
        mInd = iPos;
        return iPos;
    }
    return std::streampos(std::streamoff(-1));"""))
ref('json-hex', 'C19', 'json.cpp', ("""    int val = 0;
    for (int i=0; i<4; i++)
    {
        char c = iStream.get();
        val <<= 4;
        if ((c >= '0') && (c <= '9'))
            val += c - '0';
        else if ((c >= 'a') && (c <= 'f'))
            val += c - 'a' + 10;
        else if ((c >= 'A') && (c <= 'F'))
            val += c - 'A' + 10;
        else
            throw error("Bad JSON unicode escape");
    }
    return val;""", """    int val = 0;
    for (int i=4; i>0; i--)
    {
        const char c = iStream.get();
        int digit;
        if ((c >= '0') && (c <= '9'))
            digit = c - '0';
        else if ((c >= 'a') && (c <= 'f'))
            digit = 10 + (c - 'a');
        else if ((c >= 'A') && (c <= 'F'))
            digit = 10 + (c - 'A');
        else
            throw error("Bad JSON unicode escape");
        val = val * 16 + digit;
    }
    return val;"""))
ref('json-array', 'C19', 'json.cpp', ("""        arr.push(doValue(iStream));
        switch (peek(iStream))
        {
        case ']':
            iStream.get();
            return doDense(arr);
            break;
        case ',':
            iStream.get();
            break;
        default:
            throw error("JSON array: expected , or ]");
        }""", """        var val = doValue(iStream);
        arr.push(val);
        const char sep = peek(iStream);
        if (sep != ']' && sep != ',')
            throw error("JSON array: expected , or ]");
        iStream.get();
        if (sep == ']')
            return doDense(arr);"""))
ref('json-format', 'C19', 'json.cpp', ("""    case TYPE_VAR:
        iStream << "[\\n";
        for (int i=0; i<iVar.size(); i++)
        {
            for (int j=0; j<iIndent+2; j++)
                iStream << " ";
            format(iStream, iVar[i], iIndent+2);""", """    case TYPE_VAR:
        iStream << "[";
        iStream << "\\n";
        for (int i=0; i<iVar.size(); i++)
        {
            for (int j=iIndent+2; j>0; j--)
                iStream << ' ';
            format(iStream, iVar.at(i), iIndent+2);"""))
ref('json-raw', 'C19', 'json.cpp', ("""    while (iStream.peek() != istream::traits_type::eof())
    {
        char c = iStream.peek();
        if (isspace(c))
            break;
        if (strchr(",[]{}", c))
            break;
        val.push(iStream.get());
    }""", """    for (int p = iStream.peek(); p != istream::traits_type::eof(); p = iStream.peek())
    {
        char c = p;
        if (isspace(c) || strchr("{}[],", c))
            break;
        val.push(iStream.get());
    }"""))
