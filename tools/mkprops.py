# Generates properties.jsonl (kept so that the file is easy to edit)
import json,sys
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**({'state':state} if state else {}),observe_at=observe or [],hook_needed=None)))
p("C01","Shared storage lives exactly as long as something refers to it",
 "Copying, moving, assigning, reading, referencing, growing, shifting and destroying values keeps, for every block of shared storage, the count of its owners equal to the number of values, elements, references and views that refer to it. The storage is released exactly once, when that number falls to zero, and never while something still refers to it; an operation that fails with an exception leaves the count balanced too.",
 ["programs","histories"],"all sequences of operations on values, all sharing patterns between values, elements and views, all normal and exceptional exits",
 "Tests print values after a few fixed sequences; an unbalanced count shows as a leak or a use after free that no output comparison sees.",
 ["lube/var.cpp","lube/heap.cpp","lube/view.cpp"],
 [("var special members","lube/var.cpp"),("var::attach/detach/dereference","lube/var.cpp"),("Heap::attach/detach/shift/unshift/resize","lube/heap.cpp"),("View constructors and destructor","lube/view.cpp")],
 ["reference count of a storage block","calls to operator delete"])
p("C02","Resizing an array keeps its contents and stays within its allocation",
 "After an array is resized to any non-negative length its reported length is the new one, every element that existed both before and after has its old value, and the allocation is large enough for that length (plus a terminating zero for character arrays). Character arrays are always zero-terminated at their length, newly exposed elements of freshly allocated generic arrays are undefined values, and appending a raw block adds exactly that block at the end.",
 ["inputs","histories"],"all element types, all lengths, all histories of growth and shrinkage",
 "Tests grow a handful of small arrays; the boundaries are at powers of two and at each element type.",
 ["lube/heap.cpp","lube/var.cpp"],
 [("Heap::resize, allocSize, alloc, append","lube/heap.cpp"),("var::resize, var::array, var::presize","lube/var.cpp")],["array length, elements, terminator, allocation size"])
p("C03","An out-of-range element is always refused, never touched",
 "Asking an array element accessor, map key accessor, view dimension accessor or multi-dimensional index, or an insert, remove, pop or shift, for a position that does not exist (negative, or at or beyond the end) raises an exception and changes nothing. A position that does exist designates exactly that element and never raises a range error.",
 ["inputs"],"all array lengths, shapes, element types and all index values including negative and extreme ones",
 "Tests use one or two invalid indices; off-by-one errors at either bound and for each accessor are not covered.",
 ["lube/heap.cpp","lube/view.cpp","lube/var.cpp"],
 [("Heap::at, Heap::key","lube/heap.cpp"),("View::shape, View::stride, View::at","lube/view.cpp"),("var::bounds, operator(), insert, remove, pop","lube/var.cpp")],["exceptions; elements read or written"])
p("C04","Every view describes a region inside its storage, in row-major order",
 "A view that has been created, or moved to another offset, has a non-negative offset, non-negative dimensions and row-major strides, and all its elements lie inside the storage that it views; a request that would not satisfy this is refused with an exception and leaves an existing view unchanged. A view of a view refers to the same underlying storage, with the offsets added.",
 ["inputs","histories"],"all shapes, offsets, storage lengths and nesting of views",
 "Tests build a few small valid views; negative, oversized or overflowing shapes and offsets are never tried.",
 ["lube/view.cpp","lube/var.cpp"],
 [("View constructors, View::setStrides, View::offset","lube/view.cpp"),("var::view, var::subview, var::offset, libube::view","lube/var.cpp")],["shape, stride, offset of views; exceptions"])
p("C05","Views and their storage show the same elements",
 "Element (i,j,...) of a view is the element of the underlying storage at the view's offset plus the sum of each index times its stride; reading, writing, measuring or comparing through the view, by linear or multi-dimensional index, affects and sees exactly that element, for every element type. Operations that would change the length of a view are refused, leaving view and storage intact.",
 ["inputs","histories"],"all shapes, offsets, element types and index tuples",
 "Tests print a few 2x3 numeric views; generic elements, non-zero offsets and comparisons through views are not exercised.",
 ["lube/heap.h","lube/view.cpp","lube/var.cpp"],
 [("View::ptr*, View::at, View::deref*","lube/heap.h"),("var::operator(), var::at","lube/var.cpp")],["values read through the view and through the storage"])
p("C06","Assigning through an element changes that element only",
 "Writing to an indexed element stores the value, converted to the array's element type, at that index and leaves every other element, the length and the element type unchanged. Indexing one or more past the end first extends the array; reading an element yields its current value, and a value taken from an element does not change when the array is modified later.",
 ["inputs","histories"],"all element types, indices, array lengths and assigned value types",
 "Tests assign a few elements; per-type paths and the effect on the other elements are not checked.",
 ["lube/var.cpp","lube/heap.cpp"],
 [("var::operator=, operator[], at, reference, dereference, get, type, size, heap","lube/var.cpp"),("Heap::deref*","lube/heap.cpp")],["values of all elements before and after"])
p("C07","A copy is equal to the original and independent of it",
 "Copying a value explicitly yields one with the same type, length, shape and elements, for every element type and for views. Later changes to the elements of either of the two are not visible in the other; copying a reference to an element yields the element's value.",
 ["inputs","histories"],"all element types and lengths, views included",
 "Tests copy one or two arrays of int or strings.",
 ["lube/var.cpp","lube/heap.cpp","lube/view.cpp"],
 [("var::copy","lube/var.cpp"),("Heap copy constructor, Heap::copy","lube/heap.cpp"),("View copy constructor","lube/view.cpp")],["elements of copy and original"])
p("C08","Arrays behave as sequences under push, pop, insert, remove and shift",
 "push and append add at the end, pop removes and returns the last element, shift removes and returns the first, unshift adds at the front, insert places before the given position and remove takes out and returns the element at the given position. In each case all other elements keep their values and relative order, the length changes by the number of elements added or removed, and the value returned is unaffected by later changes to the array.",
 ["inputs","histories"],"all element types, lengths, positions and operation sequences",
 "Tests run one short sequence per operation, mostly on int arrays.",
 ["lube/var.cpp","lube/heap.cpp"],
 [("var::push, pop, insert, remove, shift, unshift, append","lube/var.cpp"),("Heap::shift, Heap::unshift","lube/heap.cpp")],["elements, length and returned values"])
p("C09","A map returns the last value stored under each key",
 "Keys of a map are distinct and kept in increasing order; after a value is stored under a key, looking that key up returns it and every other key keeps its value. Looking up an absent key through a read-only accessor, or searching for its index, reports absence and adds nothing; removing an entry removes its key and its value together and leaves all other associations unchanged.",
 ["inputs","histories"],"all key sets, insertion orders and sequences of stores, lookups and removals",
 "Tests insert a few string keys in one order; binary-search boundary errors need particular sizes and orders.",
 ["lube/var.cpp","lube/heap.cpp"],
 [("var::binary, operator[](var), at(var), index, key, insert, remove","lube/var.cpp")],["keys and values in index order; lookups"])
p("C10","Comparison operators agree with each other and give one order",
 "For any two values of comparable kinds equality is reflexive and symmetric, and exactly one of less-than, equal and greater-than holds, all six operators agreeing with that; less-than is transitive. Scalars of one type compare as their numbers, strings by bytes and arrays element by element with a proper prefix first; an undefined value is equal only to an undefined value and can be compared with anything.",
 ["inputs"],"all pairs and triples of values (NaN and complex magnitudes excepted for order)",
 "Tests compare a few numbers and strings; map lookup silently relies on the order being consistent for every pair.",
 ["lube/var.cpp","lube/heap.cpp","lube/var.h"],
 [("var::operator!=, operator<","lube/var.cpp"),("Heap::neq, Heap::lt","lube/heap.cpp")],["results of comparison operators"])
p("C11","Sorting, searching and ranges are exact",
 "Sorting an array yields a non-decreasing arrangement of exactly its elements and leaves the original unchanged; index() returns the lowest position holding an equal element, or a negative value if there is none. Integer ranges contain exactly lo, lo+step, ... up to hi, inclusive for range and exclusive for irange.",
 ["inputs"],"all arrays, values and range bounds",
 "Tests sort one array of a few elements and make two ranges.",
 ["lube/var.cpp"],[("var::sort, binary, index, range, irange","lube/var.cpp")],["result elements"])
p("C12","Conversions between numeric types give the converted value",
 "Casting a scalar of any numeric type to any other yields a value of the requested type that equals the language's own conversion of the operand (the real part, from complex); casting to the type a value already has changes nothing. A constructed scalar reports the type and value that it was constructed from, and the operand of a cast is never modified.",
 ["inputs"],"all pairs of types and all values for which the language defines the conversion",
 "49 type pairs times all values; tests cast a few.",
 ["lube/var.cpp"],[("Cast<T>::scalar, var::cast<T>, var::get<T>, constructors","lube/var.cpp")],["type and value of the result"])
p("C13","Scalar arithmetic is the left operand's arithmetic",
 "For scalars of every numeric type, a+b, a-b, a*b and a/b equal the language's operation on a and b converted to a's type, and have a's type. The out-of-place operators leave both operands unchanged and the in-place ones store that same result in the left operand only.",
 ["inputs"],"all operators, types and operand values without arithmetic overflow or integer division by zero",
 "4 operators x 7 types x all values; tests use a few floats.",
 ["lube/math.cpp","lube/func.cpp","lube/var.h"],[("Add/Sub/Mul/Div/Set::scalar","lube/math.cpp"),("BinaryFunctor::operator()","lube/func.cpp")],["type and value of results and operands"])
p("C14","Array arithmetic is element-wise and touches only its result",
 "Adding, subtracting, multiplying or dividing an array by a scalar or by an array of matching trailing shape applies the operation to each corresponding element, the smaller operand being repeated across the larger. The out-of-place forms leave both operands unchanged and agree with the in-place forms; operands whose sizes do not match, or a combination that the library does not implement, are refused rather than read or written beyond their ends.",
 ["inputs"],"all lengths, shapes and element values",
 "Tests add one or two small arrays in place.",
 ["lube/math.cpp","lube/func.cpp"],[("ArithmeticFunctor::broadcast","lube/func.cpp"),("Add/Sub/Mul/Set::vector, Mul::scale","lube/math.cpp")],["elements of result and operands"])
p("C15","Linear algebra calls hand BLAS the matrices that were asked for",
 "The row-major wrappers for vector and matrix operations pass the underlying library arguments that denote exactly the requested operation: lengths, unit strides, operand order and leading dimensions for row-major data. Index-returning operations are converted to zero-based indices, and repeating an operation over the leading dimensions of a tensor visits each sub-array exactly once with the right offsets.",
 ["inputs"],"all dimensions, offsets and element types",
 "Tests multiply one 2x3 by 3x2 matrix; transposed or swapped dimensions show up only for other shapes.",
 ["lube/clapack.cpp","lube/func.cpp","lube/math.cpp"],[("blas::copy, swap, scal, axpy, dot, asum, iamax, gemm, tbmv, sbmv, lapack::geev","lube/clapack.cpp"),("UnaryFunctor/BinaryFunctor::broadcast","lube/func.cpp")],["arguments of the library calls; results"])
p("C16","UTF-8 length counts code points and rejects malformed text",
 "The length in code points of a character string equals the number of code points if the string is a concatenation of well-formed one to four byte sequences (lead byte followed by the right number of continuation bytes), and is a negative value if it is not; the string is not read beyond its terminator. For anything other than a character string the length is the number of elements.",
 ["inputs"],"all byte strings",
 "Tests measure two or three strings; every byte value at every position of a sequence matters.",
 ["lube/utf8.cpp"],[("utf8len, var::len","lube/utf8.cpp")],["returned length"])
p("C17","A stream over a value reads and writes exactly its bytes",
 "Characters written to a stream connected to a value are appended to it in order; reading returns the value's characters in order, whatever their byte values, then end of file, and never alters them. Looking ahead does not consume, putting back steps back one character, and seeking to a position within the text makes that the next character read while an impossible position is refused.",
 ["inputs","histories"],"all byte strings and all interleavings of read, peek, unget, seek and write",
 "Tests write and read a few ASCII words.",
 ["lube/stream.cpp","lube/var.h"],[("varbuf::overflow, uflow, underflow, pbackfail, seekpos","lube/stream.cpp")],["characters read; stream state; text of the value"])
p("C18","String functions are exact for every string",
 "Converting case changes each character as the C library does and nothing else; strip removes exactly the leading and trailing white space; out-of-place forms leave the operand unchanged and agree with the in-place forms. Splitting at a separator returns the pieces between successive occurrences, so that joining them with it restores the string; splitting at white space returns the maximal runs of other characters.",
 ["inputs"],"all strings, separators and piece limits",
 "Tests split and strip a few strings; empty pieces, all-space strings and limits are corners.",
 ["lube/string.cpp"],[("ToUpper/ToLower/Strip::string, var::split, var::join, var::getline","lube/string.cpp")],["result strings and operands"])
p("C19","JSON text read back gives the value that was written",
 "Formatting a string, integer, undefined value or a map or array of those, and parsing the text yields an equal value, whatever characters the strings contain; the text of a string is a valid quoted JSON string. Malformed text (an unterminated string, a bad escape, a missing bracket, comma or colon, a word that is neither a literal nor a number) is reported by an exception, leaving the variable read into unchanged, and parsing consumes no input beyond the value.",
 ["inputs"],"all strings, numbers and nestings",
 "Tests parse one document and print a few values.",
 ["lube/json.cpp"],[("JSON::doValue, doObject, doArray, doString, doRaw, format, formatArray","lube/json.cpp")],["formatted text; parsed value; exceptions"])
p("C20","Configuration lookups return the setting or the default",
 "Looking up an entry returns the value last set for that section and entry, converted to the requested type, or the given default if there is none; a lookup never creates a setting. Setting an entry, or merging a file, changes only the entries named.",
 ["inputs","histories"],"all section and entry names and sequences of settings and lookups",
 "Tests read four entries from one file.",
 ["lube/config.cpp"],[("Config::config, configSet, configSection, configFile","lube/config.cpp")],["returned values"])
p("C21","Command-line options are parsed as declared",
 "After parsing, every declared option holds the argument given last on the command line if it takes one, or a true value if it is a flag that was given, and otherwise keeps its default; options may be repeated. The remaining arguments are exactly those that follow the options.",
 ["inputs"],"all option declarations and argument vectors",
 "No stable test parses repeated options or flags after arguments.",
 ["lube/config.cpp"],[("Option::operator(), parse, arg, args","lube/config.cpp")],["parsed map"])
p("C22","Regular-expression search, match and replace return what matched",
 "Search and match return the matched text followed by the sub-matches, or an undefined value if there is no match; replace substitutes every match and leaves the other text as it was.",
 ["inputs"],"all expressions and strings","Tests use one expression each.",
 ["lube/string.cpp"],[("Search/Match/Replace::string","lube/string.cpp")])
p("C23","Fourier transforms are computed and inverted exactly up to scale",
 "The forward and inverse transforms of any length compute the discrete Fourier transform up to rounding, and inverse(forward(x)) is proportional to x.",
 ["inputs"],"all lengths and values","One length and signal is printed.",
 ["lube/dft-mkl.cpp"],[("DFT::vector","lube/dft-mkl.cpp")])
p("C24","Files read back as they were written",
 "INI, text, XML, GEDCOM and sound files written by the library read back as the value written, and reading a malformed file raises an exception.",
 ["inputs"],"all values a format can represent","The file test does not run to completion here.",
 ["lube/inifile.cpp","lube/txtfile.cpp","lube/xmlfile.cpp","lube/gedfile.cpp","lube/sndfile.cpp"],[("read/write of each module","lube/*file.cpp")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
