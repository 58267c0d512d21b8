"""Writes /verif/properties.jsonl (kept as code so that the texts stay reviewable)."""
import json, os
P = []
I = "pyfastutil/src/ints/"; O = "pyfastutil/src/objects/"; U = "pyfastutil/src/utils/"; X = "pyfastutil/src/unsafe/"

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["the Python API of the extension module"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("L01", "Integer array lists are observationally Python lists of ints",
  "Under every sequence of list operations on in-range integers (construction with or without a size hint, append, extend, insert, pop, remove, index, count, membership, length, element and slice read, element and contiguous-slice assignment and deletion, +, +=, *, *=, reverse, clear, copy, resize with zero fill, to_list, repr), IntArrayList and BigIntArrayList hold exactly the values a built-in list given the same operations holds, in the same order, and return the same results or raise the same kind of exception (IndexError, ValueError, TypeError). "
  "Slices and list concatenation give built-in lists, in-place operators return the list itself, and copy, * and + with the same type give a list of the same type. Assigning or deleting a slice with a step other than 1 either acts as list does or raises NotImplementedError and changes nothing.",
  ["histories", "inputs"], "Every finite operation history over both array types, any sizes (empty, one element, around SIMD block boundaries, thousands), any in-range values including the limits, positive/negative/huge indices; also operations whose callbacks (index conversion, comparison, iteration, repr, a destructor) change the list before they return.",
  "The tests call each method a few times on lists of about 5 to 10 small values; they never chain operations, use in-place operators on the same type, repeat lists longer than a SIMD block, read back negative numbers through to_list, or delete slices.",
  [I+"IntArrayList.cpp", I+"BigIntArrayList.cpp", U+"simd/SIMDUtils.h", U+"memory/AlignedAllocator.h"],
  [("method table", I+"IntArrayList.cpp: IntArrayList_methods, sequence/mapping slots"), ("method table", I+"BigIntArrayList.cpp: same shape"), ("block copies for repetition", U+"simd/SIMDUtils.h: simdMemCpyAligned/simdMemCpy"), ("in place reversal", U+"include/qreverse.hpp")],
  [("vector", "the stored integers", I+"IntArrayList.h")])

p("L02", "The linked integer list is observationally a Python list of ints",
  "Under every sequence of list operations on in-range integers (construction, append, extend, insert, pop, remove, index, count, membership, length, element and slice read, element and contiguous-slice assignment and deletion, +, +=, *, *=, reverse, clear, copy, to_list, repr), IntLinkedList holds exactly the values a built-in list given the same operations holds, in the same order, and returns the same results or raises the same kind of exception (IndexError, ValueError, TypeError). "
  "Slices and list concatenation give built-in lists, in-place operators return the list itself, and copy, * and + with the same type give a list of the same type. Assigning or deleting a slice with a step other than 1 either acts as list does or raises NotImplementedError and changes nothing.",
  ["histories", "inputs"], "Every finite operation history on the linked integer list, any sizes, positions in both halves, ends and out of bounds, any in-range values; also operations whose callbacks (index conversion, comparison, iteration, repr, a destructor) change the list before they return.",
  "The tests exercise each method once on lists of about five values; the position lookup from both ends, repetition by three or more, and slice assignment that grows or shrinks are not reached.",
  [I+"IntLinkedList.cpp", U+"Utils.h"],
  [("method table", I+"IntLinkedList.cpp: IntLinkedList_methods, sequence/mapping slots"), ("node lookup from the nearer end", U+"Utils.h: at")],
  [("list", "the stored integers", I+"IntLinkedList.h"), ("modCount", "structural change counter used by iterators", I+"IntLinkedList.h")])

p("L03", "The object array list is observationally a Python list",
  "Under every sequence of list operations (construction with or without a size hint, append, extend, insert, pop, remove, index, count, membership, length, element and slice read, element and contiguous-slice assignment and deletion, +, +=, *, *=, reverse, clear, copy, resize with None fill, to_list, repr), ObjectArrayList holds exactly the same objects a built-in list given the same operations holds, in the same order, and returns the same results or raises the same kind of exception (IndexError, ValueError, TypeError). "
  "Searching (membership, index, count, remove) finds an element that is the same object or compares equal, exactly as list does; slices and list concatenation give built-in lists, in-place operators return the list itself, and copy, * and + with the same type give a list of the same type. Assigning or deleting a slice with a step other than 1 either acts as list does or raises NotImplementedError and changes nothing.",
  ["histories", "inputs"], "Every finite operation history on the object array list, over objects of any type including equal-but-distinct ones, None, NaN and containers; also operations whose callbacks (index conversion, comparison, iteration, repr, a destructor) change the list before they return.",
  "The tests use a handful of small ints and interned strings, for which identity and equality agree, and never chain operations.",
  [O+"ObjectArrayList.cpp", U+"memory/FastMemcpy.h"],
  [("method table", O+"ObjectArrayList.cpp: ObjectArrayList_methods, sequence/mapping slots"), ("pointer block copies", U+"memory/FastMemcpy.h: fast_memcpy")],
  [("vector", "the stored object pointers", O+"ObjectArrayList.h")])

p("L04", "The object linked list is observationally a Python list",
  "Under every sequence of list operations (construction, append, extend, insert, pop, remove, index, count, membership, length, element and slice read, element and contiguous-slice assignment and deletion, +, +=, *, *=, reverse, clear, copy, to_list, repr), ObjectLinkedList holds exactly the same objects a built-in list given the same operations holds, in the same order, and returns the same results or raises the same kind of exception (IndexError, ValueError, TypeError). "
  "Searching (membership, index, count, remove) finds an element that is the same object or compares equal, exactly as list does; slices and list concatenation give built-in lists, in-place operators return the list itself, and copy, * and + with the same type give a list of the same type. Assigning or deleting a slice with a step other than 1 either acts as list does or raises NotImplementedError and changes nothing.",
  ["histories", "inputs"], "Every finite operation history on the object linked list, over objects of any type including equal-but-distinct ones; also operations whose callbacks (index conversion, comparison, iteration, repr, a destructor) change the list before they return.",
  "The tests use a handful of small ints and interned strings, for which identity and equality agree, and never chain operations.",
  [O+"ObjectLinkedList.cpp", U+"Utils.h"],
  [("method table", O+"ObjectLinkedList.cpp: ObjectLinkedList_methods, sequence/mapping slots"), ("node lookup from the nearer end", U+"Utils.h: at")],
  [("list", "the stored object pointers", O+"ObjectLinkedList.h")])

p("L05", "Sorting gives the ordered, stable permutation",
  "For every list type, any length and any contents, sort() with every combination of key and reverse leaves the list equal to what the built-in list sort leaves: the same multiset of elements, in order, with equal keys keeping their original order (also under reverse), and calls the key function exactly once per element. "
  "If the key function or a comparison raises, that exception reaches the caller and the list still holds exactly its original elements, in some order. If the key function or a comparison changes the list that is being sorted, sort() doesn't pretend to have sorted it but raises an exception (ValueError, or the one raised there), and no element is lost, duplicated or invented: the list holds its original elements, or what those changes made of them.",
  ["inputs"], "All lengths (around every block, run and buffer size the algorithms switch at), all value distributions (random, constant, sorted, reversed, sawtooth, few distinct, extremes, duplicates), all five list types, key/reverse combinations, exceptions raised at any comparison or key call.",
  "The tests sort lists of about five elements, where the SIMD block sort, the merges, and galloping are never entered.",
  [U+"simd/BitonicSort.cpp", U+"include/CPythonSort.c", I+"IntArrayList.cpp", I+"BigIntArrayList.cpp", I+"IntLinkedList.cpp", O+"ObjectArrayList.cpp", O+"ObjectLinkedList.cpp"],
  [("SIMD block sort and merge", U+"simd/BitonicSort.cpp: simdsort, mergeSortedBlocks, doSingleMerge"), ("object merge sort", U+"include/CPythonSort.c: CPython_sort"), ("sort methods", "the *_sort function of each list type")])

p("L06", "Stored integers come back exact and are never aliased to others",
  "Every integer within the element range of an integer list (32-bit for IntArrayList and IntLinkedList, 64-bit for BigIntArrayList) that goes in by any write path comes back by every read path (indexing, iteration in both directions, pop, slices, to_list, key functions, repr) as an ordinary Python integer that equals, hashes, compares, computes and prints like the original. "
  "An integer outside that range is never stored, found, counted, removed or compared equal as if it were a different in-range integer: writing it raises an exception and leaves the list as it was, and membership tests give False.",
  ["inputs"], "All write paths times all read paths times all in-range values (zero, signs, powers of two and internal digit boundaries, limits), and out-of-range values of any size for every writing and searching operation.",
  "The tests store a few non-negative values below 2**30 and compare them with equality helpers that hide malformed integers.",
  [U+"PythonUtils.h", I+"IntArrayList.cpp", I+"IntArrayListIter.cpp", I+"BigIntArrayList.cpp", I+"BigIntArrayListIter.cpp", I+"IntLinkedList.cpp", I+"IntLinkedListIter.cpp"],
  [("integer construction", U+"PythonUtils.h: PyFast_FromInt"), ("integer extraction", U+"PythonUtils.h: PyFast_AsInt and PyLong_As* call sites in each list")])

p("L07", "Object lists own each stored reference exactly once",
  "An object list keeps every object alive for as long as it is stored, holds exactly one reference per stored position, and gives each reference up exactly once when the position is overwritten, removed or the list dies; results returned to the caller carry their own reference. "
  "After any history of successful and failing operations, including the list types' iterators, every object's reference count has changed by exactly the number of positions (and results) that hold it, and integer lists leave no reference behind at all. Reference cycles through object lists are reclaimed by the garbage collector.",
  ["histories", "fault_sequences"], "Every operation of both object lists (and of the integer lists and iterators, on the objects passed through them), successful or failing part-way, in any order.",
  "The tests never look at reference counts or weak references; a missing or doubled release shows only later, or as a leak.",
  [O+"ObjectArrayList.cpp", O+"ObjectLinkedList.cpp", O+"ObjectArrayListIter.cpp", O+"ObjectLinkedListIter.cpp", U+"PythonUtils.h"],
  [("reference helpers", U+"PythonUtils.h: PyFast_INCREF, PyFast_DECREF, SAFE_DECREF"), ("per operation ownership", "every mutating function of the two object lists")])

p("L08", "No sequence of list calls corrupts memory or crashes",
  "No sequence of calls to the lists and their iterators makes the process read or write outside live memory, use a freed element, overflow or otherwise run into undefined behaviour, hang, or die: whatever the argument types and values, and whatever Python code called back from inside an operation (comparison, key, hash, repr, length hint, index conversion, iteration, destructor) does to the same list. "
  "Every such call returns a result or raises an ordinary Python exception, and allocation requests that cannot be met raise an exception.",
  ["histories", "programs", "inputs"], "All operation histories over all five lists and their iterators with hostile arguments and re-entrant callbacks that mutate, clear, sort, extend or drop the list in the middle of each operation; programs whose interpreter ends while lists, iterators and views are in use.",
  "The tests run without sanitizers, pass well-typed small arguments, and never mutate a list from a callback.",
  [I+"IntArrayList.cpp", I+"BigIntArrayList.cpp", I+"IntLinkedList.cpp", O+"ObjectArrayList.cpp", O+"ObjectLinkedList.cpp", U+"simd/SIMDUtils.h", U+"memory/AlignedAllocator.h"],
  [("bounds and type checks", "every function of the list types"), ("exception barrier", "try/catch blocks turning C++ exceptions into Python ones")])

p("L09", "Iterators walk the list exactly, also while it changes",
  "A forward iterator yields the elements at positions 0, 1, 2 and so on, and a reversed iterator the elements from the last position down to 0, each exactly once and in order, for every list type and length. "
  "If the list is changed in the middle of the walk the iterator goes on as the built-in list's iterator does (each step gives the element now at its next position, and it ends when that position does not exist), never skipping, repeating or returning a stale element otherwise. Independent iterators over one list do not disturb each other, an exhausted iterator stays exhausted, and a live iterator keeps its list alive.",
  ["histories"], "All five list types, forward and reversed, all lengths from 0, any interleaving of several iterators with any mutation of the list.",
  "The tests only iterate unmodified lists forwards and compare short reversed copies.",
  [I+"IntArrayListIter.cpp", I+"BigIntArrayListIter.cpp", I+"IntLinkedListIter.cpp", O+"ObjectArrayListIter.cpp", O+"ObjectLinkedListIter.cpp"],
  [("index based iterators", "the *ArrayListIter_next functions"), ("cached node with change counter", "the *LinkedListIter_next functions and modCount of the linked lists")])

p("L10", "A failing list operation raises cleanly and changes nothing",
  "When a list operation fails (wrong argument type or count, conversion error, out-of-range index, missing value, an exception raised by user code it calls, or a size that cannot be allocated), the caller gets an ordinary Python exception, the user's own exception where user code raised one during iteration, comparison or a key call, and never a result together with a pending error or an internal SystemError. "
  "The list then holds exactly what it held before the call, except that extend and += keep the elements already taken from their argument, as list does, that a failed sort leaves a permutation (or, if a callback changed the list, that callback's changes), and that a failing repeated initializer may leave the list empty or partly filled.",
  ["fault_sequences", "inputs"], "Every operation of the five list types with every kind of bad argument and with faults raised at every step of an argument's iteration, length, item access, index conversion and comparison.",
  "The tests check a few exception types on lists of a few elements and hardly ever look at the list afterwards.",
  [I+"IntArrayList.cpp", I+"BigIntArrayList.cpp", I+"IntLinkedList.cpp", O+"ObjectArrayList.cpp", O+"ObjectLinkedList.cpp"],
  [("error checks after conversions", "PyErr_Occurred checks in every function of the list types"), ("argument parsing", "the *_init functions")])

p("L11", "Copies are independent and self-arguments act on a snapshot",
  "Every list, slice, concatenation, repetition or copy produced from a list (including constructing one list from another, of the same or another type) is independent of its source: changing either one never shows in the other. "
  "An operation given the list itself as its argument (extend, +=, slice assignment of the list or of part of it, +, comparison, construction) has the effect it would have with a separate copy of the list taken just before the call, as for the built-in list.",
  ["histories", "inputs"], "All five list types and their cross products as source and destination, all sizes, every operation that takes another list, with distinct and identical arguments, followed by changes on either side.",
  "The tests never pass a list to its own methods and do not modify a source after copying it.",
  [I+"IntArrayList.cpp", I+"BigIntArrayList.cpp", I+"IntLinkedList.cpp", O+"ObjectArrayList.cpp", O+"ObjectLinkedList.cpp"],
  [("same-type fast paths", "the extend, iadd, setitem_slice, add, mul, copy and init functions of each list")])

p("L12", "Comparisons follow list order and are mutually consistent",
  "For every list type, ==, !=, <, <=, > and >= against a list of the same type or a built-in list give exactly the answer built-in lists with the same elements give, that is lexicographic order with a shorter prefix being smaller. "
  "The six answers are mutually consistent (!= is the negation of ==, <= is < or ==, swapping the sides mirrors the answer), comparing with something that is not a sequence never says equal, and an exception raised by an element's comparison reaches the caller.",
  ["inputs"], "Pairs of lists over all five types and built-in lists, lengths from 0, equal prefixes of any length, first difference at any position, incomparable and raising elements, elements whose comparison changes the lists.",
  "The tests compare one or two pairs per operator; equal lists, prefixes and differences after the first element are not covered for every operator.",
  [I+"IntArrayList.cpp", I+"BigIntArrayList.cpp", I+"IntLinkedList.cpp", O+"ObjectArrayList.cpp", O+"ObjectLinkedList.cpp"],
  [("rich comparison", "the *_eq, *_ne, *_lt, *_le, *_gt, *_ge and *_compare functions of each list")])

p("L13", "Exported buffers are exact live views that stay valid",
  "The buffer an integer array list exports shows exactly the list's elements (format, item size, length, shape and values of any consumer's request), and writes through a writable view are seen by the list and the other way round. "
  "As long as any view exists the list stays alive and the view's memory stays valid and its size unchanged: an operation that would change the list's length raises BufferError and changes nothing, and becomes possible again once every view is released.",
  ["histories"], "Both integer array lists, all sizes from 0, any number of nested views taken and released in any order, every operation attempted while views exist, views that outlive the list variable, and every flag combination a consumer may request.",
  "One test reads a memoryview of an unmodified list; resizing with live views, view lifetime and request flags are not tested.",
  [I+"IntArrayList.cpp", I+"BigIntArrayList.cpp"],
  [("buffer export", I+"IntArrayList.cpp: IntArrayList_get_buffer"), ("buffer export", I+"BigIntArrayList.cpp: BigIntArrayList_get_buffer")])

p("L14", "from_range is the built-in range",
  "For every list type that has it, from_range with one, two or three integer arguments gives a list equal to list(range(...)) of the same arguments whenever all elements fit the element range: every length, sign and divisibility of the step, empty ranges included. "
  "A zero step raises ValueError, wrong arguments raise TypeError or OverflowError, and a range with elements outside the element range raises an exception and never wraps around.",
  ["inputs"], "All (start, stop, step) triples and one- and two-argument forms, with element counts that fit in memory, up to the limits of the element type and of the argument type.",
  "The tests use four or five ranges whose length is a multiple of the step.",
  [I+"IntArrayList.cpp", I+"BigIntArrayList.cpp", I+"IntLinkedList.cpp", U+"PythonUtils.h"],
  [("argument forms", U+"PythonUtils.h: PyParse_EvalRange"), ("element count and fill", "the *_from_range functions")])

p("S01", "SIMD memory copy and reverse are exact and stay in bounds",
  "For every element type, count and (for the unaligned forms) address alignment, each SIMD memcpy makes the destination's count elements equal to the source's, each SIMD reverse reverses the order of exactly the count elements, and no byte outside the given elements is written or read. "
  "Calls with a wrong number of arguments, or with arguments that are not integers, do not fit 64 bits or give a negative count, raise an exception and touch no memory.",
  ["inputs"], "All 29 element types times memcpy, aligned memcpy and reverse, all counts from 0 through several vector blocks and larger, all alignments, blocks ending exactly at an unmapped page, and malformed arguments.",
  "The tests copy and reverse one small buffer per element type and do not look at the bytes around it.",
  [X+"SIMD.cpp", U+"simd/SIMDUtils.h", U+"include/qreverse.hpp"],
  [("block copies", U+"simd/SIMDUtils.h: simdMemCpy, simdMemCpyAligned"), ("reverse kernels", U+"include/qreverse.hpp: qReverse"), ("bindings", X+"SIMD.cpp: DEFINE_SIMD_FUNCTION, SIMD_memcpy, SIMD_reverse")])

p("S02", "SIMD vector setters store every lane exactly",
  "Each AVX2 and AVX-512 vector setter stores its integer arguments as the lanes of one vector in the documented order (last argument in the lowest lane), each lane holding the argument's value for every in-range value of the lane width including negative ones, and writes exactly the vector's 32 or 64 bytes. "
  "A wrong number of arguments or an argument that is not an integer raises an exception and leaves memory untouched; an integer that does not fit the lane either raises in the same way or is reduced modulo the lane width.",
  ["inputs"], "All six setters, all lane positions, all lane values (zero, signs, limits), wrong counts and wrong types.",
  "The tests store one ascending non-negative sequence per setter.",
  [X+"SIMD.cpp", U+"PythonUtils.h"],
  [("setters", X+"SIMD.cpp: SIMD_setAVX512Vector32/16/8, SIMD_setAVX2Vector32/16/8"), ("lane conversion", U+"PythonUtils.h: PyFast_AsInt, PyFast_AsShort, PyFast_AsChar")])

p("S03", "Results do not depend on the CPU's vector instruction level",
  "Whatever vector instruction sets the processor is found to support (none, SSE4.1, AVX2, AVX-512, in any real combination), sorting, reversing, repeating and copying integer lists, object list conversions, and the SIMD copy functions give the same results for the same inputs. "
  "The reported support flags agree with the processor and operating system the module runs on.",
  ["configurations", "inputs"], "The detected support levels times the operations that dispatch on them, over sizes around every block size of every level and all value distributions.",
  "The tests run on one machine, so only one dispatch level is ever executed, and only on inputs shorter than one block.",
  [U+"simd/SIMDHelper.cpp", U+"simd/SIMDUtils.h", U+"simd/BitonicSort.cpp"],
  [("feature detection", U+"simd/SIMDHelper.cpp"), ("dispatch", U+"simd/SIMDUtils.h: simdMemCpy, simdMemCpyAligned; "+U+"simd/BitonicSort.cpp: simdsort")])

p("S04", "AVX-512 bindings compute the intrinsic they document",
  "Every supported low-level AVX-512 binding stores through its result pointer (or through the pointers it is given) exactly what the C intrinsic named in its documentation computes for the given operands, masks and immediates, and writes nothing else; the operand constants exported with the bindings have the values of the C constants they are named after. "
  "Bindings documented as unsupported raise NotImplementedError, and a wrong number of arguments raises TypeError; in both cases no memory is touched.",
  ["inputs", "programs"], "All bindings in the module's interface, random and special operand values (signs, zeros, infinities, NaN, denormals, all-zero/all-one masks), every immediate the binding accepts.",
  "No test calls any of these bindings; they were generated by a script.",
  [X+"SIMDLowAVX512.cpp", "pyfastutil/unsafe/SIMDLowAVX512.pyi", "scripts/GenerateAVX512Bindings.py"],
  [("generated bindings", X+"SIMDLowAVX512.cpp: SIMDLowAVX512_*_impl and SIMDLowAVX512_methods"), ("documented prototypes", "pyfastutil/unsafe/SIMDLowAVX512.pyi")])

p("U01", "Raw memory calls act exactly on the bytes they name",
  "malloc, calloc, realloc, free, aligned_malloc and aligned_free give distinct live blocks of at least the requested size and alignment (zeroed for calloc, contents kept up to the smaller size for realloc); get, set, memcpy and memset read or write exactly the addressed bytes, memset using its value modulo 256; and repeated use leaks no memory beyond blocks not yet freed. "
  "Requests that cannot be met raise MemoryError, and malformed arguments raise an exception without touching memory.",
  ["histories", "inputs"], "All histories of allocation, reallocation, release and access calls over sizes from 0 to several pages and alignments from 1 to a page, with values covering all bytes.",
  "The tests make a few calls on blocks of tens of bytes.",
  [X+"Unsafe.cpp", U+"memory/AlignedAllocator.h"],
  [("allocation", X+"Unsafe.cpp: Unsafe_malloc ... Unsafe_alignedFree; "+U+"memory/AlignedAllocator.h: alignedAlloc"), ("access", X+"Unsafe.cpp: Unsafe_get, Unsafe_set, Unsafe_memcpy, Unsafe_memset")])

p("U02", "Object addresses, reference counts and raw calls are faithful",
  "Turning an object into its address and back gives the same object and leaves its reference count unchanged once the result is dropped; incref, decref and refcnt change or report exactly that object's count; and none of these calls has any other effect. "
  "Calling a function address runs it once and returns (or stores, for the requested number of bytes) exactly the value it produced, for every value of its return type.",
  ["inputs", "histories"], "Objects of every kind, any number and order of conversions and count changes, functions returning any int, long long, small struct or nothing, result sizes 0 to 8 and larger indirect results.",
  "The tests convert one object once and call functions returning one or two small values.",
  [X+"Unsafe.cpp", U+"PythonUtils.h", U+"memory/FastMemcpy.h"],
  [("address conversion", X+"Unsafe.cpp: Unsafe_getAddress, Unsafe_as_object"), ("counts", X+"Unsafe.cpp: Unsafe_incref, Unsafe_decref, Unsafe_refcnt"), ("calls", X+"Unsafe.cpp: Unsafe_callVoid, Unsafe_callInt, Unsafe_callLongLong, Unsafe_call")])

p("U03", "C stream calls pass text through unchanged",
  "Text written with fputs arrives on standard output byte for byte (its UTF-8 encoding), in call order and at the latest when fflush returns. "
  "Successive fgets calls return the lines of standard input in order, each as text of at most buffer size minus one bytes, losing and repeating nothing and never splitting or corrupting what fits, and return the empty string at end of input, any number of times, without leaking memory; malformed arguments raise an exception and consume no input.",
  ["inputs", "histories"], "All text contents (empty, long lines, missing final newline, multi-byte characters), buffer sizes from 2 up, any interleaving of writes, flushes and reads, repeated reads past the end.",
  "The tests replace or read only one short line.",
  [X+"Unsafe.cpp"],
  [("stream calls", X+"Unsafe.cpp: Unsafe_fputs, Unsafe_fflush, Unsafe_fgets")])

p("T01", "Lists shared between threads stay consistent",
  "When several Python threads use the same list at the same time, each single list operation takes effect as a whole: the outcome equals that of running the same calls one after another in some order that never puts a call before one that had returned when it started; no element is lost, duplicated or invented, and the process does not crash or read freed or half-written memory. "
  "This includes the long-running operations (sorting, reversing, repeating, copying). Lists that one thread each uses never influence one another, also where their calls run Python code in the middle.",
  ["schedules", "histories"], "All interleavings of 2 to 8 threads appending, popping, sorting, reversing, repeating, copying, slicing and iterating shared lists of all five types, with large lists so that long operations overlap.",
  "The tests are single threaded.",
  [I+"IntArrayList.cpp", I+"BigIntArrayList.cpp", I+"IntLinkedList.cpp", O+"ObjectArrayList.cpp", O+"ObjectLinkedList.cpp"],
  [("interpreter lock regions", "Py_BEGIN_ALLOW_THREADS / Py_END_ALLOW_THREADS in the sort, reverse, mul and imul functions")])

p("T02", "Pool tasks run exactly once and their futures tell what happened",
  "Every task submitted to a ScheduledThreadPool, from any number of threads or from inside another task of the pool, runs exactly once on one of the pool's threads as long as the pool lives, and its future then gives the value the task returned or the exception it threw. Tasks are taken in the order of submission, and a pool of n threads runs up to n tasks at the same time (never more). "
  "Destroying the pool lets running tasks finish, joins every thread and returns; each task that had not started then either still runs or its future reports a broken promise: no future stays pending for ever, nothing runs afterwards, and everything the tasks captured is released. There are no data races and no use of freed memory.",
  ["schedules", "histories"], "All interleavings of submitting threads, workers and the destructor, all pool sizes, result types, throwing and empty functions, nested submissions.",
  "No test uses the pool.",
  ["pyfastutil/src/utils/thread/ScheduledThreadPool.h", "pyfastutil/src/utils/thread/ScheduledThreadPool.cpp"],
  [("submission", "ScheduledThreadPool::submit (both overloads)"), ("workers and shutdown", "ScheduledThreadPool::worker and the destructor")])

p("L15", "Construction, size hints and conversions keep every element",
  "Building any list from any iterable (list, tuple, range, generator, set, dict view, array, another list of any of the five types, an iterable with a wrong or raising length hint) gives exactly the elements list() of that iterable gives, whatever size hint is passed by position or keyword; a size hint alone gives an empty list. "
  "Calling the initializer again replaces the contents as for list, a subclass behaves as its base, an object made without running the initializer is an empty usable list, and an iterable that fails part-way makes construction raise without leaking anything.",
  ["inputs", "programs"], "All five list types, all kinds of iterables and sizes, size hints of 0, exact, too small and too large, negative, not satisfiable, repeated initialization, subclasses and uninitialized instances.",
  "The tests construct from short lists, tuples and ranges.",
  [I+"IntArrayList.cpp", I+"BigIntArrayList.cpp", I+"IntLinkedList.cpp", O+"ObjectArrayList.cpp", O+"ObjectLinkedList.cpp"],
  [("argument parsing and fill", "parseArgs and the *_init functions of each list"), ("type slots", "the initialize*Type functions")])

p("L16", "The exported types are complete from the moment of import",
  "As soon as the package is imported, in whatever order its modules are imported, every documented member of every exported type (the five lists, their iterators, Unsafe, SIMD, ASM and the AVX-512 bindings), and for the list types every inherited list method and operator, is found and works by every route (call syntax, bound method, attribute lookup, hasattr, dir, class attribute, type dictionary, subclass instance, super()), whichever is used first and however the first instance came to be. "
  "Each name refers to one and the same type wherever it is reached. In a with statement the unsafe types give themselves, and every exception leaves the block as the very object that was raised.",
  ["programs", "configurations"], "All exported types, all members the interface files document, all first-touch routes, all import orders, each in a fresh process.",
  "The tests run in one process, construct a list in every test before looking anything up, and never look members up on a fresh type.",
  ["pyfastutil/src/PyFastUtil.cpp", "pyfastutil/__init__.py", "pyfastutil/ints.py", "pyfastutil/objects.py", "pyfastutil/unsafe/__init__.py", I+"IntArrayList.cpp", O+"ObjectLinkedList.cpp", X+"SIMD.cpp"],
  [("type initialisation", "the PyInit_* functions and initialize*Type of each type"), ("module assembly", "pyfastutil/src/PyFastUtil.cpp")])

p("L17", "The documented costs hold at every length",
  "Linked lists insert, delete, read and replace at either end (append, pop, insert, index assignment and deletion, extending by a few elements), and move their iterators by a step, in time that does not depend on their length. Array lists read, replace and pop at the end in such time, and append in such time on average, without touching the allocator for each element. "
  "Growing any list to n elements takes work and requested memory proportional to n, in whatever pieces and by whichever route (append, extend, +=, insertion or slice assignment at the end, from any iterable, from any starting history); an array list built with a size hint asks for no more element storage until the hint is exceeded. "
  "Every other operation on a whole list (search, count, comparison, copy, conversion, concatenation, repetition, reversal, slices with any bounds and step, slice assignment and deletion, iteration, construction) takes work and memory at most proportional to the lengths involved, and sort takes at most n log n work on every distribution of values.",
  ["inputs", "histories"], "All five list types, all lengths, all piece sizes and routes of growth, all distributions of values.",
  "Tests check results on short lists, and a quadratic operation passes them all; timing assertions would be flaky.",
  [I+"IntArrayList.cpp", I+"BigIntArrayList.cpp", I+"IntLinkedList.cpp", O+"ObjectArrayList.cpp", O+"ObjectLinkedList.cpp", U+"Utils.h", U+"simd/SIMDUtils.h", U+"include/TimSort.h"],
  [("documented costs", "pyfastutil/ints.pyi, objects.pyi (class notes, exceptSize) and README.md"), ("growth", "extend, iadd and setitem_slice of each type"), ("indexed access of linked lists", "at() in utils/Utils.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
