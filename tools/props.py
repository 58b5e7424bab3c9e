NOTE = "Unbounded in element values, lengths (to 2^32) and positions, for the template instantiations named in the contracts; trusts the VC generator in /verif/engine, clang's front end, z3 and cvc5."
P("A01", "Dynamic arrays behave as mathematical sequences",
  "For every array content, length, capacity and index, each operation of the dynamic and the fixed array (add, insert, remove, remove-last, set-length, set-capacity, clear, set, append, copy, move, assignment, slices) leaves exactly the sequence its name promises: the right length, the affected element in place, all others unchanged and in order. No operation reads or writes outside the array's own storage, and copies never share storage.",
  ["inputs", "histories"], "all array states (any contents, length and capacity) and all arguments; histories by induction, since every operation is proved from an arbitrary state",
  "The unit tests run a few dozen fixed operations on arrays of fewer than ten elements; capacity boundaries, growth, self-overlap and index edges need all lengths and positions.",
  ["DynArray.h", "Array.h"], [("Insert/Remove shift elements", I + "Array.h: _insert, _remove"), ("growth before adding", I + "DynArray.h: _checkSize"), ("copying", I + "Array.h: _copy, _copyMove")], NOTE)
P("A02", "Bit-packed dynamic arrays behave as sequences of booleans",
  "For every length and content, the bit-packed boolean array's operations (add, insert, remove, set-length, set-capacity, single-bit read/write/flip, bulk set, bit count, copy, assignment, move) act on the sequence of booleans exactly like an array of bool. Neighbouring bits sharing a storage unit never change, no bit outside the storage is touched, and nothing leaks.",
  ["inputs", "histories"], "all lengths, contents, bit positions and values, from an arbitrary well-formed state",
  "The tests exercise a handful of positions; carries across storage units and partially filled last units depend on every bit offset.",
  ["DynArray.h", "BitField.h"], [("bit references", I + "DynArray.h: DynArray<bool>, BitRef"), ("shifts with carry", I + "DynArray.h: DynArray<bool>::Insert, Remove")], NOTE)
P("A03", "Arrays of objects construct and destroy every element exactly once",
  "When a dynamic array of objects grows, shrinks, inserts, removes or is destroyed, every element is constructed exactly once, relocated or assigned only while alive, and destroyed exactly once; elements whose policy forbids bytewise relocation never end up with a stale own address. After each operation the number of live objects equals the array length and the surviving values are unchanged.",
  ["inputs", "histories"], "all lengths, capacities, positions and values, for relocatable and for self-referencing element types",
  "Tests count constructions for a few concrete sequences; double destruction or use of a dead element shows only at particular lengths, positions and growth points.",
  ["DynArray.h", "Array.h"], [("construct/destroy policy", I + "Array.h: ArrayBase::_setLength, _insert, _remove, _copyMove")], NOTE)
P("A04", "Sorted arrays stay sorted and their searches are exact",
  "Inserting into, replacing in and removing from a sorted array keeps it sorted, keeps all other elements, and returns the position of the element. The binary searches, on a sorted array or any range of it, find a matching element whenever there is one and otherwise report absence, and the nearest-match searches return precisely the last element not above, or the first element not below, the key.",
  ["inputs", "histories"], "all sorted contents (duplicates included), lengths, ranges and keys",
  "The tests look up a few keys in arrays of about ten items; off-by-one errors in a search appear only for particular lengths and positions.",
  ["ArraySort.h", "algo.h", "compare.h"], [("BinarySearchNear/Exact", I + "algo.h"), ("ArraySort::Insert, ReplaceData, Find, FindNear", I + "ArraySort.h")], NOTE)
P("A05", "The ordered map keeps keys sorted and finds what was stored",
  "Every insertion, removal, key replacement and value update of the ordered map keeps its entries sorted by key and changes no other entry. Lookup by key finds an entry with that key exactly when one exists and returns its value, and nearest-key lookups return the last entry not above or the first entry not below the key.",
  ["inputs", "histories"], "all maps (any length, any keys, duplicates included) and all keys",
  "The tests use a small fixed key set; correctness depends on every arrangement of keys around the probe.",
  ["Map.h", "ArraySort.h", "algo.h"], [("Map::Get, GetNear, Insert, Remove, Set", I + "Map.h")], NOTE)
P("A06", "Queues are FIFO, stacks LIFO, circular arrays keep recency order",
  "The queue returns items in exactly the order they were pushed, the stack in reverse order, and the circular array addresses items by recency, overwriting only the oldest when full. This holds for every position of the wrap-around point and through growth, copying, moving and clearing; no operation touches storage outside the ring.",
  ["inputs", "histories"], "all ring states (capacity, length, position of the newest item, contents) and all arguments",
  "Tests wrap around once or twice at one capacity; index arithmetic must be right for every combination of capacity, length and cursor.",
  ["ArrayCircular.h", "Queue.h", "Stack.h", "bss_util.h"], [("modular indexing", I + "ArrayCircular.h: _modIndex, _push"), ("growth of a wrapped ring", I + "ArrayCircular.h: SetCapacity"), ("FIFO", I + "Queue.h")], NOTE)
P("A07", "Heaps and priority queues keep heap order and lose no element",
  "After every insertion, removal of any element, pop or replacement, the heap satisfies heap order, its top is a largest element, and it holds exactly the previous elements plus or minus the one concerned, each once. The priority queue always pops an entry of highest priority together with the value pushed with it.",
  ["inputs", "histories"], "all heaps (any size, contents, ties included), all positions and all new values",
  "The tests push and pop a short fixed list; violations of heap order arise only for specific shapes, for example when the moved last element belongs above the hole.",
  ["BinaryHeap.h", "PriorityQueue.h"], [("PercolateUp, PercolateDown", I + "BinaryHeap.h"), ("Remove, Set, Pop", I + "BinaryHeap.h")], NOTE)
P("A08", "Integer and bit helpers compute their exact mathematical functions",
  "For every argument in range: log2 is the position of the highest set bit, the next power of two is the least one not below, the bit count counts the set bits, modulo and division by a positive number round towards negative infinity, and the integer square root is the floor of the root. Absolute value, sign, negation, single-bit set, multiply-and-extract and byte-order reversal are exact, and consecutive calendar dates have consecutive day numbers.",
  ["inputs"], "all argument values of the 8- to 64-bit instantiations (square root and two-limb product: the 8/16-bit instantiations)",
  "These functions are bit tricks whose errors sit at single values (powers of two, minimum values, the top bit); the repository's test of this header is not even built.",
  ["bss_util.h"], [("bssLog2, NextPow2, BitCount", I + "bss_util.h"), ("bssMod, IntDiv", I + "bss_util.h"), ("IntFastSqrt, _bssmultiplyextract, DaysFromCivil", I + "bss_util.h")], NOTE)
P("A09", "Fixed-point numbers compute exactly within their precision",
  "Sums, differences, comparisons and integer conversions of fixed-point numbers are exact, products are the exact product rounded down and quotients the exact quotient rounded towards zero at the left operand's precision. Conversions between precisions and mixed-precision operations preserve the value (rounded down when fraction bits are lost).",
  ["inputs"], "all bit patterns of 32-bit fixed-point numbers (and conversions to 64-bit) for which the result is representable",
  "The tests compare a few values through floating point with wide tolerances.",
  ["FixedPt.h", "bss_util.h"], [("Fixed operators", I + "FixedPt.h"), ("SafeShift, bssMultiplyExtract", I + "bss_util.h")], NOTE + " Conversions from and to float/double are outside (floating point).")
P("A10", "Rational arithmetic is exact and in lowest terms",
  "Constructing, adding, subtracting, multiplying and dividing rationals (by rationals or integers) yields exactly the mathematical value, always with a positive denominator and in lowest terms, as long as the intermediate products fit the integer type. Equality and comparison with integers agree with the mathematical order, and the greatest common divisor is the greatest.",
  ["inputs"], "all operands of the 8-bit instantiation whose products fit (numerators and denominators up to 5-7 in magnitude, constructed fractions up to 12, GCD unrestricted)",
  "Errors appear only for particular sign and divisor combinations; the tests compute a handful of fractions.",
  ["Rational.h"], [("GCD, Simplify, operator+=, -=, *=, /=", I + "Rational.h")], NOTE + " Proved for the 8-bit instantiation of the template; comparison between rationals goes through double and is outside.")
P("A11", "Bit streams return exactly the bits written; bit fields touch only their bits",
  "Writing any number of bits to a bit stream at any bit offset places each source bit at the next stream position and changes no earlier bit; reading any number of bits returns exactly the stream's bits and zeroes the rest of the last byte, so values read back equal the values written. Setting, clearing, flipping or group-assigning bits of a bit field changes exactly the designated bits.",
  ["inputs", "histories"], "all bit counts, bit offsets, pending bits, stream contents and values, from an arbitrary stream state",
  "Correctness depends on every combination of bit offset and length; the tests write one fixed sequence.",
  ["BitStream.h", "BitField.h"], [("Write, Read", I + "BitStream.h"), ("BitField, _BIT_REF, _BIT_GROUP", I + "BitField.h")], NOTE + " The underlying byte stream is the template parameter; it is assumed to store and return bytes in order.")
P("A12", "Reference-counted and owning pointers destroy each object exactly once",
  "Grab and Drop count references exactly and the object is destroyed precisely when the last reference goes. Constructing, copying, moving, assigning (raw pointer, other pointer, the same object, itself) and destroying reference pointers keep the count equal to the number of pointers; null is always allowed. An owning pointer deletes its object exactly once, copies and references never own, moving transfers whatever ownership there was, and self-assignment changes nothing.",
  ["inputs", "histories"], "all reference counts, all combinations of null, shared and distinct objects, owned or not, from an arbitrary state",
  "Double destruction or leaks show only for particular aliasings (same object on both sides, self-assignment, last reference); the tests run one short sequence.",
  ["RefCounter.h", "SmartPtr.h"], [("RefCounter::Drop, ref_ptr::operator=", I + "RefCounter.h"), ("OwnerPtr::operator=, _disown", I + "SmartPtr.h")], NOTE)
P("A13", "Linked lists keep exact order, links and free slots",
  "Every insertion and removal in a doubly linked list (intrusive nodes, the list class, and the array-based list) leaves both link directions consistent, the new item exactly at its place or the removed one gone, the first/last pointers and length right, and every other node, link and item untouched. The array-based list stores new items only in free slots, returns removed slots to its free list, grows without losing or moving items, and copies exactly.",
  ["inputs", "histories"], "all lists (any length, position and slot order; array-based: any capacity and free-list order) and all items",
  "Link errors appear only at particular positions (first, last, sole node, full free list) and surface later; tests build one list of five items.",
  ["LLBase.h", "LinkedList.h", "LinkedArray.h"], [("LLInsert, LLRemove, LLAdd...", I + "LLBase.h"), ("LinkedList::Insert, Add, Remove", I + "LinkedList.h"), ("_insertAfter, _insertBefore, Remove, _setupChunk", I + "LinkedArray.h")], NOTE + " Bounded, not counted as proved: iterating, searching, moving and clearing a LinkedList (lists of up to 3 nodes).")
P("A14", "Disjoint sets represent the exact partition",
  "Find returns the name of the element's set and never changes the partition, the set names or the sizes, whatever the shape of the forest it compresses. Union of two different set names merges exactly these two sets (their sizes add up, one set fewer, all other sets unchanged) and refuses anything that is not two different set names without changing anything. Listing a set yields exactly its elements in order; reset makes every element its own set.",
  ["inputs", "histories"], "all forests over any number of elements, all elements and set names",
  "Path compression touches arbitrary chains; the tests unite a dozen elements once.",
  ["DisjointSet.h"], [("Find with path compression, Union, GetElements", I + "DisjointSet.h")], NOTE + " Set sizes are proved additive under Union (the weight is the size by induction over the history). GetElements is proved against Find's contract.")
P("A15", "Allocators hand out separate, aligned blocks inside their own memory",
  "Every block an allocator hands out is aligned, lies entirely inside memory the allocator owns and overlaps no other block that is still in use, including across growth, reuse of freed blocks, Clear and moves; a freed block is handed out again before the allocator grows; Clear keeps one chunk of all the memory with everything in it available; moving an allocator takes over its memory, and every chunk is released exactly once.",
  ["inputs", "histories"], "all sizes up to 2^31 bytes and all fill levels of the newest chunk (GreedyAlloc, GreedyBlockPolicy: one step from any state, so any history); BlockAlloc and BlockPolicy: the free-list step is proved for any list, cutting a chunk into blocks for 0 to 9 blocks (bounded)",
  "Overlap needs a particular fill level or size at the edge of a chunk, or a particular history of Clear, growth and reuse.",
  ["GreedyAlloc.h", "GreedyBlockAlloc.h", "BlockAlloc.h"], [("Alloc, Clear, _allocChunk, move", I + "GreedyAlloc.h"), ("allocate, Clear", I + "GreedyBlockAlloc.h"), ("Alloc, Dealloc, _allocChunk, _initChunk, Clear, moves", I + "BlockAlloc.h")], "Sequential histories only (concurrent use of GreedyAlloc and LocklessBlockAlloc is not covered, the lock itself is A16). Chunk initialisation of BlockAlloc is bounded to the listed block counts. Allocation failure is not modelled. " + NOTE)
P("A16", "The readers-writer lock excludes writers from everyone, under every interleaving",
  "Whatever any number of other threads do with the lock between any two of its atomic steps: when a writer acquisition (blocking, attempted, strict, or an upgrade) succeeds, no other thread holds a read or write lock; when a reader acquisition succeeds, no writer has exclusive access. A failed attempt leaves nothing behind (a failed upgrade keeps the read lock), every release gives back exactly what was held, no thread ever clears another's writer flag or uncounts another's reader, and a released lock is free again.",
  ["inputs", "schedules"], "all interleavings of the atomic steps of any number of threads (rely/guarantee: each operation is proved against an environment that may take any protocol steps between two of its own, and each own step is proved to be a protocol step)",
  "A lost exclusion needs a thread to run between two particular atomic operations of another; the stress tests sample a few schedules.",
  ["RWLock.h", "lockless.h"], [("Lock, AttemptLock, RLock, Upgrade, Downgrade", I + "RWLock.h"), ("asmbts", I + "lockless.h")], "Proved for every interleaving of atomic steps (sequential consistency of the lock word's read-modify-write operations; memory orderings are not modelled). Liveness (fairness of the spin loops) is not covered. " + NOTE)
P("A17", "Text conversions are exact and stay inside their buffers",
  "Converting UTF-32 to UTF-8 writes the standard encoding of every code point (of U+FFFD for what is none), as many whole code points as fit, never past the given buffer and never reading past the given length or the terminator; converting back gives the same text; asking for the size returns exactly what is needed plus the terminator. Any bytes at all can be given to the UTF-8 decoder without reading or writing out of bounds. Numbers become the digits that denote them, inside the buffer and terminated.",
  ["inputs"], "all texts, lengths and buffer sizes for memory safety, sizes and stopping points; all code points one at a time and in pairs for the encoding itself (bounded to two); itoa_r: all numbers in radix 16, five digits in radix 10, every radix for safety",
  "Buffer ends that fall inside a multi-byte character, truncated sequences and unterminated inputs depend on lengths and contents the tests do not vary.",
  ["bss-util/ConvertUTF.c", "bss-util/bss_util_c.c", "utf_conv.h"], [("UTF32toUTF8, UTF8toUTF32, isLegalUTF8", "bss-util/ConvertUTF.c"), ("itoa_r", "bss-util/bss_util_c.c")], "Encoding content is bounded to texts of two code points and a terminator; safety and sizes are unbounded. The UTF-16 functions (wchar_t, which has 32 bits here) are outside. " + NOTE)
N("N01", "Search trees keep their balance and order invariants",
  "Every insertion into and removal from the balanced trees keeps search order and the balance rule, keeps all other entries, and lookups are exact.",
  ["inputs", "histories"], "all trees and keys", "Rebalancing cases depend on tree shape.", ["AVLTree.h", "AATree.h", "TRBtree.h", "Trie.h"], [("rotations", I + "AVLTree.h, TRBtree.h, AATree.h")],
  "The trees are recursive heap structures with pointers to pointers; proving them needs inductive (separation-logic or footprint) predicates, which neither the verification condition generator built here (arrays with symbolic length, finitely many separate objects) nor any installed C++ verifier provides (CBMC's contracts are C only, Frama-C has no WP). A bounded stand-in would leave the family.")
N("N02", "Hash tables find exactly what was stored",
  "After any history of insertions, overwrites and removals the hash table holds exactly the last value of every key not removed, through growth and rehashing.",
  ["inputs", "histories"], "all histories, keys and hash collisions", "Probe sequences and deleted markers depend on history.", ["Hash.h", "khash.h"], [("probing, rehash in place", I + "Hash.h")],
  "Quadratic probing with an in-place cuckoo-style rehash: the loop invariant quantifies over probe sequences (nonlinear index functions modulo a power of two) and a permutation of live entries; it was out of reach of the quantifier instantiation used here.")
N("N03", "The lock-free queues and allocators are linearizable",
  "Items pushed concurrently into the lock-free queues come out exactly once and in order per producer; concurrent allocations never overlap.",
  ["schedules"], "all interleavings", "Races need particular interleavings.", ["LocklessQueue.h", "RingAlloc.h", "CacheAlloc.h", "BlockAllocMT.h"], [("CAS loops on tagged pointers", I + "LocklessQueue.h, lockless.h")],
  "Needs rely/guarantee over unbounded linked nodes plus an ABA argument over 128-bit compare-and-swap in inline assembly; the rely/guarantee support built for the readers-writer lock (A16) covers a single shared word, not a shared heap.")
N("N04", "Thread pool and scheduler run every task exactly once",
  "Every task given to the thread pool or scheduler runs exactly once, waits return only after completion, and destruction joins all workers.",
  ["schedules"], "all interleavings", "Lost wakeups need particular interleavings.", ["ThreadPool.h", "Scheduler.h", "Thread.h"], [("task loop", I + "ThreadPool.h")],
  "Depends on pthreads, condition/semaphore wake-ups and std::function; a deductive contract would have to assume exactly the scheduling facts in question.")
N("N05", "Text parsers and serializers round-trip every document",
  "Writing any value in the supported formats and parsing it back yields an equal value; malformed text never reads or writes out of bounds.",
  ["inputs"], "all documents", "Inputs are unbounded texts.", ["JSON.h", "XML.h", "TOML.h", "UBJSON.h", "Serializer.h", "INIparse.h"], [("parsers over std::istream", I + "JSON.h, TOML.h, UBJSON.h")],
  "The parsers work through std::istream, locale-dependent number extraction and std::string; their bodies are in the standard library's binary, so contracts would be assumed rather than proved for everything that matters.")
N("N06", "Floating-point geometry, vectors and random numbers are accurate",
  "Vector, matrix, distance, intersection, animation and random-distribution functions return the mathematically expected value within rounding.",
  ["inputs"], "all floating-point inputs", "Rounding and degenerate cases.", ["Geometry.h", "Collision.h", "vector.h", "sseVec.h", "KDTree.h", "Animation.h", "AliasTable.h", "XorshiftEngine.h"], [("SSE and float arithmetic", I + "vector.h, Geometry.h")],
  "No installed deductive back end handles the required floating-point accuracy reasoning (SMT floating point does not scale to products, square roots and SSE intrinsics), and a real-arithmetic abstraction would not be the code.")
N("N07", "Strings, string tables, variants and delegates keep their values",
  "String operations keep length and contents consistent, variants destroy the alternative they hold, delegates call the bound target.",
  ["inputs", "histories"], "all values and histories", "Lifetimes and aliasing depend on histories.", ["Str.h", "StringTable.h", "Variant.h", "Delegate.h"], [("std::string inheritance, member function pointers", I + "Str.h, Delegate.h")],
  "Str derives from std::basic_string (body outside /repo), and delegates and variants are dispatched through function-pointer tables built at run time; the generator does not follow indirect calls with unknown targets.")
