NOTES = dict(
C01='State: the sequence. Actions: push/emplace/append/insert(one, range, moved)/erase/pop/resize/assign/element writes/find/copy/eq/iteration both ways/const access. Layers layer1, layer2, layer3, allocator-backed; element types of 1, 2, 4, 12 bytes. Guard bytes surround caller storage. Oracle: the sequence.',
C02='State: the character sequence. A null-terminated string must have its terminator directly behind the content (checked by reading raw storage), guard bytes untouched. Layers 1/2/3, null-terminated and sized, unbounded layer2, allocator-backed.',
C03='State: the haystack (built up, or narrowed through a string_view). Every find/rfind/find_first_of/find_last_of/starts/ends/compare/equality/hash/substr with every needle and position within bounds; haystacks are exact-size heap blocks so over-reads trip ASan.',
C04='State: the sequence with capacity. deque, queue and stack adaptors; wrap-around reached exhaustively; moving the container relocates it and overwrites the source.',
C05='State: the bag, kept sorted by priority. priority_queue with less/greater/stateful comparators and free heap functions for k-ary heaps; every input order of up to n elements.',
C06='Two-level specification: the slot table (null / sparse / active, buckets as runs) refines the abstract map; action properties state that each operation changes the abstract content only as its name says. 1:1, 2:1 and colliding hashes.',
C07='State: the order of node identities (intrusive) or values (owning), links left behind by removal included; live node and value counts observed after each step. The `hofwd` and `hdbl` kinds allocate from a heap of handles whose blocks move at every last unlock, and count every touch without a lock and every lock kept.',
C08='State: alternative and value, or valueless; exceptions thrown by a copy/move/constructor are operations; live-object counts per alternative and alignment observed.',
C09='State: empty or value. Tracked throwing type, int, layer1 null-value and one-bit forms.',
C10='State: value or error, for five combinations of tracked and trivial types and void.',
C11='State: which references share the object. Result of each operation = number of disposals during it (`DisposedOnce`).',
C12='State: owner i holds callable b with private state; references follow owners. Every model implementation.',
C13='State: what each client slot stored. Observed: block in range, aligned, distinct, content undisturbed, count exact.',
C14='State: regions A and B with offsets, numbered bytes; C API and both C++ wrappers.',
C15='State: sequence, get and put positions; every kind of seek, bulk and single transfer; 8 and 32-bit characters; eof versus 0xFF.',
C16='State: buffer regions, sink room, numbered characters; refused/partial/accepting sinks interleaved.',
C17='State: ring regions, characters ready at the source, piece size.',
C18='State: position and state flags over fixed texts; result of unformatted input carries gcount.',
C20='State: parser phase, sign and digits (arbitrary precision digit sequences), independent of machine width. Texts at and around each type limit.',
C21='State: text written, width/fill/flags/base, state flags; sinks with limited room.',
C22='State: the array; each algorithm on each sub-range through each iterator kind; result = returned position or value.',
C23='State: backing bytes and the window.',
C24='State: two counts of a pair of duration types, exact arithmetic with wide integers; calendar as civil-day arithmetic.',
)
NOTES.update(
C25='State: one character code (or digit value); every classification and digit question about it. Exhaustive: 256 codes.',
C26='State: bytes hashed so far with their four FNV values computed by the specification in base 256; flags as bit sets; an integer as bytes.',
)
NOTES.update(
C27='State: the elements of two tuples (moved-out ones marked, references sharing outside variables); a second specification holds a list of types or values and answers every question about it.',
)
NOTES.update(
C28='State: position in the text, characters ready, closed or not, two iterators (live or end), the last proxy; the written sequence for the output iterators.',
)
NOTES.update(
C29='State: contents of two containers, the positions the user holds locked, room known, the accessor. The driver supplies a heap of handles that copies a block to a new address at each first lock and frees it at each last unlock (ASan sees any later use), and counts locks; the specification says how many are outstanding.',
)
NOTES.update(
C30='State: who holds the mutex (nobody, the guard, one of two unique locks, a hand lock, someone else) and for each unique lock whether it exists, names the mutex and owns it. The driver supplies a mutex that counts locking while held and unlocking while free. An adversary ("other") takes the mutex at any point, which decides try_lock and timed construction.',
)
NOTES.update(
C19='State: the outside array, the own entries of two maps, which maps exist. Lookup is defined as the first position with the key; aliasing (own array or shared) is part of the state, so that every write is checked to reach exactly the maps it must.',
)
NOTES.update(
C31='State: the count (of a double in 64ths, so that every printed decimal is exact), width, base and case of the stream. Text is computed by the specification; the driver adds a unit of its own.',
)
NOTES.update(
C32='State: the type at hand, as layers of qualification, pointers, references and arrays over a base type. The driver instantiates every type of the universe and finds the node each computation leads to by its own description (partial specialisations matched by the compiler); the specification says which type that must be and what is true of it.',
C33='State: the ratio at hand (an index into a table, whose products, quotients and sums lead to other entries); the other questions are asked from one state. Limits are computed from the bit width, inheritance from the class graph, conversions from rules. A second specification (Common) folds types through common_type by the language rules, and keeps ratios as exponents of 2, 3 and 5, which reach 62 bits without wide arithmetic.',
)
NOTES.update(
C34='State: the number each of two objects holds (the second of a derived class) and the object each of three reference wrappers denotes. One operation calls each of 19 callees (members of every qualification, data members, functions, function objects) on the object given in each of 12 ways (lvalue, rvalue, const, raw or class pointer, wrapper); the specification says whether the language admits the call, the type of the result, the overload taken, the copies and moves of the argument. Signatures are enumerated: 6 forms, 3 results, all parameter lists up to three of four types.',
C35='The real wrappers are compiled against a stand-in for the FreeRTOS API (drivers/rtos: a kernel with a tick count of which time passes only while the one task waits; another task or interrupt acts a given number of ticks into a wait, so every relation of the event to the timeout is enumerated). State: count, holder and depth of a lock; contents and room of a queue; bits of a group, and who set them while we waited; whether a timer runs, its period and when it is due; notification value and state of a task. Kernel objects are counted, so an object freed twice or not at all is seen; a call the kernel would assert on is reported.',
C36='State: position in the file and stream state (reading); bytes accepted, bytes at the device, stream state (writing). The real FILE of the C library runs over a device of ours (fopencookie) which seeks or not, delivers in pieces, fills up, or refuses once; where the file stands is compared after every step with what the device gave less what the library still holds. C code reads and writes the same file in between. What a file holds after it failed to flush is not promised.',
)
NOTES.update(
C37="The units of other properties, with their specifications unchanged, compiled with drivers/nostd.h in front, which withdraws the library's FEATURE_STD_* switches; the drivers themselves still use std, on their own side. Not withdrawn, since the host offers no way without: cstdlib, iterator, string, utility, new. Three large units (tuple, calendar, durations) run in the thorough tier only.",
C38='The units of other properties, with their specifications unchanged, compiled as C++11 (the larger part), C++14 and C++20, with -funsigned-char -fshort-enums, in several translation units where the driver has parts (vector, hashmap). Nine large units run in the thorough tier only. Functions need C++17 here: the driver returns objects that are not movable.',
)
