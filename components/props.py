from registry import prop

BOUNDED = ('Exhaustive over the specification state graph at the stated small bounds, with every transition replayed '
           'into the real code; larger parameters are sampled by seeded random traces that TLC validates against the same '
           'specification. Trusts TLC, the driver glue, gcc and AddressSanitizer.')

prop('C01', ['vector'],
     'Vectors are exact bounded sequences in every storage layer',
     'After any history of push, emplace, append, insert, erase, pop, resize, assign and element writes that stays within '
     'capacity, a vector of trivially copyable elements (inline, pointer-backed, runtime-sized or allocator-backed storage) '
     'holds exactly the sequence a mathematical list would, and size, empty, capacity, front, back, indexing, copy-out, '
     'equality, find and iteration in both directions all agree with it. No operation touches memory outside the vector\'s '
     'own storage, and copies of inline vectors are independent.',
     ['histories', 'inputs', 'configurations'],
     'every operation history within capacity, for every element value, position, element size and storage layer',
     'Unit tests push and erase a handful of ints in one or two histories; shifting, overlapping moves and element-size '
     'scaling only go wrong for particular positions, lengths, element sizes and preceding histories.',
     ['src/estd/vector.h', 'src/estd/internal/dynamic_array.h', 'src/estd/internal/runtime_array.h',
      'src/estd/internal/impl/dynamic_array.h', 'src/estd/allocators/fixed.h', 'src/estd/internal/container/iterator.h'],
     [dict(name='grow/ensure_additional_capacity and helper copy', where='src/estd/internal/dynamic_array.h'),
      dict(name='raw_insert/copy_assist/move_assist backward shifting, _erase memmove', where='src/estd/internal/dynamic_array.h')],
     state=[dict(name='explicit length', meaning='number of live elements', where='src/estd/internal/impl/dynamic_array.h')],
     observe=['size()', 'operator[]', 'begin()/end()', 'guard bytes around caller storage'],
     level_note=BOUNDED)

prop('C02', ['string_mut'],
     'String mutation is exact, terminated and in-bounds in every layer',
     'After any history of assignments, appends, +=, inserts, erases, truncating resizes and character writes that fits its '
     'capacity, a string in any storage layer (inline, pointer-backed bounded or unbounded, runtime-sized, allocator-backed) holds '
     'exactly the expected character sequence, and size, length, empty, indexing, iteration, copy-out and conversion to a view '
     'agree with it. A null-terminated string always has its terminator right after its content, and no operation writes outside '
     'the string\'s storage.',
     ['histories', 'inputs', 'configurations'],
     'every mutation history within capacity, every character value, position and count, each storage layer and sizing policy',
     'The tests exercise each call once or twice on short literals; off-by-one terminators, shifts at the ends and count clamping '
     'depend on particular lengths, positions and histories.',
     ['src/estd/internal/string.h', 'src/estd/internal/layer1/string.h', 'src/estd/internal/layer2/string.h',
      'src/estd/internal/layer3/string.h', 'src/estd/internal/dynamic_array.h', 'src/estd/internal/impl/dynamic_array.h'],
     [dict(name='dynamic_array_length (terminator versus counter)', where='src/estd/internal/impl/dynamic_array.h'),
      dict(name='raw_insert, _erase, append, assign', where='src/estd/internal/dynamic_array.h')],
     state=[dict(name='terminator position or explicit length', meaning='end of content', where='src/estd/internal/impl/dynamic_array.h')],
     observe=['size()/length()', 'operator[]', 'data()', 'guard bytes around caller storage'],
     level_note=BOUNDED)

prop('C03', ['string_search'],
     'String search, comparison and views agree with their definitions',
     'For every content, needle and start position, find, rfind, find_first_of, find_last_of, starts_with and ends_with on any string '
     'layer or string_view return exactly the absolute position (or npos / false) their definition prescribes, including empty, '
     'over-long and end-aligned needles, and never read outside the content. Equality, hash and a zero compare coincide with equal '
     'content in every layer; compare otherwise orders by length and then by character code. Narrowing a view (remove_prefix, '
     'remove_suffix, substr) yields exactly the selected sub-range, clamped to the view.',
     ['inputs', 'configurations'],
     'every haystack, needle, start position and count, for every string layer and needle form (C string, pointer and count, string, view)',
     'Tests search a couple of literals from position 0; boundaries between needle length, position and end of content are only hit '
     'for particular combinations.',
     ['src/estd/internal/runtime_array.h', 'src/estd/internal/string.h', 'src/estd/string_view.h',
      'src/estd/internal/container/starts_with.h', 'src/estd/internal/container/ends_with.h', 'src/estd/algorithm.h'],
     [dict(name='find/rfind/find_first_of/find_last_of', where='src/estd/internal/runtime_array.h'),
      dict(name='starts_with_n / ends_with_n', where='src/estd/internal/container/'),
      dict(name='view narrowing', where='src/estd/string_view.h')],
     observe=['return values', 'exact-size heap buffers under AddressSanitizer'],
     level_note=BOUNDED)

prop('C04', ['deque'],
     'Fixed-capacity queues, deques and stacks are exact across wrap-around and full',
     'For every capacity and every history of pushes, emplaces and pops at either end, the inline deque, the queue over it and the '
     'inline stack hold exactly the pushed elements not yet popped, in order, across any number of wrap-arounds; size, empty, front, '
     'back and iteration in either direction always agree with that sequence, including when completely full. A push on a full queue '
     'or deque and a pop on an empty one return false and change nothing. A move-constructed deque or queue owns its content '
     'independently of the source.',
     ['histories', 'inputs', 'configurations'],
     'every interleaving of operations at both ends, every capacity, every trivially copyable element type',
     'Whether a ring is right depends on where the indices are relative to the array end and on full versus empty, i.e. on the '
     'preceding history; tests wrap once on one capacity.',
     ['src/estd/queue.h', 'src/estd/stack.h', 'src/estd/internal/array.h'],
     [dict(name='evaluate_rollover/evaluate_rollunder and m_empty', where='src/estd/queue.h'),
      dict(name='deque move constructor rebases positions', where='src/estd/queue.h')],
     state=[dict(name='m_front, m_back, m_empty', meaning='ring positions and the full/empty disambiguation', where='src/estd/queue.h')],
     observe=['push/pop return values', 'size()/empty()', 'front()/back()', 'iteration'],
     level_note=BOUNDED)

prop('C05', ['pqueue'],
     'Priority queues always yield the highest-priority element, losing nothing',
     'For every history of pushes, emplaces, pops and erases, for every comparator (ascending, descending or stateful) and capacity, the top of a '
     'priority_queue is a highest-priority element of its content, popping it repeatedly returns the whole content in priority order, '
     'and erasing removes exactly the selected element. make_heap, push_heap and pop_heap permute their range without losing elements '
     'and establish heap order for every input, length (including empty) and heap arity, without touching memory outside the range.',
     ['histories', 'inputs', 'configurations'],
     'every push/pop/erase history, every input permutation with duplicates, every arity',
     'Sift-up and sift-down mistakes only show for particular permutations, duplicates and sizes relative to the arity.',
     ['src/estd/internal/priority_queue.h', 'src/estd/internal/algorithm/heap.h', 'src/estd/internal/value_evaporator.h', 'src/estd/queue.h'],
     [dict(name='restore_up / restore_down / make', where='src/estd/internal/algorithm/heap.h'),
      dict(name='priority_queue erase / erase_if rebalance', where='src/estd/internal/priority_queue.h')],
     observe=['top()', 'pop order', 'size()/empty()', 'heap order of the array'],
     level_note=BOUNDED)

prop('C06', ['hashmap'],
     'Fixed-capacity hash maps and sets never lose, invent or misplace entries',
     'After any history of insert, emplace, assign, erase, garbage-collecting erase and clear, an unordered_map or unordered_set holds exactly '
     'the entries inserted and not erased: find, contains, count, operator[], size, empty, bucket listing and iteration all agree with '
     'that content. An insert either stores the entry and reports success, or reports failure (key already present, null key, or no slot '
     'in its bucket) and changes nothing; duplicate keys appear only when asked for. insert_or_assign reports true only when it inserted. '
     'Erasing or inserting one key never affects another, and never '
     'moves another entry except in the explicitly garbage-collecting calls. Set equality depends on content only. No operation reads '
     'or writes outside the table.',
     ['histories', 'inputs', 'configurations'],
     'every history of insertions and erasures, every hash distribution and collision pattern, every table size, several key and value types',
     'Losing an entry needs a specific pattern of collisions, an erase in the middle of a bucket and a later insert in a neighbouring '
     'bucket; tests exercise a few keys that barely collide.',
     ['src/estd/internal/container/unordered/base.h', 'src/estd/internal/container/unordered/traits.h',
      'src/estd/internal/container/unordered_map.h', 'src/estd/internal/container/unordered_set.h'],
     [dict(name='insert_precheck linear probing', where='src/estd/internal/container/unordered/base.h'),
      dict(name='erase_ll / prune_sparse_ll / gc_active_ll / erase_and_gc_ll', where='src/estd/internal/container/unordered_map.h')],
     state=[dict(name='slot table with null / sparse / active slots', meaning='open hashing, bucket = run from 4*hash % N', where='src/estd/internal/container/unordered/traits.h')],
     observe=['find/contains/count', 'iteration', 'insert and erase results', 'addresses of mapped values'],
     level_note=BOUNDED)

prop('C07', ['list'],
     'Linked lists keep exactly their linked elements, in order',
     'After any history of pushes, pops, insert_after / insert, erase_after / replace_after and removals by value or predicate '
     '(all matches or first only), a forward list, forward list with back, or doubly linked list contains exactly the elements linked '
     'and not yet removed, each once and in order; iteration in every supported direction, iterator arithmetic, front, back and empty '
     'agree with it. A node of an intrusive list may leave and re-enter lists in any order. Lists which allocate their nodes destroy and '
     'free an element exactly once, when it is removed; over an allocator of handles they touch a node only under its lock and keep none.',
     ['histories', 'inputs', 'configurations'],
     'every operation history, every pattern of matching elements, intrusive and node-allocating lists',
     'Link surgery goes wrong only for particular neighbours (consecutive matches, last element, list just emptied, reused node), '
     'which depends on the history; the tests link three or four nodes once.',
     ['src/estd/forward_list.h', 'src/estd/list.h', 'src/estd/internal/list_node.h', 'src/estd/internal/reverse_list.h',
      'src/estd/internal/list/intrusive_forward.h', 'src/estd/iterators/list.h', 'src/estd/traits/list_node.h'],
     [dict(name='remove_if previous/current splice', where='src/estd/forward_list.h'),
      dict(name='set_front/set_back and m_back upkeep', where='src/estd/internal/list_node.h'),
      dict(name='insert before: prev/next relinking', where='src/estd/list.h')],
     state=[dict(name='m_front, m_back, next/prev links', meaning='the list content', where='src/estd/internal/list_node.h')],
     observe=['iteration', 'front()/back()/empty()', 'returned iterators', 'live element and node counts'],
     level_note=BOUNDED)

prop('C08', ['variant'],
     'A variant holds exactly one live alternative, or is valueless',
     'After any history of construction, copy, move, assignment, emplacement and exceptions thrown by alternatives, a variant reports exactly '
     'the alternative and value last stored; every accessor for that alternative yields it and every accessor for another one is refused '
     '(null from get_if, bad_variant_access from get, false from holds_alternative); visiting calls the visitor once, with that alternative. '
     'Each alternative is constructed in aligned storage, used only while alive and destroyed exactly once. Self copy assignment keeps the value. '
     'If an assignment throws the variant holds either its old value or nothing; if an emplacement throws it is valueless. Storing into a '
     'valueless variant makes it usable again.',
     ['histories', 'inputs', 'crashes'],
     'every operation history over pairs of variants, exceptions at any constructing operation, trivial, non-trivial, throwing, non-assignable and over-aligned alternatives',
     'A double destroy or leak appears only for a particular transition between alternatives, often with an exception in the middle.',
     ['src/estd/variant.h', 'src/estd/internal/variant.h', 'src/estd/internal/variant/storage.h', 'src/estd/internal/variant/accessors.h', 'src/estd/internal/variadic/visitor.h'],
     [dict(name='assign_or_init / assignment_helper / direct_init_helper', where='src/estd/internal/variant/storage.h'),
      dict(name='assignment, move and copy functors', where='src/estd/internal/variant.h')],
     state=[dict(name='index_ and raw storage', meaning='which alternative lives there', where='src/estd/internal/variant.h')],
     observe=['index()', 'get/get_if/holds_alternative', 'visit_index', 'live objects per alternative'],
     level_note=BOUNDED)

prop('C09', ['optional'],
     'An optional is either empty or holds exactly the value last stored',
     'After any history of construction, copy, move, conversion, value and optional assignment, emplacement, reset and nullopt assignment '
     '(including ones where the contained type throws), an optional reports has_value exactly when it holds a value, and then every accessor '
     'yields the value last stored; value() on an empty optional is refused with bad_optional_access and value_or yields the default. '
     'Comparisons with values and between optionals and the hash of an optional agree with that (empty ones hash alike). A contained object lives in aligned storage, is used only while alive '
     'and destroyed exactly once. For the sentinel-valued optional, storing the sentinel is being empty; the one-bit optional behaves as any other.',
     ['histories', 'inputs', 'crashes', 'configurations'],
     'every operation history over pairs of optionals, exceptions from the contained type, ordinary, sentinel and one-bit representations',
     'Leaks and double destroys depend on whether the optional was engaged before the operation and on exceptions in the middle of it.',
     ['src/estd/optional.h', 'src/estd/internal/optional.h', 'src/estd/internal/variant/storage.h'],
     [dict(name='assign_value / emplace / reset', where='src/estd/optional.h'),
      dict(name='converting constructors (in_place_conditional)', where='src/estd/internal/optional.h')],
     state=[dict(name='storage and has_value flag, null value or bit', meaning='the optional', where='src/estd/internal/optional.h')],
     observe=['has_value()', 'value()/operator*/value_or', 'comparisons', 'live objects'],
     level_note=BOUNDED)

prop('C10', ['expected'],
     'An expected holds exactly one of value and error, the one last stored',
     'After any history of construction (value, in place, default, error, unexpected of the same or another error type, copy, move), value '
     'assignment, error assignment and emplacement, an expected holds either the value or the error last stored, and has_value, bool, '
     'operator*, error(), value_or agree; value() on an error is refused with bad_expected_access carrying that error. Whichever of the two is '
     'held is the only one alive, and is destroyed exactly once. The same for void values.',
     ['histories', 'inputs', 'configurations'],
     'every operation history over pairs of expecteds, trivial, tracked and void value types with trivial and tracked error types',
     'Destroying or assigning the wrong member depends on what was held before; tests use trivial types where this is invisible.',
     ['src/estd/expected.h', 'src/estd/internal/expected.h', 'src/estd/internal/raw/expected.h', 'src/estd/internal/variant/storage.h'],
     [dict(name='assign_value/assign_error via assign_or_init', where='src/estd/internal/expected.h'),
      dict(name='destroy by has_value_', where='src/estd/expected.h')],
     state=[dict(name='has_value_ and storage', meaning='value or error', where='src/estd/expected.h')],
     observe=['has_value()', 'operator*, value(), error(), value_or', 'live values and errors'],
     level_note=BOUNDED)

prop('C11', ['shared'],
     'A shared object lives exactly as long as somebody refers to it',
     'Through any history of constructing, copying, moving, assigning (also to itself), swapping, resetting and destroying references to a '
     'master shared_ptr (inline or adopting, with or without a deleter), and of resetting the master, the managed object is disposed of '
     'exactly once, at the moment its last reference goes, and never before; use_count of every reference equals the number of '
     'references; every reference sees the same object. The same for linked references: the shared value is destructed exactly once, when the '
     'last reference sharing it goes, whatever the order in which the ring was built and taken apart. (The master object itself, which holds '
     'the count, outlives the references.)',
     ['histories', 'configurations'],
     'every history over a master and three references, inline and adopted objects, with and without deleters; every ring of four linked references',
     'Miscounting needs a particular sequence (master reset first, copy of a copy, self assignment, move); the tests walk one path each.',
     ['src/estd/memory.h', 'src/estd/internal/linked_ref.h', 'src/estd/internal/list/intrusive_forward.h'],
     [dict(name='shared_count upkeep in shared_ptr2_base', where='src/estd/memory.h'),
      dict(name='ring insertion and removal', where='src/estd/internal/linked_ref.h')],
     state=[dict(name='control block shared_count/is_active, layer3 control pointer', meaning='who refers', where='src/estd/memory.h')],
     observe=['use_count()', 'get(), ->, *', 'disposals per operation', 'ring via next()'],
     level_note=BOUNDED)

prop('C12', ['func'],
     'A type-erased function calls exactly the callable it was given',
     'Calling a function (allocating, inline, model-based with each implementation, bound to a method or to extra context) calls the one callable '
     'stored in it, once, with the arguments passed (values, references, in order) and returns its result; state kept by the callable '
     'persists between calls through any owner or reference to it. The callable is copied or moved in (an lvalue given stays as it was), '
     'lives inside its owner and is destroyed exactly once: with the owner, on reassignment, or right after the call for single-shot '
     'models. Moving an allocating function transfers the callable and leaves the source empty; copying an inline or method function makes an '
     'independent one. Function references are null or call their target.',
     ['histories', 'configurations'],
     'every history over two owners and two references for each of the twelve kinds of callable holder; argument values sampled',
     'Which callable runs, and whether it is alive, depends on the moves, copies and reassignments before the call.',
     ['src/estd/functional.h', 'src/estd/internal/functional.h', 'src/estd/internal/impl/functional.h', 'src/estd/internal/impl/functional/fnptr1.h',
      'src/estd/internal/impl/functional/fnptr2.h', 'src/estd/internal/impl/functional/virtual.h'],
     [dict(name='model exec and model_base call', where='src/estd/internal/impl/functional/fnptr2.h'),
      dict(name='experimental::function construction, move and reset', where='src/estd/functional.h'),
      dict(name='thisify / contextify models', where='src/estd/internal/functional.h')],
     state=[dict(name='m, model::f, foreign_this, _deleter', meaning='the callable and who owns it', where='src/estd/functional.h')],
     observe=['call results and argument effects', 'operator bool', 'live callables'],
     level_note=BOUNDED)

prop('C13', ['pool'],
     'A memory pool hands out each block to one owner at a time',
     'A pool of N blocks (N up to 128) hands out, through any history of allocating and freeing, blocks that lie inside the pool, are aligned, '
     'and overlap no block that is still owned; it refuses (null) exactly when N blocks are owned and a freed block can be had again; '
     'what an owner stores in a block stays as stored until the owner frees it; the free count and full() are exact; the handle of a block '
     'is in range and leads back to that block. A typed pool constructs an object once per successful emplace, with the arguments given, and '
     'destroys it once on erase. The experimental pools (handle list, pointer list, bare linked list) keep the same promises, except that of '
     'alignment.',
     ['histories', 'configurations'],
     'every allocate/free/write history of pools of up to 3 (thorough 4) blocks of 1, 3, 8, 24 bytes and typed; sampled histories up to 128 blocks',
     'Free-list damage shows only after particular free/allocate orders; the tests allocate a handful and stop.',
     ['src/estd/internal/memory/v1/pool.h', 'src/estd/exp/memory/memory_pool.h', 'src/estd/exp/memory/memory_pool2.h'],
     [dict(name='free list threaded through the blocks', where='src/estd/internal/memory/v1/pool.h')],
     state=[dict(name='head_free_, control::next_', meaning='the free list', where='src/estd/internal/memory/v1/pool.h')],
     observe=['alloc/emplace results', 'block contents', 'available_blocks(), full()', 'to_handle/from_handle'],
     level_note=BOUNDED)

prop('C14', ['bip'],
     'The bi-partite ring buffer is a lossless FIFO with contiguous views',
     'Through any history of offers (all-or-nothing, refused exactly when they exceed unused()), in-place writes of at most unused() bytes through '
     'offer_begin/offer_end, peeks and polls of any size, on the C functions and both C++ wrappers, bytes come out exactly once, unchanged '
     'and in the order they went in; peek and poll of more than is contiguously available are refused and change nothing; the memory a successful peek '
     'or poll returns holds the next bytes; used() counts what is held; nothing outside the buffer is touched.',
     ['histories', 'sizes'],
     'every history over buffers of 1-4 (thorough 1-6) bytes, all request sizes from 0 to capacity + 1; sampled histories up to 50 bytes',
     'Order and extent depend on where the regions lie when the buffer wraps; tests offer thrice into an empty buffer and poll once.',
     ['src/estd/ext/willemt/bipbuffer/bipbuffer.c', 'src/estd/internal/bip/buffer.h'],
     [dict(name='region switch', where='src/estd/ext/willemt/bipbuffer/bipbuffer.c'),
      dict(name='offer_begin/offer_end', where='src/estd/internal/bip/buffer.h')],
     state=[dict(name='a_start, a_end, b_end, b_inuse', meaning='the two regions', where='src/estd/ext/willemt/bipbuffer/bipbuffer.h')],
     observe=['offer/peek/poll results and bytes', 'used, unused, is_empty'],
     level_note=BOUNDED)

prop('C15', ['sbuf'],
     'Span and string stream buffers read and write exactly their sequence',
     'For the input span buffer, the string buffers over layer1, layer2 and layer3 strings, and the output span (8 and 32-bit characters) and string buffers: any '
     'sequence of sgetc, sbumpc, snextc, sgetn, sungetc, in_avail and seeks yields the characters (including 0xFF, distinct from eof) of the sequence at the current '
     'position, eof exactly at its end, whatever its length; sputc/sputn store in order at the put position as much as fits, report how much that was, and never '
     'touch memory beyond the span or string; the get position survives writes; seeks return the position they led to, or failure without moving when that '
     'would be outside the sequence or the mode is not supported.',
     ['histories', 'inputs'],
     'every history over sequences of up to 4 (thorough 7) characters and capacities up to 3 (4); sampled histories over up to 3000, and 70000, characters',
     'Positions near the ends, capacities exceeded by one and long sequences are where stream buffers fail; tests use short well-sized ones.',
     ['src/estd/internal/impl/streambuf/span.h', 'src/estd/internal/impl/streambuf/string.h', 'src/estd/internal/impl/streambuf/pos.h',
      'src/estd/streambuf.h', 'src/estd/internal/impl/streambuf/helpers.h'],
     [dict(name='position keeping and seeks', where='src/estd/internal/impl/streambuf/pos.h'),
      dict(name='sputn overflow handling', where='src/estd/streambuf.h')],
     state=[dict(name='_pos, str_, span', meaning='position and sequence', where='src/estd/internal/impl/streambuf/pos.h')],
     observe=['characters and counts returned', 'in_avail, sgetc', 'memory written'],
     level_note=BOUNDED)

prop('C16', ['bufout'],
     'Buffered output stream buffers lose, duplicate and reorder nothing',
     'For the string-buffered and bipartite-ring-buffered output stream buffers over any sink, including one that accepts only part of what it is offered or nothing '
     'at all for a while: after any sequence of sputc, sputn, pubsync and overflow calls, the characters delivered to the sink followed by those still buffered are exactly '
     'the characters reported as accepted, in order, whatever their values (0x00 and 0xFF included); a character is refused (reported, not dropped) only when the buffer is full and the sink has no room; '
     'pubsync reports success only when nothing is left pending; sputn of more than the buffer holds goes on flushing and storing as long as the sink takes part; nothing is written past the buffer.',
     ['histories', 'inputs'],
     'every history of writes, flushes and sink room changes over buffers of 1-3 (thorough 1-4) characters; sampled histories over 8 and 64',
     'Partial writes by the sink while the ring is wrapped are the interesting cases; the tests use a sink that always has room.',
     ['src/estd/internal/impl/streambuf/buffer.h', 'src/estd/internal/impl/streambuf/bipbuf.h', 'src/estd/streambuf.h', 'src/estd/internal/bip/buffer.h'],
     [dict(name='sync and overflow of the string buffer', where='src/estd/internal/impl/streambuf/buffer.h'),
      dict(name='sync and overflow of the bipbuffer', where='src/estd/internal/impl/streambuf/bipbuf.h'),
      dict(name='sputn', where='src/estd/streambuf.h')],
     state=[dict(name='buf_', meaning='characters accepted and not yet delivered', where='src/estd/internal/impl/streambuf/buffer.h')],
     observe=['what the sink receives', 'accepted counts', 'pubsync result'],
     level_note=BOUNDED)

prop('C17', ['bufin'],
     'Buffered input delivers its source once, in order',
     'For the bipartite-ring-buffered input stream buffer over a source that has characters ready at some times and not at others and hands them over in pieces: any sequence of '
     'sgetc, sbumpc, snextc, sgetn and pubsync calls yields the source characters (0x00 and 0xFF included) exactly once and in order; sgetc and pubsync consume nothing; end of file is reported only '
     'when neither the buffer nor the source has a character; sgetn stops short only then; in_avail() counts what is buffered and the get area shown is readable and contiguous.',
     ['histories', 'inputs'],
     'every history of reads and arrivals over buffers of 1-3 (thorough 1-4) bytes and pieces of 1, 2 and all; sampled histories over 8 and 64 bytes',
     'Loss and duplication depend on where the ring is wrapped when a read spans it; the test reads one character once.',
     ['src/estd/internal/impl/streambuf/bipbuf.h', 'src/estd/internal/impl/streambuf/helpers.h', 'src/estd/streambuf.h', 'src/estd/internal/bip/buffer.h'],
     [dict(name='in_buffered_bipbuf', where='src/estd/internal/impl/streambuf/bipbuf.h'),
      dict(name='sbumpc', where='src/estd/internal/impl/streambuf/helpers.h')],
     state=[dict(name='buf_', meaning='characters taken from the source and not yet read', where='src/estd/internal/impl/streambuf/bipbuf.h')],
     observe=['characters read', 'what the source has left', 'in_avail'],
     level_note=BOUNDED)

prop('C18', ['istream'],
     'Input streams read exactly the sequence and report it in their state',
     'For input streams over layer1 string buffers, layer2 C strings and spans (with 0x00 where the sequence may hold it), in every state: get, peek, unget, read, readsome, getline, ignore, seekg, ws, '
     'extraction of a char and of a word, clear and setstate consume exactly the characters they stand for (any value, 0x00 and 0xFF included) and no others; gcount() is the number of characters the '
     'last unformatted operation extracted; getline stores at most count - 1 characters, always terminates them, extracts but does not store the delimiter; a word read into a fixed '
     'string stops at its capacity; reading past the end sets eofbit, and failbit where nothing or too little was read; ignore alone does not fail at the end; a formatted read on a stream that is not good fails and reads nothing; '
     'seekg outside the sequence fails and stays; a sync the buffer refuses sets badbit; error bits stay until clear, unget (eof) or seekg; nothing is written outside the buffers given.',
     ['histories', 'inputs'],
     'every history over all texts of up to 2 characters of a 4-letter alphabet and 5 longer ones, counts and offsets up to 3 (thorough 5); sampled histories over texts up to 260 characters',
     'gcount, terminators and state bits at the exact end of the text, a full buffer or a delimiter are what samples miss; getline, ignore, unget and gcount have no tests.',
     ['src/estd/internal/istream.h', 'src/estd/istream.h', 'src/estd/internal/istream_runtimearray.hpp', 'src/estd/internal/ios_base.h', 'src/estd/internal/ios_policy.h'],
     [dict(name='unformatted input', where='src/estd/internal/istream.h'), dict(name='word input', where='src/estd/internal/istream_runtimearray.hpp'),
      dict(name='ws and char input', where='src/estd/istream.h')],
     state=[dict(name='iostate_, _gcount', meaning='stream state and count', where='src/estd/internal/ios_base.h')],
     observe=['characters, gcount', 'rdstate, good, fail, bad, eof', 'characters left'],
     level_note=BOUNDED)

prop('C19', ['fixmap'],
     'Fixed maps find exactly the entry under the key',
     'A map over a fixed array of entries (its own copy, built from an array or a list, or somebody else\'s array in place) gives for a key a pointer to the value of the first entry with that key, or null exactly when there is none; two lookups of one key give the same '
     'place; writing through the pointer changes that entry and no other; a lookup adds nothing. A map with its own array is unaffected by later changes of the array it was made from and by its copies; a map over an outside array, and every copy of it, sees each change '
     'of that array, and changes made through it are changes of that array.',
     ['histories', 'inputs', 'configurations'],
     'four kinds of map, three key types; every history over two maps of 1 or 2 (thorough: 3) entries with 3 keys, equal keys included; sampled histories of maps of up to 6 entries over 32-bit values',
     'Tests look up one key once in each kind of map; first, last, duplicate and absent keys, and what copies share, are not looked at.',
     ['src/estd/map.h', 'src/estd/internal/legacy/array.h', 'src/estd/array.h'],
     [dict(name='operator[]', where='src/estd/map.h'), dict(name='map_base', where='src/estd/map.h')],
     state=[dict(name='m_map', meaning='the entries, or where they are', where='src/estd/map.h')],
     observe=['value found under each probed key', 'position of the entry found', 'content of the outside array'],
     level_note=BOUNDED)

prop('C20', ['numget'],
     'Numbers are read exactly or reported as failed',
     'For reading an integer of 8 to 64 bits (either signedness), a bool or a floating point number by operator>>, num_get (over any range) or the incremental num_get in base 8, 10 or 16, and for from_chars in any base: '
     'leading spaces are skipped (operator>> only), then the longest run of an optional minus (signed types) and digits of the base is consumed and nothing after it; the value is exactly that number when the type can hold it, '
     'the lowest and highest values included; when it cannot, failure is reported, all its digits are consumed and the value is the limit it passed (from_chars: result_out_of_range, value untouched); when there is no digit, '
     'failure is reported (from_chars: invalid_argument, value and position untouched); end of input is reported exactly when it was reached; a floating point number has one decimal point; a bool is 0 or 1, or its name when '
     'boolalpha is set; a stream that is not good or is exhausted fails, and a loop of reads ends. stol, stoul and stoi of a null-terminated string read white space, a sign, an 0x where the base is 16 or 0 and the longest run of digits, saturate at the limits of long, and report how many characters that was - none when there is no digit.',
     ['inputs', 'histories'],
     'every history over all texts of up to 3 characters of a 6-letter alphabet and 38 chosen ones (every type limit and its neighbours), for a signed and an unsigned type, bool and double; every character sequence into the 8-bit '
     '(thorough: 16-bit) incremental parsers; sampled texts around every limit of every type in every base, up to 290 characters',
     'Limits, signs without digits, and what follows the number decide; tests read 123, -123 and "whoops".',
     ['src/estd/internal/locale/iterated/num_get.h', 'src/estd/internal/locale/num_get.h', 'src/estd/internal/locale/cbase.h', 'src/estd/internal/raise_and_add.h', 'src/estd/internal/charconv/from_chars.hpp',
      'src/estd/istream.h', 'src/estd/internal/chooser.h', 'src/estd/string.h'],
     [dict(name='num_get state machine', where='src/estd/internal/locale/iterated/num_get.h'), dict(name='from_chars_integer', where='src/estd/internal/charconv/from_chars.hpp'),
      dict(name='numeric operator>>', where='src/estd/istream.h')],
     state=[dict(name='state_, v', meaning='phase and value so far', where='src/estd/internal/locale/iterated/num_get.h')],
     observe=['value', 'error', 'characters left', 'stream state'],
     level_note=BOUNDED)

prop('C21', ['ostream'],
     'Numbers and text are written exactly, or the failure is reported',
     'For integers of 8 to 64 bits of either signedness: to_chars, to_chars_opt (either case), to_chars_exp in bases 2 to 36, to_string, to_string_opt and num_put produce exactly the number (a minus sign and digits, the lowest and '
     'highest values included) whenever the buffer has room for it, report value_too_large when it has not, and never write outside it. For output streams over layer1 strings, character spans and devices: <<, put, write, endl append '
     'exactly the characters they stand for - numbers in the base and case set, numbers and characters padded with the fill (space to underscore) to the width (up to 15) on the side set, after which the width is 0; '
     'other output ignores and keeps the width; what does not fit is cut off and makes the stream fail; fail() stays until clear(); flush, endl and unit buffering hand everything to the device, whose refusal makes the stream fail; tellp is the position '
     'and -1 on a failed stream; seekp moves within a span or fails and stays.',
     ['inputs', 'histories'],
     'all limits of all types and small numbers, in bases 2, 8, 10, 16, 36, in every buffer size that matters; every history of writes, flags, widths, failures and seeks over outputs of 2-4 characters; sampled histories over outputs up to 250 '
     'characters and numbers of every width',
     'Buffer arithmetic at the exact size, the lowest value, fills and state bits on a full device are not tested.',
     ['src/estd/internal/charconv.hpp', 'src/estd/charconv.h', 'src/estd/internal/charconv/reverse.hpp', 'src/estd/internal/to_string.h', 'src/estd/internal/limits/traits.h', 'src/estd/internal/ostream.h', 'src/estd/ostream.h',
      'src/estd/internal/ostream/integer.h', 'src/estd/internal/locale/num_put.h', 'src/estd/internal/locale/cbase.h', 'src/estd/iomanip.h', 'src/estd/internal/ostream_basic_string.hpp'],
     [dict(name='to_chars_integer_opt', where='src/estd/internal/charconv.hpp'), dict(name='write_filled_buffer', where='src/estd/internal/ostream/integer.h'), dict(name='basic_ostream', where='src/estd/internal/ostream.h'),
      dict(name='num_put', where='src/estd/internal/locale/num_put.h')],
     state=[dict(name='width_, fmtfl_, iostate_, fillchar', meaning='format and state', where='src/estd/internal/ios_base.h')],
     observe=['text written', 'stream state, width, fill', 'position', 'what the device has not been handed'],
     level_note=BOUNDED)

prop('C22', ['algo'],
     'Sequence algorithms compute their definition on every range',
     'On any range (empty, whole or part) reached through pointers, array, vector, bidirectional or forward iterators: fill, fill_n, copy, copy_n, copy_backward, move_backward (also overlapping where the direction allows it), reverse, iter_swap '
     'change exactly the positions they name and return the position after (before) the last; find_if, search, find_first_of, equal, mismatch, min_element and max_element (first of equals, for any strict weak order), accumulate, min, max and clamp '
     '(returning the argument itself, the first when equivalent) give the answer of their definition, with any predicate applied in the documented argument order, without touching the range or reading outside it.',
     ['inputs', 'histories', 'configurations'],
     'every content of 3 (thorough: 4) elements over 3 values, every subrange, every second range of up to 3 values; sampled contents of up to 16 elements',
     'Ties, empty subranges, overlaps, partial matches and the ends of ranges decide; a test shows one example each.',
     ['src/estd/algorithm.h', 'src/estd/internal/algorithm/raw.h', 'src/estd/numeric.h', 'src/estd/internal/utility.h'],
     [dict(name='search, find_first_of, mismatch, reverse', where='src/estd/algorithm.h'), dict(name='max_element, min, max', where='src/estd/internal/algorithm/raw.h')],
     state=[dict(name='the sequence', meaning='elements the algorithm ranges over', where='src/estd/algorithm.h')],
     observe=['returned position or value', 'every element afterwards'],
     level_note=BOUNDED)

prop('C23', ['views'],
     'Spans and arrays show exactly their elements',
     'A span, whether built from an array, two pointers, a pointer and a count, a fixed-size span, a copy or an assignment, and after any chain of first(n), first<n>(), subspan(o, n) and subspan(o) within its length, denotes exactly that '
     'window: size, size_bytes, empty, indexing, iteration, data, as_bytes and as_writable_bytes agree with it, and writes through it change that element (byte) and no other. Arrays (plain, of unconstructed elements, and the legacy pointer '
     'ones) hold the elements last written through any access, front and back are the first and the last, fill fills all, copies and assignments are independent values, == and != compare every element, to_array copies.',
     ['histories', 'inputs', 'configurations'],
     'every history over up to 4 elements of 3 values of two different bytes; sampled histories over up to 300 elements (across the boundary of the 8-bit size type)',
     'Chained sub-views and ends are where offsets and lengths go wrong; tests index a few elements.',
     ['src/estd/span.h', 'src/estd/array.h', 'src/estd/internal/array.h', 'src/estd/internal/legacy/array.h'],
     [dict(name='subspan, first', where='src/estd/span.h'), dict(name='array accessors', where='src/estd/internal/array.h')],
     state=[dict(name='data_, size_', meaning='the window', where='src/estd/span.h')],
     observe=['size, size_bytes, empty, data', 'elements by index and by iteration', 'the buffer behind'],
     level_note=BOUNDED)

prop('C24', ['timed'],
     'Durations, time points and units keep exact time',
     'For durations (and units) of any of the representations and periods, whose counts and common-type counts fit: a conversion (constructor, assignment, duration_cast, from and to std::chrono) yields the exact number of target ticks '
     'truncated towards zero, and is exact towards a finer period; +, -, and all six comparisons between different types (and between time points on them) are those of the exact times, never losing what either side can express; +=, -=, *=, *, unary minus, abs, '
     'min, max and zero are exact, time points move by exactly the duration added. hh_mm_ss splits any duration under 256 hours into sign, hours, minutes, seconds and remainder that add up to it. Projecting units keep the shown count across every conversion. '
     'Ratio arithmetic is exact in lowest terms; leap years, last days of months and validity follow the Gregorian rules.',
     ['inputs', 'histories', 'configurations'],
     'sixteen pairs of types (8 to 64 bits, signed and unsigned, periods from nanoseconds to years); every history over small counts, sampled counts over the whole range of each representation including its limits; every listed year and month, sampled years over 16 bits',
     'Overflowing intermediates, truncation and mixed-sign common types only show at particular magnitudes; tests convert a handful of round numbers.',
     ['src/estd/internal/chrono/duration.h', 'src/estd/internal/chrono/duration.hpp', 'src/estd/internal/chrono/time_point.h', 'src/estd/internal/chrono/operators.hpp', 'src/estd/internal/chrono/formatter.hpp',
      'src/estd/internal/chrono/units.hpp', 'src/estd/internal/chrono/ratio.h', 'src/estd/internal/chrono/math.h', 'src/estd/internal/units/base.h', 'src/estd/internal/units/operators.hpp', 'src/estd/ratio.h', 'src/estd/internal/promoted_type.h', 'src/estd/internal/numeric.h'],
     [dict(name='unit_base::convert_from', where='src/estd/internal/units/base.h'), dict(name='common_type and promoted_type', where='src/estd/internal/chrono/ratio.h'), dict(name='hh_mm_ss', where='src/estd/internal/chrono/formatter.hpp')],
     state=[dict(name='rep_', meaning='ticks', where='src/estd/internal/units/base.h')],
     observe=['count, root_count', 'results of arithmetic and comparison as exact numbers', 'hours, minutes, seconds, subseconds'],
     level_note=BOUNDED)

prop('C25', ['ctype'],
     'Characters belong to the classes and digits ASCII gives them',
     'For each of the 256 character codes, ctype<char> (is with any union of classes, isspace, isupper, islower, widen), isspace(c, locale), the cctype functions, and the numeric base facet agree with ASCII: a union of classes holds whatever '
     'belongs to one of them, every printing character is exactly one of space, digit, upper, lower, punctuation; a character is a digit of a base (2 to 36, compile-time, or narrowed at run time) exactly when its value is below the base, in either '
     'case; from_char yields that value or nothing, and to_char writes the digit that reads back as the same value, in the case asked for.',
     ['inputs', 'configurations'],
     'all 256 codes times every class, pair of classes and all classes; every digit value; bases 2, 8, 10, 11, 16, 36 with every narrower run-time base; sampled larger unions',
     'Class boundaries, high-bit characters and combined masks are easy to miss; tests look at a few letters.',
     ['src/estd/internal/locale/ctype.h', 'src/estd/internal/locale/cbase.h', 'src/estd/internal/cctype.h', 'src/estd/cctype.h', 'src/estd/locale.h'],
     [dict(name='ctype::is', where='src/estd/internal/locale/ctype.h'), dict(name='from_char, is_in_base', where='src/estd/internal/locale/cbase.h')],
     state=[dict(name='character', meaning='the code asked about', where='src/estd/internal/locale/ctype.h')],
     observe=['answers of the classification and digit functions'],
     level_note='exhaustive over all character codes')

prop('C26', ['bits'],
     'Hashes, flag sets and byte swaps compute their definition',
     'For any bytes, fnv_hash yields the published FNV-1 and FNV-1a values for 32 and 64 bits, whatever the signedness of the byte type and however the input is split into successive calls; the hash of a string, string view or container of '
     'bytes is that of its content alone, so equal contents of different kinds hash equal; an integer hashes to itself. Flag sets follow the bitwise algebra of their enumeration (|, &, ^, ~, |=, ==, !=, test). byteswap reverses the bytes of any integer and undoes itself.',
     ['inputs', 'configurations'],
     'every byte sequence of up to 3 (thorough: 5) from 4 (5) values at every split, every pair of flag values from 8, 16, 32 and 64-bit integers; sampled contents of up to 40 bytes',
     'High-bit bytes, empty input, chained input and agreement between kinds are universal claims; the tests check one hash value each.',
     ['src/estd/internal/functional/hash.h', 'src/estd/internal/string/hash.h', 'src/estd/flags.h', 'src/estd/bit.h'],
     [dict(name='fnv_hash', where='src/estd/internal/functional/hash.h'), dict(name='operator|=', where='src/estd/flags.h')],
     state=[dict(name='bytes', meaning='hashed so far', where='src/estd/internal/functional/hash.h')],
     observe=['hash values', 'flag values', 'bytes of the swapped integer'],
     level_note=BOUNDED)

prop('C27', ['tuple', 'typelist'],
     'Tuples, pairs and type lists keep every element in its place',
     'A tuple or pair, however built (constructor, make_tuple, make_pair, piecewise, copy, move), holds exactly the elements it was given, each at its index and under its type; get by index or by type reads, writes and, from an rvalue, moves out exactly that '
     'element and no other; empty classes take no room; apply and make_from_tuple pass the elements in order, each once; visit shows each element in order with its index, stops at the first yes, and says where it stopped, or -1; forward_as_tuple and tuples of references denote '
     'the very variables; exchange and swap (of an element with itself too) lose nothing; pairs order lexicographically. Lists of types or values answer size, element, search, selection, prepend, append, reverse and visitation (forwards, backwards, first match) exactly.',
     ['histories', 'inputs', 'configurations'],
     'eight kinds of tuple and pair, every history over small values; sampled histories over 16-bit values; every list of up to four of three types or values and seven lists of five to seven of them, every question about each',
     'Recursive templates get one index or overload wrong at a time; tests read two or three elements of one tuple.',
     ['src/estd/tuple.h', 'src/estd/internal/tuple.h', 'src/estd/internal/tuple/get.h', 'src/estd/internal/tuple/apply.h', 'src/estd/internal/tuple/make.h', 'src/estd/internal/tuple/sparse.h', 'src/estd/utility.h',
      'src/estd/internal/variadic.h', 'src/estd/internal/variadic/visitor.h', 'src/estd/internal/variadic/selector.h', 'src/estd/internal/variadic/type_sequence.h', 'src/estd/internal/variadic/integer_sequence.h'],
     [dict(name='get', where='src/estd/internal/tuple/get.h'), dict(name='type_visitor, value_visitor', where='src/estd/internal/variadic/visitor.h'), dict(name='selector', where='src/estd/internal/variadic/selector.h')],
     state=[dict(name='tuple_storage::value', meaning='one element', where='src/estd/internal/tuple/sparse.h')],
     observe=['every element through const and non-const access', 'visited indices and elements', 'live elements'],
     level_note=BOUNDED)

prop('C28', ['streamiter'],
     'Stream iterators deliver and write every character exactly once',
     'An istreambuf_iterator over any buffer (fixed text, or a source whose characters arrive in pieces) yields each character once, in order, 255 included; pre and post increment consume exactly one character, the proxy of the post increment keeps the one passed; '
     'moving on makes the iterator equal to the end exactly when nothing is left and nothing will come, and never while a character is left; all live iterators compare equal, as do all ends, and copies follow. '
     'An ostreambuf_iterator writes each assigned character once, increments write nothing, and failed() holds exactly when its last write was refused; an ostream_iterator formats each assigned value once; back insertion appends; the transforming iterator yields the function of the element it stands on.',
     ['histories', 'schedules', 'inputs'],
     'every history over texts of up to 3 (thorough: 7) characters, every arrival schedule, two iterators and a proxy; sampled histories over up to 300 characters',
     'End detection on sources that are momentarily empty, and 255 versus the end, depend on the schedule; tests walk one fixed text.',
     ['src/estd/internal/istreambuf_iterator.h', 'src/estd/iterator.h', 'src/estd/internal/ostream_iterator.h', 'src/estd/internal/iterator/back_insert.h'],
     [dict(name='istreambuf_iterator::operator++', where='src/estd/internal/istreambuf_iterator.h'), dict(name='ostreambuf_iterator::failed', where='src/estd/iterator.h')],
     state=[dict(name='rdbuf_', meaning='live, or null at the end', where='src/estd/internal/istreambuf_iterator.h'), dict(name='last_written', meaning='result of the last write', where='src/estd/iterator.h')],
     observe=['characters delivered', 'equality with the end', 'characters written and failed()'],
     level_note=BOUNDED)

prop('C29', ['handle'],
     'Containers work on memory that moves, and never keep a lock',
     'Over an allocator of handles, whose blocks have an address only while locked and move at every last unlock, vectors and strings behave as they do on fixed memory: every operation touches a block only while holding its lock, releases every lock it takes on every path, '
     'never resizes or frees a locked block, and follows a handle that changes when its block is resized. After any operation the locks outstanding are exactly those the user took; the address a user lock gives stays valid and shows the element until that lock is released; '
     'an accessor denotes its element wherever the block has moved since, and reads, writes, compares and swaps it. When the heap refuses to grow, reserve and resize say so and content and capacity are as before.',
     ['histories', 'schedules', 'configurations', 'fault_sequences'],
     'vectors of two element types and strings, three allocators (stable handles, handles with known size, handles that change); every history over up to 2 (thorough: 3) elements, with up to two user locks and an accessor held across operations; sampled histories of up to 300 elements',
     'A lock kept or released on one early return, or an address used after its unlock, goes unseen on the fixed memory every test uses.',
     ['src/estd/internal/runtime_array.h', 'src/estd/internal/dynamic_array.h', 'src/estd/internal/container/specializer.h', 'src/estd/internal/container/accessor.h', 'src/estd/internal/impl/handle_desc.h', 'src/estd/allocators/handle_desc.h', 'src/estd/traits/allocator_traits.h', 'src/estd/internal/string.h'],
     [dict(name='allocated_array::lock/unlock/clock/cunlock', where='src/estd/internal/runtime_array.h'), dict(name='accessor_shared', where='src/estd/internal/container/accessor.h'), dict(name='reallocate', where='src/estd/internal/impl/handle_desc.h')],
     state=[dict(name='handle', meaning='names the block', where='src/estd/internal/impl/handle_desc.h'), dict(name='m_size', meaning='capacity as recorded', where='src/estd/allocators/handle_desc.h')],
     observe=['locks outstanding after each operation', 'content', 'addresses handed out'],
     level_note=BOUNDED)

prop('C30', ['locks'],
     'A scoped lock gives back exactly what it took',
     'A lock_guard holds its mutex from construction to destruction. A unique_lock holds its mutex exactly while owns_lock() says so: from a locking or adopting construction, a lock() or a successful try_lock or try_lock_for, up to unlock(), release() or destruction; '
     'it unlocks on destruction if and only if it then holds the mutex, never touches a mutex it does not hold, a deferred or refused lock holds nothing, release() hands the mutex on as it is and forgets it, and a lock cannot be copied. No history of locks locks a held mutex or unlocks a free one.',
     ['histories', 'configurations'],
     'every history of one guard, two unique locks, a lock taken by hand and one taken by someone else, on one mutex; with and without timed locking',
     'The one test of lock_guard checks that it compiles; a lock kept past its scope, or given back twice, shows only in a history with contention.',
     ['src/estd/mutex.h', 'src/estd/internal/value_evaporator.h'],
     [dict(name='unique_lock', where='src/estd/mutex.h'), dict(name='lock_guard', where='src/estd/mutex.h')],
     state=[dict(name='owns_', meaning='whether the lock holds the mutex', where='src/estd/mutex.h')],
     observe=['whether the mutex is held after each operation', 'mutex() and owns_lock()', 'locking a held or unlocking a free mutex'],
     level_note=BOUNDED)

prop('C31', ['quantity'],
     'A quantity is written as its count, its scale and its unit',
     'For every unit, scale and representation, writing a quantity gives its count exactly as the stream writes that number (base, case and width of the stream apply to the count alone, 8-bit counts are numbers, double counts carry their sign and two decimals cut off), then the name or abbreviation of the scale '
     'and of the unit, separated as asked; nothing is written for the plain scale, and 1024, 1024^2 and 1024^3 bytes are kilo, mega and giga. Writing leaves the quantity and the base alone and uses up the width. '
     'The count itself follows exact arithmetic: adding and subtracting quantities, thousandfold quantities and plain numbers, counting up, negation, comparison with plain numbers, and the share a percentage takes of a range, rounded towards zero.',
     ['histories', 'configurations', 'inputs'],
     'three units, eleven decimal scales and the three of bytes, eight integer representations and double; every history of counts among nine (thorough: twenty-one) values up to a thousand either way with one (thorough: three) widths and two (three) bases; sampled histories over the whole range of each representation (up to a thousand million)',
     'Whether a scale compiles for any unit at all, and what becomes of the sign, small counts or the width, depends on the combination; a few literal outputs sample none of it.',
     ['src/estd/internal/units/ostream.h', 'src/estd/internal/units/si.h', 'src/estd/internal/units/base.h', 'src/estd/internal/units/bytes.h', 'src/estd/internal/units/percent.h', 'src/estd/internal/units/operators.hpp'],
     [dict(name='write/write_abbrev/put_unit', where='src/estd/internal/units/ostream.h'), dict(name='si::traits', where='src/estd/internal/units/si.h'), dict(name='get_from_percent', where='src/estd/internal/units/percent.h')],
     state=[dict(name='rep_', meaning='the count', where='src/estd/internal/units/base.h')],
     observe=['text written', 'count()', 'width() afterwards'],
     level_note=BOUNDED)

prop('C32', ['typecalc'],
     'Type computations name exactly the type they promise',
     'From any type, adding or removing const, volatile, pointers, references and extents, decaying, and changing the sign of an integer give exactly the type the C++ standard prescribes: references collapse, references and functions are never qualified, arrays are qualified through their elements, '
     'what cannot be referred to is left alone, and a function, throwing or not, decays to its pointer. Every question about a type (qualification, reference, pointer, array, function, void, integral, floating, arithmetic, signed, unsigned, enumeration, class, union, pointers to members, sameness) '
     'is answered as for the type itself whatever chain of computations produced it, and every type is of exactly one primary kind.',
     ['histories', 'configurations'],
     'thirty-one base types with every qualification; int under up to two further layers of qualified pointers, references and arrays, four others under one: every computation on every one of them, hence every chain of computations among them',
     'Overloads are chosen by these answers at compile time: a wrong one selects other code without any test failing, and tests name a handful of types.',
     ['src/estd/type_traits.h', 'src/estd/internal/raw/type_traits.h', 'src/estd/internal/llvm_type_traits.h', 'src/estd/internal/type_traits/is_function.h', 'src/estd/internal/type_traits/is_member.h', 'src/estd/internal/type_traits/make_unsigned.h', 'src/estd/internal/llvm/is_void.h'],
     [dict(name='decay, add_pointer, add_lvalue_reference', where='src/estd/type_traits.h'), dict(name='make_signed', where='src/estd/internal/llvm_type_traits.h')],
     state=[dict(name='type', meaning='the type at hand', where='src/estd/internal/raw/type_traits.h')],
     observe=['the type named, as matched by the compiler', 'the answers of every trait'],
     level_note=BOUNDED)

prop('C33', ['meta'],
     'Compile-time values and relations are the mathematical ones',
     'Products, quotients and sums of ratios are exact and in lowest terms, along any chain of them; reducing a ratio keeps its value and sign. numeric_limits of every integer type gives its least and greatest value, its binary and safe decimal digits, and a text length which any of its numbers fits. '
     'A class is a base of exactly itself and the classes derived from it, publicly, privately, virtually or ambiguously, qualification aside, and nothing else is a base; one type converts to another exactly when the language converts it implicitly. '
     ''
     'The common type of several types is the one the usual arithmetic conversions, or the pointer and class conversions, lead to (or the one specialised for them), however the operands are qualified, and there is none where the language finds none; the promoted type is signed when either is, as wide as the wider and twice that when equally wide types differ in sign; the common period of two durations is the coarsest of which both are multiples. '
     'A conjunction is decided by its first false condition, a disjunction by its first true one, else the last. Aligned storage holds its length at its alignment.',
     ['histories', 'configurations', 'inputs'],
     'every chain of operations among twenty-two ratios, negative ones and zero included; all ten integer types; all pairs of eleven types for inheritance and of twenty-seven for conversion; all pairs of twenty-eight types, in five forms, for common types; ratios of up to 62 bits; all lists of up to three conditions; lengths 1 to 9 at alignments 1 to 16',
     'Durations, units, buffers for numbers and every constrained overload rest on these values; tests name a few of them.',
     ['src/estd/ratio.h', 'src/estd/limits.h', 'src/estd/internal/limits/integer.h', 'src/estd/internal/limits/traits.h', 'src/estd/internal/numeric.h', 'src/estd/internal/type_traits/is_base_of.h', 'src/estd/internal/type_traits/is_convertible.h', 'src/estd/internal/raw/type_traits.h', 'src/estd/internal/common_type.h', 'src/estd/internal/promoted_type.h', 'src/estd/internal/chrono/ratio.h'],
     [dict(name='ratio_multiply/ratio_divide/ratio_add', where='src/estd/ratio.h'), dict(name='integer_limits', where='src/estd/internal/limits/integer.h'), dict(name='conjunction/disjunction', where='src/estd/internal/raw/type_traits.h')],
     state=[dict(name='ratio', meaning='the ratio computed so far', where='src/estd/ratio.h')],
     observe=['num and den', 'members of numeric_limits', 'value of each relation', 'the type inherited from'],
     level_note=BOUNDED)

prop('C34', ['call'],
     'Calls and references reach exactly what they name',
     'invoke calls exactly the callable it is given, once, on exactly the object it is given (directly, through a pointer or pointer-like object, or through a reference wrapper), as const and as rvalue as that object is given, with each argument forwarded as it came (an lvalue copied once where it is taken by value, an rvalue moved once), and '
     'gives back its result as it came: value, reference to an lvalue or rvalue, or nothing. Exceptions pass through. A data member is read and written in place. invoke_result names that type, and none where the language allows no such call. A reference wrapper denotes one object: assigning or copying the wrapper rebinds it and touches no object, '
     'and everything written or read through it (get, conversion, ref, cref) is that object. function_traits gives the result and each argument of a signature, in order, and whether it is a method and of which class.',
     ['histories', 'configurations', 'inputs'],
     'nineteen callables (members of every qualification, virtual, throwing, data members, functions, lambdas, overloaded functors) with twelve ways of giving the object, object of the class or a derived one, in every state of two objects and three wrappers; all signatures of up to three of four argument types with three results in six forms',
     'Every dispatcher and bound callback goes through these forms; a lost qualification or an extra copy compiles and works on the values a test samples.',
     ['src/estd/internal/invoke.h', 'src/estd/internal/invoke_result.h', 'src/estd/functional.h', 'src/estd/internal/functional/function_traits.h'],
     [dict(name='invoke / detail::INVOKE', where='src/estd/internal/invoke.h'), dict(name='reference_wrapper', where='src/estd/functional.h'), dict(name='function_traits', where='src/estd/internal/functional/function_traits.h')],
     state=[dict(name='wrapper', meaning='the object each reference wrapper denotes', where='src/estd/functional.h'), dict(name='objects', meaning='the number each object holds', where='src/estd/internal/invoke.h')],
     observe=['result, its type, copies and moves of the argument', 'every object afterwards', 'which object each wrapper denotes', 'members of function_traits'],
     level_note=BOUNDED)

prop('C35', ['rtos'],
     'FreeRTOS objects wait as long as told and say truly what they got',
     'Over a FreeRTOS kernel which keeps its documented contract, whatever other tasks and interrupts do meanwhile: a mutex, timed or recursive mutex or semaphore (made as asked: binary, counting to its maximum from its first count, allocated or inside the object) is taken exactly when the call says so - at once, as soon as it is given within the time allowed, or not at all after exactly that time - and given back once per release; '
     'a queue hands on items whole and in order, refused exactly when it stays full or empty for the time allowed; event groups wait for some or all of the bits asked, clear exactly those when asked to, and return the bits; timers, tasks and notifications pass on exactly what they are told. '
     'Times are whole ticks, rounded down; a negative time, or a point in time already past, does not wait; without a time given the wait is unlimited. Each object uses the kernel calls of its kind and of its context (task or interrupt), is created once, freed once, at its destruction, and cannot be copied.',
     ['histories', 'schedules', 'configurations', 'inputs'],
     'every history over every lock and queue kind (allocated, static, inline), with another task that takes, gives, sends, receives or sets bits at any moment of a wait or never; times in ticks, milliseconds and seconds, negative ones and points in time included; capacities 1 to 3; random histories with times to 200 ticks',
     'Which wait ends how depends on when another task acts; the tests need hardware and wait for nothing that does not come.',
     ['src/estd/port/freertos/mutex.h', 'src/estd/port/freertos/semaphore.h', 'src/estd/port/freertos/queue.h', 'src/estd/port/freertos/event_groups.h', 'src/estd/port/freertos/timer.h', 'src/estd/port/freertos/thread.h', 'src/estd/port/freertos/chrono.h', 'src/estd/port/freertos/wrapper/semphr.h', 'src/estd/port/freertos/wrapper/queue.h', 'src/estd/port/freertos/wrapper/event_groups.h', 'src/estd/port/freertos/wrapper/timer.h', 'src/estd/port/freertos/wrapper/task.h'],
     [dict(name='mutex/timed_mutex/recursive_mutex', where='src/estd/port/freertos/mutex.h'), dict(name='counting_semaphore', where='src/estd/port/freertos/semaphore.h'), dict(name='queue', where='src/estd/port/freertos/queue.h'), dict(name='wrapper::task', where='src/estd/port/freertos/wrapper/task.h')],
     state=[dict(name='count, holder', meaning='what the kernel object holds', where='src/estd/port/freertos/semaphore.h'), dict(name='queue', meaning='items sent and not yet received', where='src/estd/port/freertos/queue.h')],
     observe=['result and time spent of every call', 'the kernel object after each call', 'calls the kernel does not allow', 'objects left after destruction'],
     level_note=BOUNDED)
prop('C36', ['filestream'],
     'FILE streams and virtual buffers pass every byte once, in order, and flush',
     'Over a C FILE, whatever buffering it has, however its device delivers, and with C code using the same file in between: what an input stream, its buffer or a virtual buffer over it reads are the bytes of the file, each once and in order (255 is a byte, not the end); looking consumes nothing, get, getline, ignore, read, whitespace, characters and numbers consume exactly what they return and set the state as for any other stream. '
     'Bytes written through the stream, its buffer or a virtual buffer arrive in order, mixed with those of C code as written; flush, endl and sync hand all of them to the device before returning, and so does every output of a stream asked to (unitbuf). When the device takes less, what is reported written is what it took, the stream is no longer good, and sync fails. '
     'The virtual buffer (basic_streambuf_wrapped) behaves as the one it wraps, single characters and refused ones included.',
     ['histories', 'inputs', 'faults', 'configurations'],
     'every history over texts of up to 2 bytes of four classes and some longer ones, files that seek, pipes that deliver in pieces, unbuffered files; devices with room for 0 to 5 bytes; every history of up to 3 bytes written; sampled histories over 300 bytes',
     'A failing or dribbling device and a second user of the file depend on the moment; the tests write to one file that always works.',
     ['src/estd/port/posix/streambuf.h', 'src/estd/port/posix/streambuf.cpp', 'src/estd/internal/streambuf.h', 'src/estd/internal/impl/streambuf.h', 'src/estd/streambuf.h', 'src/estd/internal/istream.h', 'src/estd/internal/ostream.h', 'src/estd/istream.h', 'src/estd/ostream.h'],
     [dict(name='impl::posix_streambuf', where='src/estd/port/posix/streambuf.cpp'), dict(name='basic_streambuf_wrapped', where='src/estd/internal/streambuf.h'), dict(name='streambuf::sputn', where='src/estd/streambuf.h')],
     state=[dict(name='stream', meaning='the FILE, its position and what it has pending', where='src/estd/port/posix/streambuf.h')],
     observe=['bytes read and where the file stands', 'bytes at the device and bytes pending', 'stream state'],
     level_note=BOUNDED)

prop('C37', ['nostd'],
     "Without the std headers the library's own versions keep the same promises",
     'Built as on a platform that lacks the std headers (algorithm, type_traits, memory, functional, ratio, chrono, mutex, thread, cstdint and the like), every promise of the other properties still holds: algorithms (C22), priority queues (C05), vectors (C01) and deques (C04), type calculations (C32), functors, ranges and integer types (C33), functions (C12), locks (C30), optionals and variants (C09, C08), shared pointers (C11), views (C23), stream buffers (C15), durations and calendar (C24), quantities (C31) give what their specifications say. '
     'Nothing a caller observes depends on whether the library could borrow from std.',
     ['inputs', 'histories', 'configurations'],
     'every history of the same bounded specifications as for those properties, sampled histories at larger sizes; one configuration, with the std switches off',
     'The library is made for targets without std; the tests always run with it, so its own fallbacks are not compiled at all.',
     ['src/estd/algorithm.h', 'src/estd/type_traits.h', 'src/estd/internal/algorithm/heap.h', 'src/estd/internal/priority_queue.h', 'src/estd/internal/feature/std.h', 'src/estd/internal/type_traits.h', 'src/estd/ratio.h', 'src/estd/memory.h'],
     [dict(name='estd::copy_backward and its siblings', where='src/estd/algorithm.h'), dict(name='FEATURE_STD_*', where='src/estd/internal/feature/std.h')],
     state=[dict(name='the states of the other specifications', meaning='the same machines, another build', where='src/estd/internal/feature/std.h')],
     observe=['what those specifications observe'],
     level_note=BOUNDED)

prop('C38', ['portable'],
     'Other language standards and an ABI with unsigned char change nothing observable',
     'Built as C++11, C++14 or C++20 instead of C++17, with char unsigned and enumerations small (the defaults of ARM), and from several translation units, every promise of the other properties still holds: strings, containers, maps, lists, pools, handles, buffers, streams, number parsing and output, optionals, variants, expected, tuples, functions, calls, views, quantities and durations give what their specifications say. '
     'A byte of 255 is a character under either signedness; headers may be included in any number of files.',
     ['inputs', 'histories', 'configurations'],
     'every history of the same bounded specifications as for those properties, sampled histories at larger sizes; each unit under one other standard',
     'Code under #if __cplusplus and the signedness of char is chosen by the build; the tests run one build.',
     ['src/estd/internal/platform.h', 'src/estd/internal/feature/cpp.h', 'src/estd/internal/container/unordered/base.h', 'src/estd/internal/variant.h', 'src/estd/streambuf.h', 'src/estd/internal/string.h', 'src/estd/optional.h'],
     [dict(name='language feature switches', where='src/estd/internal/feature/cpp.h')],
     state=[dict(name='the states of the other specifications', meaning='the same machines, another build', where='src/estd/internal/feature/cpp.h')],
     observe=['what those specifications observe'],
     level_note=BOUNDED)
