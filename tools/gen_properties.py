#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the file stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
             observe_at=observe, hook_needed=hook))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

A = ["arena/arena.hpp", "arena/arena.cc", "arena/arenahelper.hpp", "align/align.hpp"]

prop("C01", "Arena memory is disjoint, aligned, owned by a live block and keeps its bytes",
 "Every non-null pointer an Arena hands out (AllocateAligned, AllocateAlignedAndAddCleanup, Create, CreateArray, its memory_resource) is aligned as requested or as its type needs (8, 16 or 32) and its whole extent lies inside a block the arena currently owns, overlapping no other live allocation, no block header and no cleanup record. Bytes written there stay unchanged until Reset or destruction of that arena, whatever other arenas and later allocations do. Create and CreateArray construct every object exactly once at its place (value-initialised where no constructor says otherwise). check() reports BlockUsed for every byte of a live allocation, BlockUnUsed for the free bytes and BlockCleanup for the cleanup records of its blocks, and NotContain for memory the arena does not own.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "all histories of allocations of any size/alignment, creates, cleanups, resets, moves and destructions over several arenas, all power-of-two block configurations, all placements, base alignments (multiples of 8) and prior contents of the memory returned by block_alloc, all failure patterns of block_alloc",
 "The tests call a few allocations against one mock block (16-aligned, never adjacent to another arena's block) and compare one pointer; no test mixes alignments, block exhaustion, cleanup records and allocator placement, nor looks at the bytes afterwards.",
 A, [("Block::alloc/AlignPos/has_enough_space", "arena/arena.hpp"), ("Arena::allocateAligned, Arena::newBlock, Arena::check", "arena/arena.cc")],
 ["return values of the public allocation functions", "Arena::check", "Options::block_alloc/block_dealloc"],
 [("_pos/_limit", "bump pointer and start of the cleanup records of a block", "arena/arena.hpp Arena::Block")])

prop("C02", "Failed or impossible allocation returns null and leaves the arena intact",
 "When the block allocator or the heap fails, a constructor run by Create or CreateArray finds no memory, or a request (size, array length, alignment padding) cannot be represented, every Arena allocation function returns nullptr (Own returns false), fires no allocation hook, keeps no half-made object, and leaves all earlier allocations, objects, registered cleanups and the accounting of owned blocks intact. The arena (also one that never obtained a block) can still be queried, Reset and destroyed, and succeeds again as soon as memory is available; none of this needs a logger, or memory for its messages.",
 ["fault_sequences", "histories", "inputs"],
 "every failure point of block_alloc in every history (first block, later blocks, block needed only for a cleanup record), outages of any length, capacity limits, heap outages (also while an arena is made), arenas with and without a logger, sizes up to 2^64-1",
 "One test uses an allocator that always fails; nothing fails the k-th allocation in the middle of a history, nothing recovers afterwards, and nothing fails the block that a cleanup record needs after the object was constructed.",
 A, [("nullptr checks after newBlock, overflow tests in newBlock and CreateArray", "arena/arena.cc, arena/arena.hpp"), ("RegisterDestructor failure path in Create", "arena/arena.hpp")],
 ["return values", "SpaceAllocated, cleanups", "hook invocations", "object constructor/destructor log"])

prop("C03", "Cleanups run exactly once, newest first, while memory is still valid",
 "Each destructor or cleanup registered with an Arena (Create, Own, AllocateAlignedAndAddCleanup) is run exactly once, by the next Reset or by destruction, in reverse order of registration, with the element it was registered with, and before any arena memory it may refer to is given back. Objects whose creation or registration was reported as failed, skippable types, and objects already cleaned by a previous Reset are never cleaned by the arena.",
 ["histories", "fault_sequences"],
 "all histories of registrations spread over any number of blocks, interleaved with resets, moves, failures of block_alloc and objects that own further arena memory",
 "Tests register at most three mock cleanups in one or two blocks and check flags; they never check order across blocks, repeated Resets, objects whose contents live in a newer block, or failures.",
 A, [("Block::run_cleanups, free_all_blocks, free_blocks_except_head, Block::Reset", "arena/arena.hpp, arena/arena.cc"), ("addCleanup/RegisterDestructor", "arena/arena.hpp")],
 ["destructor/cleanup invocations", "block_dealloc calls", "Arena::cleanups()"])

prop("C04", "Blocks are conserved and space accounting is exact",
 "Every block obtained from block_alloc is given back to block_dealloc exactly once with the same pointer: on Reset all except the oldest one, on destruction all. SpaceAllocated always equals the total size of the blocks currently owned, Reset returns its value from before the call, and SpaceRemains equals the free bytes of the newest block, a request that fits in there obtaining no other block. After Reset the retained block is completely reusable, so the same sequence of requests that fitted it before fits it again without a new block.",
 ["histories", "configurations", "fault_sequences"],
 "all histories of allocations, resets, moves and destructions on several arenas under all block configurations and block_alloc failures",
 "Tests observe one or two frees with a mock allocator on fixed sequences; none tracks conservation over many resets, several arenas, moves and failed block allocations.",
 A, [("newBlock, free_all_blocks, free_blocks_except_head, Reset", "arena/arena.hpp, arena/arena.cc")],
 ["block_alloc/block_dealloc calls", "SpaceAllocated, SpaceRemains, Reset()"],
 [("_space_allocated", "sum of the sizes of the owned blocks", "arena/arena.hpp")])

prop("C05", "Monitoring hooks see exactly the arena's history",
 "If installed, the init hook runs once per arena and its result is passed as cookie to every other hook; the new-block hook runs once per obtained block with its index and size; the allocation hook runs once per successful public allocation with the requested size and the type (null for raw memory); the reset and destruction hooks run once per Reset and per arena with the space allocated and the space left unused in the blocks at that moment. No hook runs for failed operations, and a moved arena is still initialised and destroyed only once.",
 ["histories", "configurations", "fault_sequences"],
 "all histories, all subsets of installed hooks, all block_alloc failure patterns",
 "HookTest counts four invocations on one history; arguments (sizes, waste, block index, cookie) under exhaustion, failure, reset and move are not checked.",
 A, [("hook calls in init, ~Arena, Reset, Create, CreateArray, AllocateAligned*, newBlock", "arena/arena.hpp, arena/arena.cc")],
 ["the hook functions in Arena::Options"])

prop("C06", "pmr containers on an arena behave like on any memory resource",
 "A container using an arena's memory_resource gets storage of the alignment it asked for and keeps its contents; when the block allocator fails the container operation throws std::bad_alloc and the container keeps its previous contents. Deallocation never returns arena memory early, resources compare equal exactly when they belong to the same arena, and after an arena is moved its resource pointer keeps serving the moved-to arena, the moved-from object being destroyable at any time. An arena made while the heap was exhausted has a resource again as soon as there is memory.",
 ["histories", "fault_sequences"],
 "all histories of pmr vectors, strings, maps and lists on several arenas interleaved with block_alloc failures, arena moves and resets",
 "Tests allocate single small containers on a healthy allocator; allocation failure inside a pmr container and use of a resource across an arena move are never exercised.",
 A, [("Arena::memory_resource::do_allocate/do_is_equal", "arena/arena.hpp"), ("Arena move constructor", "arena/arena.hpp")],
 ["pmr containers", "memory_resource::is_equal/get_arena"])

prop("C07", "Thread-local arena metrics equal the history under any clock",
 "With the metrics probes installed, the thread's local metrics equal exactly what the arena history implies: counts of inits, destructions, resets, new blocks and allocations, bytes allocated, used, resettled and wasted, the allocation-size histogram, the lifetime histogram by elapsed monotonic time, and the per-location byte totals. Reporting adds all of them to the global metrics and zeroes the local ones, so that nothing is lost or counted twice, also when a report fails for lack of memory and is repeated.",
 ["histories", "fault_sequences", "inputs"],
 "all histories of several arenas with metrics probes under a simulated clock (arbitrary steps, wall-clock jumps), allocation sizes around every histogram bound, block_alloc failures, reports and resets at any point",
 "metrics_test uses the real clock, one or two arenas and one report; histogram bounds, failed allocations, moves, and wall-clock jumps are not reached.",
 ["arena/metrics.hpp", "arena/metrics.cc", "arena/arena.hpp"],
 [("metrics_probe_on_*", "arena/metrics.hpp"), ("LocalArenaMetrics::report_to_global_metrics", "arena/metrics.hpp")],
 ["local_arena_metrics", "global_arena_metrics", "GlobalArenaMetrics::string()"])

prop("C08", "Concurrent metric reports lose nothing and are race free",
 "When any number of threads use arenas with metrics probes and call report_to_global_metrics at any time, then under every interleaving no report is lost or applied twice: once all threads have reported, each global counter, histogram bucket and per-location total equals the sum over all threads. Reporting is free of data races and of corruption of the global tables, also while another thread renders them with string().",
 ["schedules", "histories"],
 "all interleavings, at the granularity of single memory accesses, of two to four threads creating arenas, allocating, reporting and rendering",
 "The one threaded metrics test runs a few operating-system schedules; lost updates and races in the shared table need a particular interleaving.",
 ["arena/metrics.hpp", "arena/metrics.cc"], [("report_to_global_metrics, GlobalArenaMetrics atomics and arena_alloc_counter", "arena/metrics.hpp")],
 ["global_arena_metrics after all threads reported", "GlobalArenaMetrics::string()"])

prop("C09", "Objects confined to different threads never interfere",
 "Threads that each use only their own arenas, vectors, strings (including strings handed over by clone() or by moving an unshared string) and thread-local metrics never race with each other, and under every interleaving each thread observes exactly the results it would obtain alone. Metrics recorded by one thread never appear in another thread's local metrics.",
 ["schedules", "histories"],
 "all interleavings at memory-access granularity of two to four threads running independent histories on their own objects",
 "Tests join every thread immediately after starting it, so no two threads ever overlap.",
 ["arena/arena.hpp", "arena/metrics.hpp", "string/string.hpp", "string/arena_string.hpp", "container/stdb_vector.hpp"],
 [("basic_string::clone / string_core::unshare", "string/string.hpp"), ("thread_local local_arena_metrics", "arena/metrics.cc")],
 ["values observed by each thread", "memory accesses of each thread"])

S = ["string/string.hpp"]
prop("C10", "Strings have value semantics over every history of sharing and mutation",
 "After any history of constructions, copies, moves, swaps, clones and mutations over a set of strings, each string's content, size and terminator equal those of a std::string put through the same operations: mutating one string (also through its iterators, references or with itself as the source) never changes another one that was copied from it or to it. capacity() is at least size(), and every buffer is released exactly once when the last string using it goes away.",
 ["histories", "inputs"],
 "all histories over a population of strings with sizes on both sides of every representation boundary (inline, owned, shared) in both build modes (assertions on / NDEBUG), for narrow and wide characters, self-referential arguments included",
 "Tests compare one string at a time with std::string on random inputs; almost none keep several sharers of one buffer alive while mutating one of them, and the inline representation is compiled out in the test build.",
 S, [("string_core copy/unshare/mutableData/reserve/shrink", "string/string.hpp"), ("basic_string mutators", "string/string.hpp")],
 ["contents of every live string after every step", "malloc/free balance"],
 [("refCount_", "number of strings sharing a large buffer", "string/string.hpp RefCounted")])

prop("C11", "A string operation that runs out of memory throws and changes nothing",
 "When memory allocation fails inside a string operation, the operation reports it by std::bad_alloc (std::length_error for an impossible size), never by terminating, and the target and every other string keep the value they had before; all of them remain fully usable. No buffer is leaked, released twice or left referenced after release.",
 ["fault_sequences", "histories"],
 "every allocation of every operation in every history can fail, singly, in bursts or through a memory cap",
 "No existing test makes an allocation fail inside a string operation.",
 S, [("checkedMalloc/checkedRealloc/smartRealloc, RefCounted::create/reallocate, unshare", "string/string.hpp")],
 ["exceptions", "contents of every live string", "malloc/free balance"])

prop("C12", "String stream I/O delivers exactly the stream's bytes",
 "getline and operator>> read from a stream exactly the characters, stream position and end/fail state that they would read into a std::string, independently of how the stream's buffer delivers its data (any chunking, an end or an error at any point, any initial capacity or sharing of the target), and operator<< writes exactly the string's characters with the stream's padding. A read on a stream that has already failed neither clears the failure nor consumes input, and a stream error never leaves the string in an invalid state.",
 ["fault_sequences", "inputs", "histories"],
 "all chunkings of the input, all points of end-of-file, streambuf error or exception, all delimiters, widths and target string states, all exception masks",
 "Tests read from one std::stringstream that holds everything in one buffer and never fails.",
 S, [("basic_string::getlineImpl, operator>>, operator<<", "string/string.hpp")],
 ["string contents, stream state and remaining input after each operation"])

prop("C13", "Arena strings keep value semantics and survive block-allocator failure",
 "Strings living on arenas behave like std::string over every history of copies, moves, clones, swaps and mutations, take all their storage from the arena they were given, and remain valid until that arena is reset. If the arena cannot obtain memory the operation throws std::bad_alloc and the target and all other strings keep their values.",
 ["histories", "fault_sequences"],
 "all histories over populations of arena strings on one arena with tiny to large blocks and block_alloc failing at any point, both build modes",
 "Tests run each operation once on a fresh arena with a healthy allocator.",
 ["string/arena_string.hpp", "string/string.hpp", "arena/arena.hpp"],
 [("arena_string_core", "string/arena_string.hpp"), ("basic_string", "string/string.hpp")],
 ["contents of all live strings", "Arena::check on string data"])

V = ["container/stdb_vector.hpp"]
prop("C14", "A vector equals the sequence its operation history defines",
 "After any history of constructions, assignments, appends, insertions, erasures, fills, resizes, reserves, shrinks, swaps, copies and moves, a stdb_vector holds exactly the sequence that std::vector would hold, for trivial, relocatable, move-only, copy-only and ordinary element types. size() never exceeds capacity(), reserve and the Safe variants never write outside the buffer, growth never drops elements, and operating on one vector never changes another.",
 ["histories", "inputs"],
 "all histories over several vectors and element categories, positions, counts (including 0) and ranges, with arguments that refer to elements of the vector itself, on an allocator that always moves and fills fresh memory with garbage",
 "Tests use fixed short sequences mostly of int and memory::string; reallocation at every operation, empty ranges, self-references and mixed histories are not sampled.",
 V, [("core<T>, stdb_vector<T> modifiers, realloc_with_move, move_forward/backward", "container/stdb_vector.hpp")],
 ["vector contents after every step"])

prop("C15", "A vector operation that runs out of memory throws and changes nothing",
 "When memory allocation fails inside a vector operation, the operation throws std::bad_alloc (std::length_error or std::bad_alloc for a size no vector can have), the vector and every other vector keep exactly the elements they had, remain fully usable, and no element or buffer is leaked, released twice or used after release.",
 ["fault_sequences", "histories"],
 "every allocation made by every vector operation in every history can fail, singly, in bursts or through a memory cap",
 "No existing test makes malloc fail.",
 V, [("core<T>::allocate, realloc_with_move, realloc_and_emplace_back, realloc_drop_old_data, operator=", "container/stdb_vector.hpp")],
 ["exceptions", "vector contents", "malloc/free balance", "element registry"])

prop("C16", "An element constructor that throws never corrupts a vector",
 "If constructing, copying or comparing an element (or a predicate) throws during construction, copy, assignment, resize, push_back, emplace_back, insertion or erasure, the exception reaches the caller, the vector stays destroyable and usable with only fully constructed elements, every constructed element is destroyed exactly once and no buffer is leaked. For push_back, emplace_back, resize and copy construction the previously stored elements keep their values.",
 ["fault_sequences", "histories"],
 "the k-th element construction, comparison or predicate call of any operation in any history throws",
 "No existing test has a throwing element type.",
 V, [("construct_range*, copy_range, copy_from_iterator, realloc_and_emplace_back", "container/stdb_vector.hpp")],
 ["exceptions", "element registry", "vector contents", "malloc/free balance"])

prop("C17", "Resources owned by vector elements are released exactly once",
 "Over any history of vector operations every element that was constructed is destroyed exactly once (those that were moved away from included), never while it is still in a vector, and every resource owned by an element is either still owned by exactly one element of exactly one vector or released exactly once; elements are never duplicated or dropped. When all vectors are gone nothing remains allocated.",
 ["histories", "fault_sequences"],
 "all histories over several vectors of owning element types (move-only, copy-only, copyable, strings that share buffers, marked relocatable), including histories interrupted by allocation failure",
 "Tests let the sanitizer watch a few dozen fixed operations with at most two owning element types.",
 V, [("destroy_range, move_range_*, erase*, insert*, clear, pop_back", "container/stdb_vector.hpp")],
 ["element registry (construct, destroy, live owner)", "malloc/free balance"])

prop("C18", "Alignment arithmetic rounds up to the next multiple",
 "AlignUpTo and AlignUp return the smallest multiple of the alignment that is not below the argument.",
 ["inputs"], "all arguments whose result is representable", "Tests sample a few values.",
 ["align/align.hpp"], [("AlignUpTo, AlignUp", "align/align.hpp")], ["return values"])
prop("C19", "Queries on strings see only the character sequences",
 "Comparisons, searches, prefix, suffix and containment tests and hashes of strings depend only on the character sequences and agree with std::string, whatever history of sharing, growth, mutation and failed operations gave the strings their representation. They need no memory, so they work during a total memory outage, and they change neither operand. Equal strings hash equal.",
 ["histories", "fault_sequences", "inputs"],
 "all pairs of strings any history can produce (inline, medium, shared, reserved, moved-from, left by a failed operation), all positions and counts, needles that end flush with an unreadable page, with and without available memory",
 "Tests compare random samples on fresh strings with std::string and never without memory.",
 S, [("find, rfind, find_first_of, compare, relational operators, std::hash", "string/string.hpp")], ["return values", "operand contents"])
prop("C20", "Option parsing depends only on declarations, arguments and environment",
 "For every set of declared options, argument vector and environment, OptionParser::parse_args yields for each destination the value the arguments give it, converted to the declared type (the last one for Store, StoreTrue and StoreFalse, all of them in order and split at commas for Append, the number of occurrences for Count, values outside the choices ignored), otherwise the declared default, otherwise the value of the declared environment variable, otherwise nothing. Every argument is either consumed by one option or left over exactly once and in order (invalid_args, get_raw_argc, get_raw_argv). An option that lacks its value, an incomplete option, a duplicate or an invalid name raises std::logic_error. The result does not depend on history: earlier parses, rejected declarations, copies, moves and destroyed originals, or a parse, declaration or copy that ran out of memory (which throws std::bad_alloc, loses and leaks nothing and silently changes no value) leave a parser that answers like a fresh one with the same declarations.",
 ["histories", "fault_sequences", "inputs"],
 "all histories of declarations, parses, copies and moves of several parsers with any argument vectors, while environment variables change between parses and any allocation may fail",
 "Tests parse a handful of argument vectors on fresh parsers, never with an environment variable, a copied parser, a rejected declaration or failing memory.",
 ["optparse/optparse.hpp", "optparse/optparse.cc"], [("OptionParser::parse_args, handle_opt, process_opt, add_option", "optparse/optparse.cc"), ("ValueStore, Option, OptionParser", "optparse/optparse.hpp")],
 ["ValueStore", "invalid_args, get_raw_argc, get_raw_argv", "exceptions", "malloc/free balance"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
