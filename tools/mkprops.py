#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays consistent)."""
import json, os
I="sources/include/utils/"
M=I+"memory/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

pool=[M+"simple_resource.h",I+"common.h",I+"ctz.h",M+"memory.h"]
poolstate=[("infos/next_index/prev_index","doubly linked list of regions, one head per region","simple_resource.h infos_"),
           ("in_use","bit per region head: allocated or free","simple_resource.h in_use_"),
           ("free_count/busy_count","number of free / allocated regions","simple_resource.h")]
notests="The memory headers are not compiled by the stable tests at all; upstream's own tests replay a few fixed histories on one buffer."
p("C01","simple_resource: live allocations are in-bounds, aligned and disjoint",
  "Every non-null pointer a simple_resource returns for a request of size s and power-of-two alignment a is a multiple of a, and when it lies in the resource's own block storage the s bytes from it lie entirely inside that storage. Those bytes never overlap the bytes of any other allocation that has not been deallocated or released, whatever sequence of allocate, deallocate and release calls came before and however large s or a is.",
  ["histories","inputs","configurations"],"every history of operations, every size and alignment, every buffer address and length",
  notests,pool,[("first-fit allocation and region splitting","simple_resource::allocate_impl/allocate_blocks, details::allocate_*"),("skip_to_align","common.h")],poolstate,["return value of allocate"])
p("C02","simple_resource: region bookkeeping is exact after every operation",
  "After any history of operations the regions reported by a simple_resource (walking next indices from region 0) tile its blocks exactly in increasing order with consistent previous indices, and no two neighbouring regions are both free. free_count() and busy_count() equal the number of free and allocated regions, each deallocation returns exactly the blocks its allocation took, and once everything has been deallocated the resource again reports one free region covering all blocks.",
  ["histories","inputs","configurations"],"every history of allocate/deallocate/release calls on every instance and buffer",
  notests,pool,[("region list update and merging","simple_resource::allocate_blocks, deallocate_blocks, merge_adjacent_blocks, set_prev_next")],poolstate,["at(), in_use(), free_count(), busy_count(), block_size()"])
p("C03","simple_resource: a request that fits is served locally, others go upstream",
  "A request of non-zero size with alignment not above the block size is served from the resource's own blocks whenever some free region is at least as long as the request, including exact fits. A request it does not serve itself is passed to the upstream resource exactly once with the requested size and an alignment at least as strict as requested, the upstream's answer is returned, and the resource's own state is left unchanged; with no upstream, or for size zero, the result is null.",
  ["histories","inputs","configurations"],"every reachable region layout, every size up to the largest representable, every alignment, with and without upstream",
  notests,pool,[("search over free regions","simple_resource::allocate_impl/apply"),("upstream fallback","simple_resource::allocate_impl")],poolstate,["return value of allocate; calls seen by the upstream resource"])
p("C04","simple_resource: release() frees everything and terminates",
  "release() terminates from every reachable state and leaves no region allocated: busy_count() is zero, and a resource with at least one block reports exactly one free region covering all its blocks, just like a newly constructed one. On a resource that has no blocks it has no effect.",
  ["histories","configurations"],"every reachable set of live allocations, every instance, including a resource without storage",
  notests,pool,[("release loop","simple_resource::release/apply/deallocate_blocks")],poolstate,["busy_count(), free_count(), at(0) after release"])
p("C05","simple_resource: invalid deallocation and busy destruction abort",
  "Deallocating a pointer that is not the start of a live allocation aborts the process when the pointer is not block aligned, or is inside the resource's storage, or is outside it while there is no upstream; a block-aligned pointer outside the storage is passed to the upstream exactly once and null is ignored. Deallocating a live allocation never aborts, and destroying the resource aborts exactly when some allocation is still live.",
  ["histories","inputs"],"every reachable state and every pointer value",
  notests,pool,[("UTILS_ABORT_IF checks","simple_resource::deallocate_impl/deallocate_blocks/~simple_resource")],poolstate,["process termination; calls seen by upstream"])
p("C06","simple_resource: construction carves only whole aligned blocks of the buffer",
  "For every buffer address and length, a constructed simple_resource uses the largest number of whole blocks, up to its maximum, that fit in the buffer starting at the first block-aligned address: data() is that address and size() is the blocks' total, never reaching outside the buffer. When at least one block fits, it starts as one free region with nothing allocated; when none fits (or the buffer is null or empty) data() is null and size() is zero.",
  ["inputs","configurations"],"every buffer address, alignment and length, every constructor",
  notests,pool,[("details::origin_and_block_count","simple_resource.h")],poolstate,["data(), size(), free_count(), busy_count(), at(0)"])
mono=[M+"monotonic_buffer_resource.h",I+"common.h"]
p("C07","monotonic_buffer_resource: allocations are in-bounds, aligned and disjoint",
  "Every non-null pointer that a monotonic_buffer_resource hands out from its own buffer for size s and power-of-two alignment a is a multiple of a, and its s bytes lie inside the buffer and do not overlap any allocation made since construction or the last release(). This holds for every size, including sizes near the largest representable, where no wrap-around may make a request look as if it fits.",
  ["histories","inputs"],"every history, every size and alignment, every buffer address and length",
  "The memory headers are not compiled by the stable tests; upstream's tests use a handful of sizes.",mono,
  [("bump pointer","monotonic_buffer_resource::allocate_impl")],[("next","first free byte of the buffer","monotonic_buffer_resource.h")],["return value of allocate"])
p("C08","monotonic_buffer_resource: serves what fits, else upstream; release rewinds",
  "A non-zero request is served from the buffer exactly when the aligned block fits in the part of the buffer after the last allocation; otherwise it goes once to the upstream with the same size and alignment and the buffer is left as it was, or yields null if there is no upstream. Size zero yields null with no effect, deallocate has no effect, and release() makes the whole buffer available again from its beginning.",
  ["histories","inputs"],"every history, every size, alignment and buffer, with and without upstream",
  "The memory headers are not compiled by the stable tests; upstream's tests use a handful of sizes.",mono,
  [("fit test and fallback","monotonic_buffer_resource::allocate_impl"),("release","monotonic_buffer_resource::release")],[("next","first free byte of the buffer","monotonic_buffer_resource.h")],["return value of allocate; calls seen by upstream"])
p("C09","memory_resource: dispatch, system, null and default resources",
  "allocate and deallocate on any resource through the base class reach that resource's own implementation exactly once with unchanged arguments (the typed form passes the type's size and alignment). The system resource returns what an aligned system allocation of that size at no weaker alignment returns (null on failure) and frees exactly the pointer given, the null resource always returns null, the default resource is initially the system one and setting it returns the previous one, and two resources compare equal exactly when they are the same object.",
  ["inputs","histories"],"every size, alignment, pointer, resource and outcome of the system allocator",
  "The memory headers are not compiled by the stable tests; failure of the system allocator is never exercised.",[M+"memory.h"],
  [("member-pointer dispatch","memory_resource::allocate/deallocate"),("aligned_malloc/aligned_free","memory.h"),("get/set_default_resource","memory.h")],[("default_resource","process-wide default","memory.h")],["calls made to the system allocator; returned pointers"])
p("C10","allocator: requests exactly the storage its elements need, or null",
  "Allocating n objects of a type asks the underlying resource once for exactly n times the type's size at the type's alignment and returns its answer; when n times the size is not representable the result is null and nothing too small is ever handed out. Deallocation passes the pointer on unchanged once, creating an object constructs it exactly once in the obtained storage with the given arguments and only if storage was obtained, deleting destroys then deallocates it once and ignores null, and allocators compare equal exactly when their resources do.",
  ["inputs","histories"],"every count, every element size, every answer of the underlying resource",
  "No stable test compiles allocator.h; overflowing counts and allocation failure cannot be sampled meaningfully.",[M+"allocator.h",M+"memory.h"],
  [("size computation","allocator::allocate/allocate_object"),("construct/new_object/delete_object","allocator.h")],[],["calls seen by the resource and by the element type"])
p("C11","secure_zero_memory zeroes exactly the requested bytes",
  "After secure_zero_memory(p, n) all n bytes from p are zero and no other byte has changed, for every n including zero, both at run time and in constant evaluation. The safe variant does the same and returns 0, except that it returns -1 for a null pointer and otherwise -2 for size zero, touching nothing in both cases.",
  ["inputs"],"every buffer content and length","Not compiled by the stable tests; no test checks the untouched neighbours or long lengths.",[M+"memory.h"],
  [("zeroing loop","secure_zero_memory")],[],["buffer contents and return value"])
p("C12","memcpy and memmove copy exactly n bytes, at run time and compile time",
  "memory::memcpy makes the n destination bytes equal to the n source bytes of non-overlapping buffers and changes nothing else. memory::memmove does the same for arbitrarily overlapping buffers, in either direction, and returns the destination; both give the same result at run time and in constant evaluation.",
  ["inputs"],"every buffer content, length and overlap","Not compiled by the stable tests; overlap in constant evaluation is never tried.",[M+"memory.h"],
  [("byte loops and library fallbacks","memory::memcpy/memmove")],[],["buffer contents and return value"])
p("C13","memvcmp is true exactly when every byte equals the value",
  "memvcmp(p, v, n) returns true exactly when p is non-null, n is positive and each of the n bytes from p equals v, and it reads no byte outside that range.",
  ["inputs"],"every buffer content and length","Tests sample a few short buffers; one differing byte anywhere in a long buffer must be found.",[I+"common.h"],
  [("self-overlapping memcmp","memvcmp")],[],["return value"])
p("C14","clz and ctz are exact for every value of every unsigned type",
  "For every non-zero value of every unsigned integer type of 8, 16, 32 or 64 bits, clz returns the number of zero bits above the highest set bit within that type's width and ctz the number of zero bits below the lowest set bit; the portable implementations agree with them. get_alignment of a non-null pointer is the largest power of two dividing its address.",
  ["inputs"],"every value of every unsigned type","Tests sample single bits and random values of 64-bit domains.",[I+"clz.h",I+"ctz.h",I+"details/cxz.h",M+"memory.h",I+"type_list.h"],
  [("intrinsic selection and width correction","clz/ctz"),("crafted_clz/crafted_ctz","clz.h, ctz.h")],[],["return value"])
p("C15","Alignment arithmetic is exact for every address, size and power of two",
  "is_power_of_2 holds exactly for powers of two; next_multiple_of rounds up to the least multiple of a power of two that is not below the value whenever one is representable; skip_to_align is the least number of bytes that makes an address aligned; is_aligned holds exactly when the alignment divides the address. greatest_divisor_that_is_power_of_2 is the largest power of two dividing a non-zero value (the top bit for zero) in every unsigned type, and max_alignment_inside_block is the largest power of two not above block alignment + block size - 1, for every size.",
  ["inputs"],"every 64-bit value, address and power of two, every unsigned type","No stable test covers these functions at all; corner values near 2^31, 2^32 and 2^64 are never sampled.",[I+"common.h"],
  [("bit tricks","is_power_of_2, next_multiple_of, skip_to_align, is_aligned, greatest_divisor_that_is_power_of_2, max_alignment_inside_block")],[],["return value"])
p("C16","Bit counting functions agree with binary representation for every value",
  "bits_count and nbits_occupied return the position of the highest set bit plus one (zero for zero) for every value of every unsigned type, terminating always, and nbits_occupied leaves its argument unchanged. Entry v of the number-of-bits table is the number of set bits of v for all 256 entries.",
  ["inputs"],"every value of every unsigned type; every table index","No stable test covers these functions.",[I+"common.h"],
  [("recursion / shift loop / generated table","bits_count, nbits_occupied, kNumBitsTable")],[],["return value"])
p("C17","div and div_as return the exact quotient and remainder",
  "For every pair of integers of any integer types with a non-zero divisor whose quotient is representable, div returns the truncated quotient and the remainder computed in the common type of the operands, so that numerator = quotient * divisor + remainder with |remainder| < |divisor|, identically at run time and in constant evaluation. div_as does the same after converting both operands to the requested type.",
  ["inputs"],"every operand pair for every combination of integer types","No stable test covers div; unsigned 64-bit values above 2^63 and mixed signedness are not sampled.",[I+"common.h"],
  [("constant-evaluated branch and std::div branch","utils::div")],[],["quot and rem"])
p("C18","Shift, cast and visiting helpers are faithful for all inputs",
  "shift_left and shift_right return the argument shifted by the given count in the argument's own type (for counts below its width, arithmetic for signed right shifts), bit_cast preserves every bit and is its own inverse, and to_underlying preserves the enumerator's value. for_each_arg and for_each_in_tuple call the function exactly once per argument or element, in order, with that very object.",
  ["inputs"],"every value, every shift count, every argument pack instance","No stable test covers these helpers.",[I+"common.h"],
  [("shift_left/shift_right/bit_cast/to_underlying/for_each_arg/for_each_in_tuple","common.h")],[],["return value; call sequence"])
p("C19","Integer type selection by bit and byte count is minimal and sufficient",
  "For every bit count from 1 to 64, uint_from_nbits selects the smallest standard unsigned type with at least that many bits, and the byte-count forms select accordingly for 1 to 8 bytes; the fast variants select the corresponding fast unsigned type. num_bits is the width of a type (1 for bool) and sum_size is the total width of a type pack rounded up to bytes.",
  ["configurations"],"all 64 bit counts and 8 byte counts; every pack of arithmetic types","No stable test covers these; one wrong boundary only shows for one count.",[I+"common.h"],
  [("uint_from_nbits::getType, fast_uint_from_nbits::getType, num_bits, sum_size","common.h")],[],["selected type"])
p("C20","fast_pimpl manages exactly one in-place object through every operation",
  "Every constructor of fast_pimpl constructs exactly one object of the wrapped type in its own storage by the matching constructor of that type with exactly the arguments given, every assignment performs exactly the matching assignment on that object and returns the wrapper, and destruction destroys it exactly once. Access through get() or -> always denotes that object, and no operation constructs, copies, moves or destroys any other object.",
  ["inputs","programs"],"every wrapped type of the instance's size (its special members are opaque), every operation and argument","Tests use one small aggregate and compare values, not the operations performed on the wrapped type.",[I+"fast_pimpl.h"],
  [("placement construction and forwarding","fast_pimpl")],[],["calls made to the wrapped type's special members"])
p("C21","timer: one start point, elapsed time is now minus start, callback once",
  "A timer's start point is a clock reading taken during construction (or the latest reset), and every elapsed-time accessor returns the current clock reading minus that start, truncated to its unit. A timer that has not been moved from invokes its stored callback exactly once, on destruction, with itself; moving a timer transfers start point and callback so that the callback still runs exactly once, by the destination.",
  ["inputs","histories"],"every clock behaviour, callback and sequence of construct, move, reset, destroy","Timer's tests are not among the stable ones and use a few fixed durations.",[I+"timer.h"],
  [("constructor, move operations, destructor","details::timer")],[("start","start time point","timer.h"),("callback","stored callable","timer.h")],["clock calls; callback invocations"])
p("C22","abort_if terminates exactly when its condition holds",
  "abort_if (and the macros built on it) aborts the process exactly when the condition is true, after writing the formatted message to standard error if a format is given, and has no effect when the condition is false.",
  ["inputs"],"every condition, format presence and arguments","No stable test covers the false and true outcome for all forms.",[I+"common.h"],
  [("abort_if, UTILS_ABORT_IF, UTILS_DEBUG_ABORT_IF","common.h")],[],["termination, stderr"])
p("C23","Array builders place every element at its index, for all element values",
  "make_array in all its forms, make_zero_array, sv_to_array and concatenate_arrays return arrays whose elements are exactly the given values in the given order (the value repeated N times, zeros, the first N characters, all arrays one after another), and for Begin not above End make_array_from_range yields Begin, Begin+Step, ... up to the last value not above End. is_equal on two arrays is true exactly when their first Count elements agree pairwise.",
  ["inputs","configurations"],"every element value, every instance size","No stable test covers these builders; tests cannot try all element values.",[I+"common.h"],
  [("index-sequence expansion and loops","make_array*, concatenate_arrays, is_equal")],[],["returned array"])
meta="Compile-time only; tests instantiate a handful of fixed lists."
p("C24","type_list queries agree with the list's contents",
  "size, at, index_of, first_index_of_type, count_of, contains, contains_copies, is_same and the predicate-based queries of a type_list give exactly the answer defined by the sequence of its types, for every list and every queried type or predicate.",
  ["programs"],"every type list, type and predicate",meta,[I+"type_list.h"],[("recursive and fold-expression metafunctions","type_list_impl")])
p("C25","value_list queries agree with the list's contents",
  "size, at, index_of, count_of, contains, contains_copies, contains_type, is_same, min, max and list_all_of of a value_list give exactly the answer defined by the sequence of its values, where values of different types are different.",
  ["programs"],"every value list and queried value",meta,[I+"value_list.h"],[("recursive and fold-expression metafunctions","value_list_impl")])
p("C26","List transforms: concatenate, sublist, exclude, sort, cartesian product",
  "concatenate appends lists in order, sublist and exclude_at select exactly the named positions, the sizeof sorts return a stable permutation in ascending (descending) size order, and cartesian_product lists every combination once in lexicographic order.",
  ["programs"],"every list and index",meta,[I+"type_list.h",I+"cartesian_product.h",I+"value_list.h"],[("recursive metafunctions","concatenate, sublist, exclude_at, sort_sizeof_*, cartesian_product")])
p("C27","function_traits, detectors and member checkers classify every declaration",
  "For every callable type function_traits reports its exact result, argument types, qualifiers and noexcept-ness, and the generated member checkers and detectors hold exactly for types that declare such a member.",
  ["programs"],"every function type and class",meta,[I+"function_traits.h",I+"detector.h"],[("partial specialisations and detection idiom","function_traits, is_detected, CREATE_MEMBER_*")])
p("C28","has_padding detects padding bytes exactly",
  "has_padding is true exactly for types that are not trivially copyable or whose object representation contains bytes belonging to no member, for aggregates built from scalars and nested aggregates at any depth.",
  ["programs"],"every aggregate type",meta,[I+"padding_checker.h"],[("recursive sum of member sizes","has_padding_impl")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
