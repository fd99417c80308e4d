import json
H="include/boost/segmented_tree/seq.hpp"
def P(id,title,st,over,qt,why,mech,obs,state=None,files=None,hook=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files or [H],state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=hook))
ps=[]
ps.append(P("C01","Single-element edits act on an ideal sequence",
 "After any history of single-element insertions (insert, emplace, push_back/front, emplace_back/front) and removals (erase, pop_back/front) at any valid positions, size() and the elements in iteration order are exactly those of an ideal sequence given the same edits. No other element's value or relative order changes, whatever the internal arrangement of the container was before the edit.",
 ["histories","inputs","configurations"],"every history of single edits, every position, every element type and every tuning of the container",
 "The tests insert at a few fixed positions of 2-5 element containers and run four fixed-seed random insert-all/erase-all histories on two tunings with one 8-byte trivially copyable type; they compare one checksum at the end, so an arrangement (split/borrow/merge at some height, side and length combination) those histories never reach, or reach only with a non-trivial type, is not checked.",
 [("split on insert","insert_single_segment / insert_single_leaf / insert_single_branch"),("borrow and merge on erase","erase_single_segment / erase_single_leaf / erase_single_branch"),("recursive sizes kept up to date","update_sizes")],
 ["size()","begin()..end()","operator[]"]))
ps.append(P("C02","Bulk edits act on an ideal sequence",
 "Inserting a count, a range or an initializer list, erasing a range, assign, resize, clear and the filling constructors leave exactly the elements the same call leaves in an ideal sequence, for every count (including zero), every position and every previous content. The elements outside the affected range keep their value and order.",
 ["histories","inputs","configurations"],"every prior history, every position, range length and count, forward and single-pass sources",
 "Each bulk call is tested once or twice on a 0-5 element container; growing and shrinking assigns, zero counts, and ranges that span or empty several internal blocks are not tried.",
 [("repeated single insertion with a carried position","emplace_count / emplace_range"),("erase walks backwards from the end of the range","erase_range"),("overwrite then grow or shrink","assign_count / assign_range / resize_count")],
 ["size()","begin()..end()"]))
ps.append(P("C03","Returned iterators denote the documented position",
 "insert and emplace return an iterator to the first inserted element (to the given position when nothing is inserted) and erase returns an iterator to the element after the removed ones, or end(). The returned iterator is indistinguishable from one freshly obtained for that position: it dereferences, moves in both directions, compares, and can be used for the next edit.",
 ["histories","inputs","configurations"],"every edit in every reachable arrangement, followed by any use of the returned iterator",
 "No test looks at a returned iterator.",
 [("iterator patched while splitting","insert_single_segment / insert_single_leaf"),("iterator patched while borrowing and merging","erase_single_segment / erase_single_leaf"),("normalised to the next segment","erase_single"),("moved back by the count","emplace_count / emplace_range")],
 ["return value of insert/emplace/erase","++/--/+=/-= on it","index_of"]))
ps.append(P("C04","Indexed access agrees with iteration order",
 "For every i < size(), operator[], at, *nth(i), *(begin()+i) all name the i-th element in iteration order (the same object), front and back name the first and last, and index_of(nth(i)) is i. at throws std::out_of_range exactly when i >= size(), and nth(i) is end() exactly when i >= size().",
 ["histories","inputs","configurations"],"every reachable container and every index, in and out of range",
 "Access is tested on one- and two-element containers only (height 1), never on a tree.",
 [("descent by recursive sizes","find_index_root / find_index_branch / find_index_leaf"),("first/last/end descent","find_first_* / find_last_* / find_end_*"),("bounds test","at / nth")],
 ["operator[]","at","nth","front","back","index_of","penultimate"]))
ps.append(P("C05","Iterator arithmetic, order and traversal are consistent",
 "For all positions i, j in [0, size()], an iterator at i moved by j-i (in any of the ways +=, -=, +, -, [], repeated ++/--, reversed iterators, const or not) denotes position j, its element if j < size(), and compares with and differs from every other iterator exactly as the integers do. Reading or writing through it reads or writes the j-th element.",
 ["histories","inputs","configurations"],"every reachable container, every pair of positions, every way to move",
 "Tests only walk with a fixed positive stride from begin or negative from end and compare one sum; no other start/stride pair, mixed direction or comparison is tried.",
 [("step and jump within a segment, a leaf, across branches","move_next_* / move_prev_* / move_next_*_count / move_prev_*_count"),("end-iterator special cases","move_next_leaf_count / move_next_branch_count"),("position kept beside the entry","iterator_data.pos, difference, comparison operators")],
 ["iterator operators"]))
ps.append(P("C06","Segment-wise navigation tiles the sequence",
 "The contiguous segments exposed by an iterator (begin(), current(), end()) partition the sequence in order: each element lies in exactly one segment, at the address the segment pointers say, and no segment is empty. move_after_segment / after_segment go to the first element of the next segment (or end()) and before_segment / move_before_segment to the last of the previous one; given a count they go that many further elements.",
 ["histories","inputs","configurations"],"every reachable container, every position, every valid count",
 "No test uses the segment interface.",
 [("segment pointers kept in the iterator","first_element / current_element / last_element"),("segment jumps","move_after_segment(_count) / move_before_segment(_count)")],
 ["iterator::begin/current/end","move_after_segment","move_before_segment","after_segment","before_segment"]))
ps.append(P("C07","The tree stays balanced and at least half full",
 "After every operation the container is a balanced counted tree: every block except the topmost is at least half and at most completely full, all element blocks are at the same depth, and the recorded counts and back-links match the real contents. Consequently height() is logarithmic in size(), memory held is proportional to size(), and an empty container has height 0 and holds no memory.",
 ["histories","configurations","fault_sequences"],"every history of any operations, including ones cut short by an exception",
 "Tests look at height() of an empty and a one-element container only; an under-filled or lopsided tree gives the same sums.",
 [("split in halves","insert_single_*"),("borrow or merge below half","erase_single_*"),("collapse of a two-child root","erase_single_leaf / erase_single_branch")],
 ["height()","size()","memory obtained from the allocator","documented node representation in doc/segmented_tree.qbk"]))
ps.append(P("C08","Every element and every block has exactly one owner and one end",
 "At every moment between calls the live element objects are exactly the elements of the live containers, and the memory held is exactly the blocks of the non-empty containers; every element is constructed once and destroyed once through the allocator, and every block is given back once, with the size it was obtained with. This holds for every history, including calls that throw, and nothing is ever read, written or destroyed outside a live object.",
 ["histories","inputs","fault_sequences","configurations"],"every history of all operations on several containers, with and without exceptions",
 "The tests use malloc-based allocators without accounting and mostly trivial elements; a leaked or doubly destroyed element or block is invisible to them.",
 [("destroy + deallocate on purge, merge and collapse","purge_* / erase_single_*"),("roll back of partly made allocations","alloc_nodes_single"),("steal leaves the source empty","steal / move constructor")],
 ["allocator calls","element constructor/destructor calls"]))
ps.append(P("C09","Single-element edits are all-or-nothing",
 "If a single-element insert, emplace or push fails because an allocation fails or because constructing the new element throws, the exception reaches the caller and the container has exactly the elements, iterators and memory it had before the call; nothing is leaked and the same call succeeds when retried. This holds wherever in the call the failure strikes.",
 ["fault_sequences","histories","configurations"],"every reachable container, every position, failure at each allocation or element construction the call makes",
 "One test retries randomly failing insertions on one trivially copyable type and checks only the final checksum: it cannot see leaks, and does not enumerate the failure points.",
 [("all allocations happen before any change","insert_single_segment / alloc_nodes_single"),("value built before anything else","emplace_single")],
 ["exception","contents, iterators and allocator balance after the exception"]))
ps.append(P("C10","Multi-element operations survive failures",
 "If a bulk insertion, assignment, construction, copy, splice or merge fails part-way because an allocation or an element copy throws, every container involved is still valid, usable and destructible, and nothing is leaked or destroyed twice; resize(count) additionally leaves the contents exactly as they were, and a failing constructor leaves nothing behind. Operations that only remove elements do not fail.",
 ["fault_sequences","histories","configurations"],"every reachable container, every bulk operation, failure at each allocation or element copy it makes",
 "No test makes a bulk operation fail.",
 [("each element is inserted by an all-or-nothing step","emplace_count / emplace_range"),("delegating constructors so that the destructor cleans up","constructors"),("roll back of a failed growth","resize_count")],
 ["exception","contents and allocator balance after the exception"]))
ps.append(P("C11","Copies are equal and independent; moves and swaps keep iterators",
 "A copied or copy-assigned container has equal contents and later changes to either do not affect the other; move construction and move assignment (with equal or propagating allocators) and swap transfer the whole contents, leave a moved-from container empty, and neither copy nor move any element. Every iterator to an element stays valid across such a move or swap, denotes the same element in the container that now owns it, and can be used to traverse and edit there; copy self-assignment and self-swap change nothing.",
 ["histories","inputs","configurations"],"every pair of contents (including empty and the container itself), followed by any history on both, and every held iterator",
 "Tests copy/move/swap 3-5 element containers once and never keep an iterator across, never self-assign, and never modify afterwards.",
 [("pointer steal","steal / move_assign / move constructor / swap"),("element-wise copy","copy constructor / assign_range"),("self check","operator=")],
 ["contents of both containers","held iterators"]))
ps.append(P("C12","Allocators propagate as declared and pair with their memory",
 "Construction, copy/move construction, copy/move assignment and swap give each container the allocator prescribed by the allocator's propagation traits and select_on_container_copy_construction, and get_allocator/get_stored_allocator report it. All memory of a container is obtained from, and returned to, an allocator equal to the one it came from, including when unequal allocators force element-wise moves.",
 ["histories","configurations","inputs"],"every combination of propagation traits, equal and unequal allocators, every sequence of ownership-changing operations, empty and non-empty containers",
 "The tests' allocators always compare equal and have no propagation traits; only three constructors look at the allocator tag.",
 [("trait dispatch","copy_assign_alloc / move_assign_alloc / move_assign / swap_allocator"),("steal or element-wise move","move_assign(false_type) / seq(seq&&, Allocator const&)")],
 ["get_allocator()","allocator calls"]))
ps.append(P("C13","Elements are moved, never copied, unless a copy is asked for",
 "Inserting from an rvalue, emplacing, erasing, splicing, merging, sorting, removing, reversing, moving and swapping never copy an element, and inserting an lvalue or n copies of it copies it once per stored element (at most one more). All these operations therefore work, and compile, for move-only element types.",
 ["inputs","histories","configurations"],"every such operation in every reachable arrangement",
 "The tests only use copyable types and never count copies.",
 [("move-based shifting","move_segment / construct_range_segment / assign_forward_segment / assign_backward_segment"),("move iterators in splice","splice overloads")],
 ["copy/move constructor and assignment calls of the element type","well-formedness for move-only types"]))
ps.append(P("C14","splice and merge transfer elements exactly once",
 "splice moves precisely the named elements (all, one, or a range) of the other container, in order, to the given position and removes precisely them from the other container; merge of two sorted containers leaves the other empty and this one sorted with equal elements stable (this container's first), for default and user comparisons, lvalue and rvalue overloads, equal and unequal allocators.",
 ["histories","inputs","configurations"],"every pair of contents, position and range, including empty ones and whole containers",
 "Each overload is tried on one pair of 5-element containers (merge with one pair without tagged duplicates, so stability is invisible).",
 [("insert through move iterators then erase or clear","splice overloads"),("append then in-place merge at the old size","merge overloads")],
 ["contents of both containers"]))
ps.append(P("C15","sort, unique, remove and reverse match their definitions",
 "sort is a stable sort under the given (or natural) ordering, reverse reverses, remove/remove_if drop exactly the matching elements, and unique keeps the first of each run of elements equal to (or related by the user's predicate with) the last kept one; order of the kept elements is preserved and nothing else changes.",
 ["inputs","histories","configurations"],"every content, including duplicates, empty and multi-block containers, every predicate including asymmetric ones",
 "Each is tried once on at most ten plain integers, where instability or a swapped predicate argument order cannot be seen and only one block is involved.",
 [("standard algorithms over the container's iterators","sort / unique / remove / remove_if / reverse"),("tail erase","erase(first,last)")],
 ["contents"]))
ps.append(P("C16","Comparisons depend only on the contents",
 "==, !=, <, <=, >, >= of two containers give the result of comparing their element sequences (equality element-wise, order lexicographic), whatever histories and internal arrangements led to those contents.",
 ["inputs","histories"],"every pair of contents (prefixes, equal contents with different arrangements, empty ones)",
 "The tests never compare two containers.",
 [("size test plus element-wise comparison","operator== / operator<"),("derived operators","operator!= / > / <= / >=")],
 ["comparison operators"]))
ps.append(P("C17","A single edit touches a bounded number of elements",
 "A single-element insertion or removal moves at most a small constant multiple of the segment capacity of elements, makes at most one allocation per level of the tree plus one, and removal allocates nothing, independent of size(). Moving or swapping whole containers with compatible allocators touches no element and allocates nothing.",
 ["histories","inputs","configurations"],"every reachable container and position",
 "The tests measure nothing; an implementation that moved everything on some split or merge would pass.",
 [("only one segment and its neighbour are touched","insert_single_segment / erase_single_segment"),("one spare node per full level","alloc_nodes_single")],
 ["element move/copy counts and allocator calls per operation"]))
ps.append(P("C18","Operations documented as no-throw need no resources",
 "Observers, iterator operations, erase, pop, clear, swap, destruction, and move construction/assignment with equal or propagating allocators complete normally even if every allocation and every element copy would fail. The noexcept declarations of move construction, move assignment, swap and default construction follow the allocator's declared traits.",
 ["fault_sequences","histories","configurations"],"every reachable container, every such operation, under total resource exhaustion",
 "The only failing allocator in the tests is used for single insertions.",
 [("erase only borrows and merges in place","erase_single_*"),("noexcept specifications","seq special members / swap / move_assign")],
 ["exceptions, allocator calls, noexcept(...)"]))
ps.append(P("C19","Arguments may refer to the container's own elements",
 "insert, push_back, push_front, emplace, insert(pos, n, value), resize(n, value) and assign(n, value) called with a value that is an element of the same container behave as if the value had been copied before the call.",
 ["inputs","histories","configurations"],"every reachable container, every aliased element, position and count",
 "No test passes a container its own element.",
 [("value copied into a temporary first","emplace_single"),("copy before repeated insertion","insert(pos,count,value) / resize / assign")],
 ["contents"]))
ps.append(P("C20","Tuning targets and element type only affect layout",
 "For every segment_target and base_target (zero, odd, tiny, huge) and every element size and category (trivially copyable or not, with or without allocator hooks), every history gives the same observable results; only height and segment boundaries may differ. An element block never exceeds the segment target unless a single element does, and an index block never exceeds the base target unless the minimum fan-out does.",
 ["configurations","histories"],"all template arguments and element types, histories large enough to reach several levels",
 "Two segment targets (0 and 512) with the default base target and 8-byte integers and strings are tried.",
 [("capacity computation","segment_max / segment_min / base_max / base_min"),("memmove/memcpy or element-wise shifting","construct_range_segment / assign_forward_segment / assign_backward_segment"),("16-bit node fields","node::length / node::parent_index")],
 ["contents","sizes requested from the allocator"]))
ps.append(P("C21","Observers are pure",
 "size, empty, height, max_size, access, lookups, comparisons, iterator creation and traversal, and copying from a container do not change it: its contents, its iterators and every byte of its own and its memory blocks stay the same and no allocation is made by observers. Results of repeated observation are therefore identical and concurrent observation is safe.",
 ["histories","inputs","schedules"],"every reachable container and every sequence of observers",
 "No test checks that an observer leaves the container unchanged.",
 [("const members without mutable state","const member functions")],
 ["bytes of the object and of the blocks obtained from the allocator before and after"]))
ps.append(P("C22","Sources and callbacks are used exactly as promised",
 "Range operations accept single-pass input iterators and read each source element exactly once, in order; remove_if calls its predicate once per element, unique at most size()-1 times, with arguments in the documented order; emplace forwards its arguments with their value category to one constructor call per element.",
 ["inputs","histories"],"every source length and every predicate, on every reachable container",
 "Only initializer lists and vector pointers are used as sources; predicates are stateless lambdas.",
 [("one pass over the source","emplace_range / assign_range"),("standard algorithms","remove_if / unique"),("perfect forwarding","emplace_single")],
 ["calls made on the source iterator, predicate and element constructor"]))
ps.append(P("C23","Generated workloads are valid and self-inverse",
 "For every count and block size of at least one and every seed the workload generators produce positions that are valid at the moment they are used, bounded_rand returns every value below its bound equally often over the generator's range, and inserting a workload and then erasing it leaves exactly its first element, on seq as on any other sequence. The accumulation helpers visit every element once (strided: every distance-th element from the front or from the back, while at least distance elements are left), so they give the same result on any two containers with equal contents.",
 ["inputs","configurations"],"every count, size, seed and stride",
 "Eight fixed (count, seed) pairs are run.",
 [("position drawn below the current size + 1","make_insertion_data_single / make_insertion_data_range"),("rejection sampling","bounded_rand"),("reverse-order erase","erase_single / erase_range")],
 ["common/*.hpp functions"],files=["common/common.hpp","common/single.hpp","common/range.hpp","common/iterator.hpp"]))
ps.append(P("C24","Documented complexities hold",
 "On containers of every size and layout the work done grows as the documentation of each operation says: constant for size, empty, height, index_of, comparing and dereferencing iterators, swap and move; logarithmic for lookup by position, begin, end and inserting or erasing one element; amortized constant for stepping an iterator by one element or one segment and amortized logarithmic in the distance for jumps; elements transferred times logarithmic for range insertion, removal, resize and splice; linear for clear, reverse, unique, remove_if, merge and comparisons; n log n for sort. No call fails to terminate.",
 ["inputs","histories","configurations"],"every container size, position, distance and layout",
 "Tests use a few thousand elements and never look at the amount of work.",
 [("guided descent by counts","find_index_* / nth"),("climbing only as far as needed","move_next_* / move_after_*"),("update along one path only","update_sizes and insert_/erase_ functions")],
 ["basic blocks executed and element comparisons made by each call"]))
ps.append(P("C25","Benchmark runs are reproducible and refuse wrong containers",
 "For every count and block size of at least one the generator programs print a seed and a checksum with which a benchmark run of the same numbers succeeds on every correct sequence, and programs called with a wrong number of arguments fail and print nothing on standard output. A run is refused (an exception or a failing exit) when the checksum is not that of the inserted contents, when a full walk or a walk by 1, 10, 100, 1000 or 10000 in either direction adds up to something else, or when erasing does not leave exactly the first element. The checksum is the same for equal contents and differs between contents of one length that differ in one element or in the order of two.",
 ["inputs","configurations"],"every count, size, seed, checksum and way a measured container can be wrong",
 "The tests compare eight fixed checksums and run neither the programs nor a wrong container.",
 [("seed and checksum of what was inserted","generate_single / generate_range"),("comparison of every phase with a vector","bench_single / bench_range / bench_iterator / verify"),("CRC over all bytes","make_checksum_unsigned")],
 ["exit and standard output of the programs, contents of the measured container"],files=["common/generate_single.hpp","common/generate_range.hpp","common/common.hpp","common/single.hpp","common/range.hpp","common/iterator.hpp","bench/single.hpp","bench/range.hpp","bench/iterator.hpp","bench/common.hpp"]))
with open("/verif/properties.jsonl","w") as f:
    for p in ps:
        f.write(json.dumps(p)+"\n")
import sys
sys.path.insert(0,"/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in ps:
    jsonschema.validate(p,sch); assert p['statement'].count('. ')<=2,p['id']
print(len(ps))
