#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording has one home)."""
import json
I='include/boost/icl/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":[I+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title)); assert statement.count('. ')<=2,(id)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Interval sets hold exactly the elements their history put in",
  "After any history of additions, insertions, subtractions, erasures, intersections, symmetric differences, copies and moves - with elements, intervals or other interval sets as operands, with or without position hints, in any combining style - an interval set contains exactly the elements obtained by applying the same operations one element at a time. This stays true for every update that completes after earlier updates have failed with an exception, counting for the failed update whatever it left in the set.",
  ["histories","fault_sequences","configurations"],
  "Every finite sequence of updates on several sets of mixed combining style, with any updates in it failing at any allocation; every supported interval type and domain order.",
  "The suite applies a handful of fixed two- or three-step sequences to literal operands and never makes an allocation fail; deep histories, unusual overlaps of many segments and states left by a failed update are not sampled.",
  ["interval_base_set.hpp","interval_set.hpp","separate_interval_set.hpp","split_interval_set.hpp","detail/interval_set_algo.hpp","concept/interval_set.hpp","concept/interval_associator.hpp","detail/set_algo.hpp","concept/interval.hpp"],
  [("overlap handling of add/subtract","interval_base_set.hpp: _add, subtract, add_front/main/rear"),("joining under an addend","detail/interval_set_algo.hpp: segmental::join_under, join_neighbours"),("set-wise operators","concept/interval_associator.hpp; concept/interval_set.hpp: flip, add_intersection")],
  ["the sequence of segments seen by iteration after every operation"],
  [("_set","ordered tree of disjoint intervals","interval_base_set.hpp")])

p("C02","Interval maps aggregate exactly the values their history added",
  "After any history of add, subtract, insert, set, erase, intersect and flip operations with elements, segments, interval maps and interval sets, every key of an interval map carries exactly the value obtained by applying the operation's combining rule to that key alone, and keys carry no value exactly when that rule removes them (neutral values are dropped by absorbing maps, kept by enriching ones; total maps read as neutral elsewhere). This stays true for every update that completes after earlier updates have failed with an exception, counting for the failed update whatever it left in the map, and when the operand is a reference to a segment's own key.",
  ["histories","fault_sequences","configurations"],
  "Every finite sequence of updates on joining and splitting maps for each absorbing/enriching, partial/total combination, additive, extremal and set-valued codomains, with any update failing at any allocation, value copy or combination.",
  "The suite checks fixed small sequences on literal maps; the interplay of combining, absorbing, joining and splitting over long histories and after failed updates is not sampled.",
  ["interval_base_map.hpp","interval_map.hpp","split_interval_map.hpp","concept/interval_map.hpp","concept/interval_associator.hpp","functors.hpp","detail/on_absorbtion.hpp"],
  [("aggregation on overlap","interval_base_map.hpp: _add, _subtract, _insert, erase"),("absorption and joining","interval_map.hpp: handle_*; split_interval_map.hpp: handle_*"),("combiners and inverses","functors.hpp")],
  ["segments and values seen by iteration after every operation"],
  [("_map","ordered tree from disjoint intervals to values","interval_base_map.hpp")])

p("C03","Segments stay ordered, disjoint, non-empty and in their combining style",
  "At every point of every history the segments of an interval container are non-empty, pairwise disjoint and ascending, also right after an update that failed with an exception. After every update that completes, a joining set has no two touching segments and a joining map none with equal values; a separating set and the splitting containers show exactly the segmentation their style prescribes for additions, insertions and erasures. A joining container in which a failed update left segments unjoined is canonical again once it is explicitly joined.",
  ["histories","fault_sequences","configurations"],
  "Every history of updates over all five container kinds, including updates interrupted by a failing allocation, copy or combination.",
  "Tests compare a few literal results; they neither check the segment structure after each step of long histories nor after a failed step.",
  ["interval_base_set.hpp","interval_base_map.hpp","interval_map.hpp","split_interval_map.hpp","detail/interval_set_algo.hpp","concept/interval_associator_base.hpp"],
  [("joining of neighbours","detail/interval_set_algo.hpp: join_left/right/neighbours/under"),("splitting on overlap","interval_base_set.hpp, interval_base_map.hpp: add_front/add_rear"),("explicit join","concept/interval_associator_base.hpp: join")],
  ["the list of segments seen by iteration"])

p("C04","A failed update touches nothing outside its operand",
  "When an update of an interval container fails with an exception - because memory could not be allocated, or a value could not be copied or combined - every element outside the update's operand is exactly as before. Inside the operand each element is, one by one, either as before or as the completed update would have made it; only replacing and flipping map updates may leave elements of the operand without a value.",
  ["fault_sequences","histories"],
  "Every reachable container state, every update and every position of a failing allocation, value copy or value combination inside it, single or lasting.",
  "No existing test makes anything fail inside an update.",
  ["interval_base_set.hpp","interval_base_map.hpp","interval_map.hpp","split_interval_map.hpp","detail/interval_set_algo.hpp"],
  [("splitting a segment at the border of the operand","interval_base_set.hpp: add_front, add_rear, subtract; interval_base_map.hpp: add_front, add_rear, subtract_front, subtract_rear, erase"),("gap insertion","interval_base_map.hpp: gap_insert, add_at, insert_at")],
  ["per-element content before and after an update that threw"])

p("C05","Failing copies, assignments and binary operators change none of their inputs",
  "If copying an interval container, assigning one to another of the same type, intersecting in place, or evaluating a binary operator on const containers fails with an exception, then both operands have exactly the segments and values they had before. When these operations succeed their const operands are unchanged as well.",
  ["fault_sequences","histories"],
  "Every reachable pair of containers, every such operation, every position of a failing allocation or value copy inside it.",
  "No existing test makes anything fail inside an operation.",
  ["interval_base_set.hpp","interval_base_map.hpp","interval_set.hpp","interval_map.hpp","concept/interval_associator.hpp"],
  [("copy-and-move assignment","interval_base_set.hpp, interval_base_map.hpp and the derived classes: operator ="),("build-then-swap intersection","concept/interval_associator.hpp: operator &="),("operators on a temporary","concept/interval_associator.hpp: operator +,-,&,^,|")],
  ["segments and values of all operands before and after"])

p("C06","Repeating a failed update once memory is back completes it exactly",
  "Once failures stop, issuing again a repeatable update that failed with an exception any number of times (adding, inserting or erasing elements or intervals in a set; setting, inserting or erasing in a map) succeeds and leaves the container with exactly the content it would have had if the update had succeeded at the first attempt. The number of attempts, and where each of them failed, do not matter.",
  ["fault_sequences","histories"],
  "Every reachable state, every repeatable update, every sequence of failure positions over up to several attempts.",
  "No existing test fails and repeats an update.",
  ["interval_base_set.hpp","interval_base_map.hpp","concept/interval_map.hpp","concept/interval_set.hpp"],
  [("order of removal and re-insertion of residual segments","interval_base_set.hpp: subtract; interval_base_map.hpp: erase"),("replace as erase-then-insert","concept/interval_map.hpp: set_at")],
  ["content after the repetition versus content of an undisturbed copy"])

p("C07","Every byte and every object taken is returned exactly once",
  "Interval containers and element maps take the memory for their contents only from the allocator they are given, return each block exactly once with the size it was obtained with, and never touch memory or value objects after releasing them, not even when an operand refers to a segment or element the container itself holds. Every value object they construct is destroyed exactly once. This holds over any history and also when any allocation, copy or combination fails, so that nothing is outstanding once all containers are gone.",
  ["fault_sequences","histories"],
  "Every history of operations with failures at any allocation, copy or combination, followed by destruction of all containers.",
  "Tests use the default allocator, do not count objects and inject no failures.",
  ["interval_base_set.hpp","interval_base_map.hpp","interval_map.hpp","split_interval_map.hpp","map.hpp","concept/interval_map.hpp","concept/interval_associator.hpp"],
  [("allocator parameter passed to the underlying trees and to temporaries","interval_base_set.hpp, interval_base_map.hpp: ImplSetT, ImplMapT"),("erasing nodes while iterating","interval_base_map.hpp: erase_rest; detail/interval_set_algo.hpp: join_nodes; concept/interval_map.hpp: erase_if")],
  ["the allocator's ledger and the constructor/destructor ledger of values"])

p("C08","Concurrent readers of one container never disturb each other",
  "Any number of threads may at the same time query, compare, iterate, print, copy and combine (as const operands) the same interval container or element map without synchronisation: under every interleaving each of them gets the result it would get alone, the container is unchanged afterwards, and no thread writes memory that another one accesses without synchronisation.",
  ["schedules","histories"],
  "Every interleaving, at the granularity of single memory accesses, of any const operations by several threads on any reachable container.",
  "All tests are single-threaded.",
  ["interval_base_set.hpp","interval_base_map.hpp","map.hpp","concept/interval_associator.hpp","concept/interval_set.hpp","concept/interval_map.hpp","detail/element_iterator.hpp","type_traits/identity_element.hpp"],
  [("const operations keep no hidden state","const member functions of interval_base_set, interval_base_map, map"),("shared neutral element","type_traits/identity_element.hpp: identity_element::value")],
  ["results per thread; memory accesses of the instrumented code; content afterwards"])

p("C09","Containers used by different threads are independent",
  "Threads that each update and query only containers of their own, without synchronisation, observe under every interleaving exactly the results they would observe running alone, and no thread writes memory that another one accesses without synchronisation. A failure with an exception in one thread has no effect on the containers of any other.",
  ["schedules","histories","fault_sequences"],
  "Every interleaving, at the granularity of single memory accesses, of arbitrary operation sequences by several threads on disjoint containers of the same and of different types, with failing allocations in some of them.",
  "All tests are single-threaded.",
  ["interval_base_set.hpp","interval_base_map.hpp","map.hpp","functors.hpp","type_traits/identity_element.hpp","type_traits/unit_element.hpp","concept/interval_associator.hpp","detail/element_iterator.hpp"],
  [("no mutable namespace-scope or static state except immutable neutral elements","type_traits/identity_element.hpp; functors.hpp"),],
  ["results per thread; memory accesses of the instrumented code"])

p("C10","Printing survives a failing stream and always renders every segment",
  "Writing a container or interval to an output stream renders its segments completely, in order and with their exact borders and values, and never changes the container. If the stream fails at any byte - by reporting an error, by accepting only part of the data or by throwing - then what was accepted is a prefix of the complete rendering, an exception escapes only if the stream is configured to throw, and writing again after the stream has recovered gives the complete rendering; the stream's formatting settings are left as they were.",
  ["fault_sequences","histories","configurations"],
  "Every reachable container, every byte position and kind of stream failure, every stream exception mask.",
  "Tests print to healthy string streams only and hardly compare the text.",
  ["concept/interval.hpp","concept/interval_set.hpp","concept/interval_map.hpp","concept/element_set.hpp","concept/element_map.hpp","interval_bounds.hpp"],
  [("stream output operators","concept/interval.hpp, concept/interval_set.hpp, concept/interval_map.hpp, concept/element_map.hpp: operator <<")],
  ["bytes accepted by a simulated stream buffer, stream state, escaping exceptions"])

p("C11","Element maps aggregate, absorb and fail like their model",
  "After any history of add, subtract, insert, set, erase, intersect and flip operations on element maps (and of the corresponding set operations on element sets), each key carries exactly the value its own operations give it, neutral values being absent from absorbing maps. When an operation fails with an exception, keys it does not name are unchanged and each key it names is either as before or as the completed operation would have left it; only replacing and flipping may drop a key they name.",
  ["histories","fault_sequences","configurations"],
  "Every history over the four map traits and additive, extremal and set-valued codomains; every position of a failing allocation, copy or combination.",
  "Tests use short literal sequences and inject no failure.",
  ["map.hpp","concept/element_map.hpp","concept/element_set.hpp","concept/element_associator.hpp","detail/map_algo.hpp","detail/set_algo.hpp","functors.hpp"],
  [("add, subtract, insert with absorption","map.hpp: _add, _subtract, insert"),("operators","concept/element_map.hpp, concept/element_associator.hpp")],
  ["key/value pairs seen by iteration after every operation"])

p("C12","Moving and swapping transfer content without allocating or failing",
  "Move construction, move assignment and swap of containers transfer the exact segments and values without allocating memory, copying values or throwing, at any point of any history and also while no memory can be allocated at all. A moved-from container is empty or valid and can be assigned and used again like a new one, and destroying or changing one side never affects the other.",
  ["histories","fault_sequences"],
  "Every history mixing updates with moves and swaps (also between a container and itself by swap), under exhausted memory.",
  "Only a single move test with healthy memory exists; reuse of moved-from containers within longer histories is not sampled.",
  ["interval_base_set.hpp","interval_base_map.hpp","interval_set.hpp","separate_interval_set.hpp","split_interval_set.hpp","interval_map.hpp","split_interval_map.hpp","map.hpp"],
  [("move constructors and by-value assignment","operator = and move constructors of all container classes"),("swap","interval_base_set.hpp, interval_base_map.hpp, map.hpp: swap")],
  ["allocation and copy counters during the transfer; content of both sides"])

p("C13","Iterators to segments away from an update stay valid",
  "An iterator to a segment remains valid and keeps denoting the same segment with the same value across any updates whose operands neither overlap nor touch that segment, whether those updates complete or fail with an exception (in a joining container this excepts segments that a failed update left unjoined beside a touching one of equal value). Position hints, iterators returned by updates and erasure through iterators act on the segment they denote.",
  ["histories","fault_sequences"],
  "Every history in which iterators taken at any point are held across any number of updates elsewhere, including failing ones.",
  "Tests do not hold iterators across updates.",
  ["interval_base_set.hpp","interval_base_map.hpp","interval_map.hpp","split_interval_map.hpp","detail/interval_set_algo.hpp","concept/interval_set.hpp","concept/interval_map.hpp"],
  [("node-based storage with in-place border changes","interval_base_set.hpp, interval_base_map.hpp"),("joins only with direct neighbours","detail/interval_set_algo.hpp: join_neighbours")],
  ["addresses and contents of segments held by iterators"])

p("C14","Queries agree with the content at every point of every history",
  "At every point of every history, also right after a failed update, all queries - containment of elements, intervals and containers, find, intersection tests, size, cardinality and length, hull and borders, lower/upper bounds, element-wise iteration forwards and backwards, equality, inclusion comparison, domain, gaps, the relations of a segment with another one and with any interval (equality, order, containment, touching, intersection, hull, what is left of one after the other is taken away, gap and distance) - answer exactly according to the elements and values seen by iterating over the segments, and none of them changes the container.",
  ["histories","fault_sequences","configurations"],
  "Every reachable state (including segmentations left by failed updates) of every container kind, and every query argument on the tested universe.",
  "Tests query a few literal containers in canonical states.",
  ["concept/interval_associator.hpp","concept/interval_associator_base.hpp","concept/interval_set.hpp","concept/interval_map.hpp","detail/interval_set_algo.hpp","detail/interval_map_algo.hpp","detail/interval_subset_comparer.hpp","detail/element_iterator.hpp","detail/set_algo.hpp","interval_base_set.hpp","interval_base_map.hpp"],
  [("containment and overlap search","concept/interval_set.hpp, concept/interval_map.hpp: contains; concept/interval_associator.hpp: intersects"),("simultaneous walk of two containers","detail/interval_subset_comparer.hpp"),("element iteration","detail/element_iterator.hpp")],
  ["results of the queries versus the segment list"])

p("C20","Interval arithmetic agrees with the point sets intervals denote",
  "For every pair of intervals of any interval type and bounds, emptiness, containment, intersection, hull, left and right difference, touching, distance, gap, size and comparison agree with the sets of domain points the intervals denote.",
  ["inputs","configurations"],
  "All pairs of intervals of all static and dynamic interval types over all domains.",
  "Tests use literal pairs.",
  ["concept/interval.hpp","concept/interval_bounds.hpp","discrete_interval.hpp","continuous_interval.hpp","right_open_interval.hpp","left_open_interval.hpp","closed_interval.hpp","open_interval.hpp"],
  [("bound arithmetic","concept/interval.hpp; interval_bounds.hpp")],["return values"])

p("C21","Container operators obey the documented algebraic laws",
  "For all containers of one type, union/addition and intersection are associative and commutative with the documented neutral elements, distribute over each other where documented, and difference and symmetric difference satisfy the documented inversion laws, with element equality or lexicographical equality as documented per combining style.",
  ["inputs","configurations"],
  "All triples of containers of each type and each codomain law.",
  "The law-based validator of the library is not part of the suite; tests use literal instances.",
  ["concept/interval_associator.hpp","concept/interval_set.hpp","concept/interval_map.hpp","concept/element_associator.hpp"],
  [("operators","concept/interval_associator.hpp")],["return values"])

p("C22","Time, calendar, rational and string domains are ordered and stepped right",
  "Interval types over dates, time points, durations, rational numbers and strings step, measure and compare their bounds according to the domain's own arithmetic, so that discrete ones enumerate every unit exactly once and continuous ones never step.",
  ["inputs","configurations"],
  "All values of the adapted domain types.",
  "Tests use single literals per domain type.",
  ["ptime.hpp","gregorian.hpp","rational.hpp","type_traits/is_discrete.hpp","type_traits/succ_pred.hpp","type_traits/difference_type_of.hpp"],
  [("domain adapters","ptime.hpp, gregorian.hpp, rational.hpp")],["return values"])

p("C23","Every operation keeps to its documented amount of work in every history",
  "With n segments (or elements) in a container, m in an operand and k of the container's segments overlapped or touched by the operand, on every container kind, after any history of completed and failed operations, and also when the operation itself fails: finding, containing, intersecting or bounding an element or interval, and adding, inserting, setting, subtracting, erasing or flipping an element takes a number of steps proportional to log n; updating by an interval or segment log n plus a constant amount (flips: a search) per segment touched; hinted insertion of what fits behind the given position a constant number, whatever n; emptiness, iterative_size, interval_count, hull, first and last, begin and end, swap and moving a constant number; in-place union, difference, symmetric difference, insertion and erasure by a container, and containedness and intersection tests between containers, a search per segment of the operand and per segment touched (intersection tests of element containers: per element of either; flips and intersections of total maps work on the whole map); copying, comparing, clearing, joining, measuring (size, cardinality, length), domains, complements of gaps, in-place intersection and infix forms additionally a constant amount per segment of the containers; iterating over elements a constant amount per element. A container holds a constant number of memory blocks per segment.",
  ["inputs","histories","fault_sequences"],
  "All sizes, contents, operands, positions, histories and fault positions; constants are those of the present implementation with a margin (factor 3; 1.5 for hinted insertion).",
  "Tests work on a handful of segments and look at results only; the amount of work depends on size, position and history.",
  ["interval_base_set.hpp","interval_base_map.hpp","interval_set.hpp","interval_map.hpp","map.hpp","concept/interval_associator.hpp","concept/interval_set.hpp","concept/interval_map.hpp","concept/element_associator.hpp","detail/interval_subset_comparer.hpp","detail/interval_set_algo.hpp","detail/set_algo.hpp","detail/map_algo.hpp"],
  [("tree search with overlap equivalence","interval_base_set.hpp, interval_base_map.hpp: lower_bound, upper_bound, find"),("hinted insertion","interval_base_set.hpp, interval_base_map.hpp: add_, insert_ with a position"),("skipping segments outside the operand","detail/interval_subset_comparer.hpp next_both, next_left, next_right; detail/set_algo.hpp common_range"),("complexity tables","doc/functions_*.qbk, doc/implementation.qbk")],["operation counts"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
