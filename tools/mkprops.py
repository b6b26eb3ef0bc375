#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def both(*names): return [f"{d}/{n}" for d in ("ipv4", "ipv6") for n in names]

TAB = both("table.go", "tablex.go", "node.go")
SET = both("set.go", "setnode.go", "node.go")
P = []
def p(id, title, statement, over, text, why, files, mech, observe, tech, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, tech=tech, note=note, state=state))

p("C01", "A mutable table is a map from prefixes to values",
  "After any history of insert, update, insert-or-update, get-or-insert and remove calls, a table holds exactly the entries a map keyed by prefix would hold, where two prefixes with the same length and the same bits up to that length are the same key and bits after the length are ignored. Every call reports what the map says: insert succeeds only if there was no entry, update and remove only if there was one, get-or-insert returns the value that ends up stored. The number of entries, exact lookups and a walk agree with the map after every step, for IPv4 and IPv6.",
  ["histories", "inputs"], "every sequence of table operations with keys of any length (including 0 and full length, with or without host bits, adjacent and nested) and any values",
  "Tests insert a handful of fixed prefixes; which internal nodes exist (with or without an entry, split nodes with one or two children) depends on the order of inserts and removals, and only some orders occur in tests.",
  TAB, [("path-copying insert and delete in a compressed binary trie", "ipv4/node.go: insert, del"), ("nodes without an entry where two branches meet", "ipv4/node.go: active"), ("errors turned into the results of calls", "ipv4/tablex.go")],
  ["results of Table_ methods", "Table.Walk", "NumEntries"],
  "model-based stateful property testing against a Go map", "Random histories (small colliding key windows and bulk fills) compared with a map after every operation; no bound on table size is proved.")
p("C02", "Longest prefix match is correct",
  "A lookup returns the entry with the longest prefix that contains the prefix or address which is looked up, with its value and its own prefix, and finds nothing exactly if no entry contains it. An entry never matches something shorter than itself. Exact lookup finds only the entry with the same prefix.",
  ["inputs", "histories"], "every table made by any history and every prefix or address looked up, in both families",
  "Tests look up a few fixed keys in fixed tables; a wrong comparison at one bit position, at a word boundary or at a node without entry only shows for particular pairs of table and key.",
  TAB, [("descent which remembers the last active node", "ipv4/node.go: Match"), ("comparison of the common bits", "ipv4/node.go: contains")],
  ["LongestMatch and Get of Table and Table_"], "property testing against a linear scan of a model map",
  "Random and bulk tables; looks up drawn keys and the neighbourhood of every entry.")
p("C03", "Tables are walked in order, once, until stopped",
  "Walking a table visits every entry exactly once with its value, ordered by network address with shorter prefixes before the longer ones they contain. If the callback returns false no more callbacks are made and the walk reports that it did not finish; otherwise it reports that it did.",
  ["inputs", "histories"], "every table made by any history, every position at which the callback stops",
  "Tests walk a few fixed tables and stop at one place.",
  TAB, [("pre-order traversal", "ipv4/node.go: Walk")], ["Table.Walk"], "property testing against a sorted model, with every stop position",
  "Random and bulk tables; all stop positions for small tables.")
p("C04", "Fixed tables and clones never change",
  "A fixed table never changes, whatever is done later to the mutable table it was taken from, to mutable tables made from it, or to fixed tables derived from it. A mutable table made from a fixed one starts with the same entries and is independent of all others, while copies of the same mutable table value always show the same entries. A build returns what the builder left if it reports success, and the original table otherwise.",
  ["histories"], "every history which interleaves modifications of several mutable tables with taking snapshots, clones, copies, builds, maps and aggregates",
  "Isolation breaks only if a write happens to modify a node which is shared with an older version in place; tests check one snapshot after one or two writes.",
  TAB, [("nodes are copied before they change", "ipv4/node.go: mutate, copyMutate"), ("the root is replaced atomically", "ipv4/tablex.go: mutate")],
  ["contents of every table, clone and snapshot at the end of the history"], "stateful model-based testing over a forest of tables",
  "Every table that was ever taken is compared with its own model at the end of every history.")
p("C05", "Diff reports exactly the difference",
  "Diff of two tables calls the handlers with every prefix which is only in the left table, only in the right table, or in both with values which differ, and, if there is a handler for it, with every prefix that is unchanged; each once, with the right values and in order of the prefixes across all handlers. Any handler can be nil, and if a handler returns false no more are called and diff reports that it did not finish. The result does not depend on whether the tables share structure, and differing values are decided by the comparator of the table.",
  ["inputs", "histories"], "every pair of tables, derived from each other by any history or built independently, any subset of handlers and any stop position",
  "There are many shapes in which two tries can overlap (one node inside, beside, equal to another, with or without entry), shared or not; tests list some of them.",
  TAB, [("simultaneous descent which skips shared nodes", "ipv4/node.go: diff, Diff")], ["order and arguments of the handlers of Diff", "result of Diff"],
  "property testing against the difference of two maps; exhaustive pairs of tables in a tiny window",
  "All pairs of tables over 3 nested prefixes with 3 values in several places are enumerated; larger ones are random.")
p("C06", "Cost follows the changes, not the size",
  "Comparing two tables which come from a few changes to the same table compares values only near those changes when there is no handler for unchanged entries. Converting between mutable and fixed tables or sets costs the same whatever their size, and one change to a large table or set allocates only along one path. Mapping a table to equal values shares with the original, so a diff of the two does not look at entries. Conversions, lookups, single changes and such diffs take time which does not grow with the size of the table or set.",
  ["inputs", "histories"], "every base table or set and every small set of changes",
  "Tests check contents; a change which copies everything or no longer skips shared parts leaves all contents right.",
  TAB + SET, [("pointer comparison before descending", "ipv4/node.go: diff"), ("path copying", "ipv4/node.go: mutate"), ("unchanged nodes are returned by Map", "ipv4/node.go: Map")],
  ["number of calls to the comparator", "heap allocations", "time"], "property testing with counted comparisons and allocations, and measured time, against a generous bound",
  "The bounds are several times what is needed and independent of the size; constant factors are not checked.")
p("C07", "Aggregation preserves every lookup",
  "For every address, a longest prefix match in the aggregated table finds something exactly if one in the original table does, and finds an equal value. The original table is not changed.",
  ["inputs", "histories"], "every table made by any history, with any comparator, and every address",
  "Whether an entry may be dropped or two halves combined depends on entries far up and down the trie; tests have a list of small tables.",
  TAB, [("redundant entries are dropped and halves combined on the way", "ipv4/node.go: aggregate")], ["LongestMatch before and after Aggregate"],
  "metamorphic property testing: lookups before and after, at every address where the result can change; exhaustive small tables",
  "All tables over the 7 prefixes of a 2 bit window with 3 values in several places are enumerated; larger ones are random and every boundary address is looked up.")
p("C08", "Aggregation leaves nothing redundant",
  "No entry of an aggregated table has the same value as the closest entry which contains it. No two entries of it are the halves of one prefix, with equal values, which could be replaced by one entry. Aggregating again changes nothing and an aggregated table never has more entries than the original.",
  ["inputs", "histories"], "every table made by any history, with any comparator",
  "As for lookups after aggregation: it depends on combinations of entries which tests only sample.",
  TAB, [("redundant entries are dropped and halves combined on the way", "ipv4/node.go: aggregate")], ["entries of the aggregated table"],
  "property testing with an invariant of the result; exhaustive small tables",
  "The documentation promises the minimum number of entries, which the code does not reach; that is a listed known finding and this checks local redundancy.")
p("C09", "Map transforms values and nothing else",
  "Mapping a table calls the mapper once for each entry with its prefix and value, and gives a table with the same prefixes and the values which were returned. The original table is not changed and the result keeps the comparator.",
  ["inputs", "histories"], "every table made by any history, any comparator and any mapper",
  "Tests map a few small tables; nodes without an entry, which the mapper must not see, occur in particular shapes.",
  TAB, [("recursive copy", "ipv4/node.go: Map")], ["calls to the mapper", "the result of Map"], "property testing against a mapped model map", "Random and bulk tables.")
p("C10", "Tables work for values of any type",
  "A table can hold values of any type, including nil interfaces, pointers, types which cannot be compared and zero sized ones, as long as a comparator is given where == is not defined. The comparator is the only thing which decides whether values are equal, in the table and everything derived from it, and it is only called with values that were stored.",
  ["inputs", "histories", "configurations"], "every value type, every comparator and every history of operations, diffs, maps and aggregates",
  "Tests use a few comparable types; a stray == on an interface panics only for uncomparable values on particular paths.",
  TAB, [("the comparator is kept with the table", "ipv4/tablex.go"), ("values are stored as interfaces", "ipv4/table.go")],
  ["results and panics with 14 value types"], "property testing over value types against a model", "The types are a fixed list of 14 which includes all kinds Go has for this purpose.")
p("C11", "Set algebra is exact",
  "Union, intersection and difference of sets of addresses contain exactly the addresses which the operation on sets of addresses gives, for all operands, including equal, empty, full, nested and adjacent ones, and operands given as address, prefix, range, fixed or mutable set. The operands are not changed.",
  ["inputs", "histories"], "every pair of sets, and sequences of operations on their results",
  "The cases depend on how prefixes in the two sets nest and share; tests sample a few.",
  SET + both("range.go", "prefix.go"), [("recursive merge of two tries", "ipv4/setnode.go: Union, Difference, Intersect")], ["results of Union, Intersection and Difference"],
  "differential property testing against interval sets; exhaustive pairs of subsets of 8 blocks",
  "All pairs of subsets of 8 blocks in one place and every subset everywhere are enumerated; larger sets are random.")
p("C12", "Sets have one canonical form",
  "Two sets compare equal exactly if they contain the same addresses, however they were made. A set is always held as the unique smallest list of prefixes which covers its addresses: walking the prefixes gives that list and the text of the set is the same for equal sets.",
  ["histories", "inputs"], "every pair of ways to make the same or almost the same set, by any sequence of insertions, removals and algebra",
  "A pair of halves which is not merged, or a leftover node, shows only after particular sequences; tests check few of them.",
  SET + both("range.go"), [("halves are merged after each operation", "ipv4/setnode.go: mutate, flatten"), ("structural comparison", "ipv4/setnode.go: Equal")],
  ["Set.Equal", "Set.WalkPrefixes", "Set.String"], "metamorphic property testing: two constructions of one set; exhaustive small sets",
  "All subsets of 8 blocks at every bit position are enumerated; larger sets are random.")
p("C13", "A mutable set is a set of addresses",
  "After any history of insertions and removals of addresses, prefixes, ranges and sets, a mutable set contains exactly the addresses which a set of addresses would contain. Counting, containment and emptiness agree with it after every step, and reading never modifies it.",
  ["histories", "inputs"], "every sequence of insertions and removals of anything that has addresses",
  "Tests insert and remove a handful of values in a fixed order.",
  SET, [("union and difference with one prefix trie", "ipv4/set.go: Insert, Remove")], ["all read methods of Set_ and Set"], "model-based stateful property testing against interval sets", "Random and bulk histories in windows across the address space.")
p("C14", "Fixed sets and clones never change",
  "A fixed set never changes, whatever is done later to the mutable set it came from, to mutable sets made from it or to other sets it was combined with. A mutable set made from a fixed one is independent of it, while copies of the same mutable set value always show the same addresses. A build returns what the builder left if it reports success, and the original set otherwise.",
  ["histories"], "every history which interleaves modifications of several sets with snapshots, clones, copies, builds and algebra",
  "Isolation breaks only if a shared node is modified in place, which depends on the history.",
  SET, [("nodes are copied before they change", "ipv4/setnode.go: mutate"), ("the root is replaced atomically", "ipv4/set.go: mutate")], ["contents of every set at the end of the history"],
  "stateful model-based testing over a forest of sets", "Every set that was ever taken is compared with its own model at the end of every history.")
p("C15", "Walking a set",
  "Walking the ranges of a set visits its maximal ranges in order, and neighbouring ranges are never reported apart; walking its prefixes visits, in order, disjoint prefixes which cover it, and walking its addresses visits each once in order. If the callback returns false no more callbacks are made and the walk reports that it did not finish. All of this holds at both ends of the address space.",
  ["inputs", "histories"], "every set made by any history, every stop position",
  "Tests walk few sets; overflow at the last address and merging across subtrees depend on the set.",
  SET + both("prefix.go"), [("adjacent prefixes are joined while walking", "ipv4/set.go: WalkRanges"), ("walkAddresses", "ipv4/prefix.go")], ["WalkPrefixes, WalkRanges, WalkAddresses"],
  "property testing against interval sets, with every stop position; exhaustive small sets", "All subsets of 8 blocks at every bit position are enumerated; larger sets are random. Addresses are walked up to a limited number.")
p("C16", "Counting addresses and prefixes",
  "The number of addresses in a set, prefix or range is exact. The number of prefixes of a given length which fit in a set, prefix or range is exact whenever it can be represented; otherwise, and if the length is longer than an address, an error is returned and never a wrong number.",
  ["inputs"], "every set, prefix and range, and every length including invalid ones",
  "Tests have fixed examples; sums overflow 64 bits only for particular sets.",
  SET + both("prefix.go", "range.go"), [("overflow checks in the sum", "ipv6/set.go: NumPrefixes"), ("shift by the difference of lengths", "ipv4/prefix.go: NumPrefixes")],
  ["NumAddresses, NumPrefixes"], "property testing against arithmetic on big integers", "Every length is asked for each set; IPv6 has no NumAddresses.")
p("C17", "Containment and emptiness",
  "A set, prefix or range contains another exactly if every address of the other is in it, so everything contains the empty set. A set is empty exactly if it has no addresses.",
  ["inputs"], "every pair of address, prefix, range and set, fixed or mutable",
  "Tests have a few pairs; near misses by one address at either end need their own shapes.",
  SET + both("prefix.go", "range.go"), [("difference is empty", "ipv4/set.go: Contains")], ["Contains of Set, Set_, Prefix and Range; IsEmpty"], "property testing against interval sets with near misses by one address", "Random sets; every boundary of the container is probed.")
p("C18", "Finding an available prefix",
  "Asking a set for an available prefix of some length returns a prefix of exactly that length, inside the set and disjoint from what is reserved, whenever there is one. It returns an error exactly if there is none, which includes lengths that do not exist. The prefix is taken from a smallest available block that is large enough, so that larger blocks are kept.",
  ["inputs"], "every set, every reserved set (nil included) and every length",
  "Tests have a few pools; whether the best block is found depends on the whole shape of both sets.",
  both("set.go", "setnode.go"), [("recursive search for the smallest block", "ipv4/setnode.go: FindSmallestContainingPrefix, best")], ["FindAvailablePrefix"],
  "property testing with a validity predicate computed from interval sets", "Any block among the smallest ones is accepted, as is any position in it.")
p("C19", "Range arithmetic",
  "A range made from two addresses has those ends, and making one with the ends in the wrong order reports that it is empty. Adding two ranges gives one range if they overlap or touch and otherwise both in order; subtracting gives the zero, one or two ranges which remain. This holds at both ends of the address space.",
  ["inputs"], "every pair of ranges",
  "Overlap, adjacency and shared ends at the first and last address of the space are combinations which tests sample.",
  both("range.go"), [("Plus and Minus", "ipv4/range.go")], ["results of Plus, Minus, Contains, First, Last"],
  "differential property testing against integer intervals; exhaustive pairs in a small window", "All pairs of ranges in a window of 6 units (16 in the thorough tier) in several places are enumerated.")
p("C20", "Prefix arithmetic",
  "For any prefix, the network part and the host part put together give its address, its range goes from the first to the last address it covers, and its two halves are disjoint and together cover it. Mask, length, broadcast address, number of addresses and integer values agree with each other. A prefix contains exactly the prefixes and addresses covered by its network, whatever its host bits are.",
  ["inputs"], "every address with every length, including 0 and full length",
  "Tests use fixed examples; shifts by the full width and host bits matter at particular lengths.",
  both("prefix.go", "address.go", "mask.go") + ["ipv6/uint128.go"], [("bit arithmetic on 32 and 128 bit integers", "ipv4/prefix.go, ipv6/uint128.go")], ["methods of Prefix"],
  "property testing against arithmetic on integers", "Random values with all lengths.")
p("C21", "Masks are runs of ones",
  "A mask can be made from an integer or a slice exactly if it is a run of ones followed by zeros of the right size, and from a length exactly if the length is between zero and the size of an address. The length, the integers, the text and the slice of a mask agree with each other and masks of equal length are equal.",
  ["inputs"], "every integer, slice and length",
  "Tests use fixed examples; every bit position matters.",
  both("mask.go") + ["ipv6/uint128.go"], [("counting leading ones", "ipv4/mask.go: valid, lengthToMask")], ["constructors and methods of Mask"],
  "property testing; exhaustive masks and single bit errors", "All masks, and all masks with one bit flipped, are enumerated; other integers are random.")
p("C22", "Values survive conversion",
  "Converting an address, mask or prefix to text, to the types of Go's net package, to integers or bytes and back gives an equal value. The text of an address is its standard form and the text of a prefix keeps host bits. Slices which are passed in or handed out are not shared with the value.",
  ["inputs"], "every address with every prefix length, in both families",
  "Tests use fixed examples; special forms such as IPv4-mapped addresses and the longest run of zeros need their own.",
  both("address.go", "prefix.go", "mask.go"), [("conversion through net.IP", "ipv4/address.go, ipv4/prefix.go")], ["String and the functions which parse it", "ToNetIP, ToNetIPNet, ToNetIPMask and back"],
  "round-trip property testing with net/netip as a second implementation", "Trusts the text format of Go's net/netip.")
p("C23", "Any input is parsed or refused",
  "Parsing any text, or converting any byte slice, network address or mask, either gives the value it stands for or an error, and never panics. Only addresses and prefixes of the right family are accepted; zones, missing or invalid lengths, and masks with holes are refused.",
  ["inputs"], "every string and every byte slice of any length, nil included",
  "Tests list some malformed inputs.",
  both("address.go", "prefix.go", "mask.go"), [("checks after parsing with package net", "ipv4/address.go: AddressFromString, ipv4/prefix.go: PrefixFromString")], ["all functions which make values from text, slices and package net"],
  "grammar-based and mutational fuzzing against an independent parser", "What IPv4 makes of text such as ::ffff:1.2.3.4 is left open, as are leading zeros in a prefix length.")
p("C24", "One API for both families",
  "The functions for both families give exactly what the function of the right family gives for the same input, whichever family that is. Combining values of different families is refused with an error, and so are values of foreign types.",
  ["inputs"], "every input and every pair of values of either family",
  "Tests cover a few inputs for each function.",
  ["ip/address.go", "ip/mask.go", "ip/prefix.go", "ip/range.go"], [("type switches over the two families", "ip/*.go")], ["every function of package ip"], "differential property testing against the two families", "The oracle is the package of the family, which has its own properties.")
p("C25", "Readers see one consistent state",
  "While one goroutine modifies a table or set, others may read it, take fixed copies of it and clone it without any coordination. Each read sees the complete result of some prefix of the modifications which was current during the read, never a mixture, and there is no data race. Fixed copies taken meanwhile stay as they are.",
  ["schedules", "histories"], "every history of modifications by one goroutine and every interleaving with reads by others",
  "Tests read and write from one goroutine.",
  both("set.go", "tablex.go", "unsafe_atomic.go", "table.go"), [("the root pointer is loaded once, atomically", "ipv4/unsafe_atomic.go"), ("nodes never change once they can be reached", "ipv4/node.go")],
  ["results of every read method during writes", "the race detector"], "history-based property testing with threads under the race detector, with reads injected in the middle of writes, and with generated and enumerated schedules of instrumented code against a linearizability check",
  "With the race detector the operating system chooses the schedules. Controlled schedules switch between statements of the packages and are sequentially consistent.")
p("C26", "Concurrent modifications are never lost",
  "If several goroutines modify the same table or set at the same time, each modification either takes effect as a whole, as if they had happened one after the other, or panics without any effect. No modification which returned is ever lost, and the table or set stays usable after a panic.",
  ["schedules", "histories"], "every interleaving of modifications by several goroutines, including one which happens completely in the middle of another",
  "Tests provoke one such conflict; whether an update is lost depends on the schedule.",
  both("set.go", "tablex.go", "unsafe_atomic.go"), [("compare and swap of the root, which panics if it changed", "ipv4/tablex.go: mutate; ipv4/set.go: mutate")],
  ["results and panics of modifications", "contents afterwards"], "property testing of serialisability with writes injected in the middle of writes, with threads under the race detector, and with generated and enumerated schedules of instrumented code against a linearizability check",
  "With the race detector the operating system chooses the schedules. Controlled schedules switch between statements of the packages and are sequentially consistent.")
p("C27", "Zero values and nil behave as documented",
  "The zero values of addresses, masks, prefixes and ranges are valid values, and the zero values of sets and tables, fixed or mutable, read as empty. Nil in place of a set is the empty set and in place of a prefix is the prefix of length zero, everywhere. Modifying a mutable set or table which was not initialised panics.",
  ["inputs", "configurations"], "every method with every kind of empty or nil operand, combined with any other operand",
  "Tests cover zero values for some methods.",
  TAB + SET + both("range.go", "prefix.go"), [("nil checks at the start of methods", "ipv4/set.go, ipv4/table.go, ipv4/tablex.go")], ["every method of Set, Set_, Table and Table_"], "metamorphic property testing: every kind of empty operand in place of another", "")
p("C28", "Equal values are identical",
  "Two addresses, masks, prefixes or ranges which stand for the same thing are equal with == and are the same key of a map, however they were made, and two which differ are not equal.",
  ["inputs"], "every pair of values and every pair of ways to make them",
  "Tests compare values made in the same way.",
  both("address.go", "mask.go", "prefix.go", "range.go"), [("structs of integers only", "ipv4/address.go, ipv4/prefix.go")], ["== and map lookups"], "metamorphic property testing: two constructions of a value", "")
p("C29", "Allocating and freeing prefixes",
  "Allocating prefixes of any lengths from a pool by repeatedly asking for an available prefix and reserving it never hands out an address twice or outside of the pool. It succeeds as long as any aligned block of that length is free, and freed prefixes can be allocated again.",
  ["histories"], "every pool, every sequence of allocations and releases of mixed lengths until there is no room",
  "Tests allocate a few prefixes from a fixed pool.",
  both("set.go", "setnode.go"), [("search for the smallest block", "ipv4/setnode.go"), ("insert and remove", "ipv4/set.go")], ["the prefixes which are handed out"], "stateful property testing against interval sets", "Pools are limited in size so that they can be exhausted.")

p("C30", "Callbacks may use tables and sets, and may panic",
  "A callback given to a walk, diff, map or build, a comparator, or the conversion of an operand may read and modify any mutable table or set, including the one which the fixed one was taken from, and may start other operations on the same ones. The operation on the fixed table or set carries on with the contents it started with and has the same results. If the callback panics the panic reaches the caller and nothing has changed except what the callback did itself; an interrupted write to a mutable table or set has no effect, and everything stays usable.",
  ["histories", "fault_sequences"], "every operation with a callback, at every call, whatever the callback does, including a panic",
  "Tests have callbacks which only collect results.",
  TAB + SET, [("operations work on nodes which never change", "ipv4/node.go, ipv4/setnode.go"), ("the root is replaced when the new trie is complete", "ipv4/tablex.go: mutate, ipv4/set.go: mutateNode")],
  ["results of the operation", "contents of all tables and sets in the callback and afterwards"],
  "stateful property testing with actions and panics injected in callbacks, against the undisturbed run and models", "One callback of each operation does something; small tables and sets.")
p("C31", "Memory follows what is stored",
  "The memory which is retained by a table or set depends on the entries or prefixes it holds now, not on its history: removed entries are not retained. Snapshots after single changes share everything except one path, a map which changes nothing shares everything, and tables and sets which are no longer used are not retained by others.",
  ["histories"], "every history of insertions, removals, snapshots, and derived tables and sets which are dropped or kept",
  "Tests look at contents; a node which is left behind or kept alive by another table shows in no result.",
  TAB + SET, [("nodes without entry and with one child are removed", "ipv4/node.go: del"), ("path copying", "ipv4/node.go: mutate, ipv4/setnode.go: mutate")],
  ["bytes in use after a garbage collection"], "property testing of histories with measured memory against a generous bound",
  "The bounds are about three times what is needed; constant factors are not checked.")
p("C32", "The same results on 32 bit platforms",
  "On platforms where an int has 32 bits every operation has the results it has on 64 bit platforms: counting, comparing, lengths, masks, ranges, sets, tables and parsing for both families, for all inputs including lengths and counts which do not fit in 31 bits.",
  ["configurations", "inputs"], "every input of every operation on a platform with 32 bit ints",
  "Tests only run on the platform they are run on, and mostly with small numbers.",
  TAB + SET + both("prefix.go", "range.go", "mask.go", "address.go") + ["ipv6/uint128.go"], [("explicitly sized integers", "ipv4/prefix.go, ipv6/uint128.go"), ("conversions to int", "ipv4/mask.go: Length, ipv4/address.go: NumBits")],
  ["results of all operations in a GOARCH=386 build"], "the property-based tests of the other properties, run as a 386 binary against the same models",
  "386 only, on a 64 bit kernel.")
p("C33", "Values can be shared by goroutines",
  "Addresses, masks, prefixes, ranges and fixed tables and sets can be used by any number of goroutines at once, in every way there is, without any coordination: there is no data race, each goroutine gets what it would have got alone, and what is shared does not change. Different mutable tables and sets are independent of each other, also when they were made from the same fixed one: different goroutines can modify them at the same time.",
  ["schedules", "inputs"], "every set of shared values, every sequence of operations by each goroutine and every interleaving of them",
  "Tests use each value from one goroutine; hidden shared state, such as a cache or a buffer, shows only under concurrency.",
  TAB + SET + both("prefix.go", "range.go", "address.go", "mask.go"), [("no state outside of values", "all files"), ("nodes never change once they can be reached", "ipv4/node.go, ipv4/setnode.go")],
  ["results of every operation in each goroutine", "contents of shared tables and sets", "the race detector"],
  "differential property testing with threads under the race detector and with generated schedules of instrumented code: the same steps at the same time and one after the other",
  "With the race detector, which finds a race in a run even if it did no harm, the operating system chooses the schedules. Controlled schedules switch between statements of the packages.")

p("C34", "Plain values without allocation",
  "An address has exactly the size of an address of its family (32 or 128 bits) and nothing more, and so has a mask; a prefix adds no more than a length to an address and a range is no more than two addresses. Making one of them from integers or from each other (networks, hosts, halves, broadcast, ranges, masks), asking it for its parts, comparing it and using it as the key of a map allocates no heap memory and never changes it.",
  ["inputs"], "every address, mask, prefix and range",
  "Tests look at results; extra fields, pointers and allocations show in none of them, and may only happen for some values.",
  both("address.go", "mask.go", "prefix.go", "range.go"), [("structs of integers only", "ipv4/address.go, ipv4/prefix.go, ipv6/uint128.go")], ["unsafe.Sizeof", "heap allocations", "the values after all calls"], "property testing with counted allocations",
  "Calls which take or return text, errors, slices, package net or interfaces are not counted.")

p("C35", "Work in proportion to what is processed",
  "Walking, mapping, comparing and aggregating a table, and combining, comparing, counting, walking and searching sets takes work which is at most proportional to the number of entries or prefixes of the operands and of the result, whatever their shape and depth. Map and aggregate build their results in place instead of going through every intermediate table. Combining a large set with one prefix, address or range, or asking whether it contains one, takes work only along the way to it.",
  ["inputs", "histories"], "every table, pair of tables, set and pair of sets, of any size, shape and depth",
  "Tests use small tables and sets and look at results; a step which is repeated for every entry, or for every level above it, is as correct and only shows in shapes and sizes that no test has.",
  TAB + SET, [("one pass over both tries", "ipv4/node.go: Map, aggregate, diff"), ("one pass over both tries of sets", "ipv4/setnode.go: Union, Difference, Intersect, FindSmallestContainingPrefix")],
  ["number of calls to the comparator", "heap allocations", "time"], "property testing with counted comparisons and allocations in generated shapes, and measured time for 32 times as much, against generous bounds",
  "Constant factors are not checked, and work which neither allocates nor calls the comparator is only measured as time in enumerated shapes.")

exec(open(os.path.join(root, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(root, "tools", "more_props.py")) else None

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for q in P:
        a = dict(files=q["files"], mechanism=[dict(name=n, where=w) for n, w in q["mech"]], observe_at=q["observe"], hook_needed=None)
        if q["state"]: a["state"] = q["state"]
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
            quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"], anchors=a)) + "\n")
m = dict(version=1, setup_cmd="./run.sh setup",
    checks=[dict(property=q["id"], quick_cmd=f"./run.sh check {q['id']}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh check {q['id']}",
        technique=q["tech"], level="exploration",
        level_note=("Held on all generated cases; no proof. " + q["note"]).strip()) for q in P],
    not_applicable=[],
    notes="One harness (harness/, Go and pgregory.net/rapid) decides all properties. There are no hooks in /repo. replays/ has the failing cases of a run; './run.sh replay FILE' runs one again.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
