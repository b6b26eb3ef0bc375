package main

// All properties, in order. The number of cases is for the quick and the
// thorough tier.

const (
	ruleTab = "Keys are drawn from a window of 1-6 bits moved anywhere in the IPv4 or IPv6 address space (with host bits, full length addresses, nil and other PrefixI implementations in the mix), so that keys collide and nest. "
	ruleSet = "Sets are built from ranges, prefixes and addresses in a window of 1-6 bits moved anywhere in the IPv4 or IPv6 address space, so that pieces touch, overlap and merge. "
)

func init() {
	register(&Prop{ID: "C01", Title: "Table_ behaves as a map",
		Rule: ruleTab + "A case is a history of operations compared with a Go map after every operation; plus tables with more than 65536 entries and a chain of nested ones. Non-trivial: at least 3 operations and either 2 entries at the end or an entry removed.",
		Parts: []*Part{
			part("history", 120000, 1500000, genC01, runC01),
			part("bulk", 1800, 20000, genC01Big, runC01),
			fixed(part("large", 0, 0, nil, runLarge), fixedLarge),
			fixed(part("scope", 0, 0, nil, runScopeC01), fixedScope),
		}})
	register(&Prop{ID: "C02", Title: "Longest prefix match",
		Rule: ruleTab + "A case builds a table and looks up drawn keys and everything around each entry; the oracle scans a map from the longest possible key. Non-trivial: more than 1 entry and a match strictly shorter than what was looked up.",
		Parts: []*Part{
			part("lookup", 100000, 900000, genC02(0), runC02),
			part("bulk", 2400, 20000, genC02(2000), runC02),
			fixed(part("large", 0, 0, nil, runC02), fixedLargeC02),
			fixed(part("scope", 0, 0, nil, runScopeC02), fixedScope),
		}})
	register(&Prop{ID: "C03", Title: "Table walk order",
		Rule: ruleTab + "A case builds a table with a history and walks it completely and with stops. Non-trivial: more than 2 entries.",
		Parts: []*Part{
			part("walk", 160000, 1500000, genC03(0), runC03),
			part("bulk", 2400, 20000, genC03(2000), runC03),
			fixed(part("large", 0, 0, nil, runC03), fixedLargeC03),
			fixed(part("scope", 0, 0, nil, runScopeC03), fixedScope),
		}})
	register(&Prop{ID: "C04", Title: "Table snapshots and clones are isolated",
		Rule: ruleTab + "A case is a history over a forest of tables, clones, aliases and builds; every live table is compared with its own map at the end and after steps. Non-trivial: more than 4 operations and a table is modified after a snapshot was taken of it.",
		Parts: []*Part{
			part("forest", 60000, 700000, genC04(0), runC04),
			part("bulk", 1200, 12000, genC04(500), runC04),
		}})
	register(&Prop{ID: "C05", Title: "Diff is exact",
		Rule: ruleTab + "A case changes two copies of a base table (or builds them apart) and compares all Diff calls with a diff of two maps, with nil handlers and stops; plus every pair of tables over the 3 prefixes of a one bit window with values from {none,1,2,3}. Non-trivial: both tables have entries (more than 1 for drawn cases).",
		Parts: []*Part{
			part("diff", 75000, 900000, genC05(0), runC05),
			part("bulk", 1200, 12000, genC05(500), runC05),
			fixed(part("pairs", 0, 0, nil, runTabPair), fixedTabPairs),
			fixed(part("large", 0, 0, nil, runC05), fixedLargeC05),
			fixed(part("scope", 0, 0, nil, runScopePair), fixedScopePairs),
		}})
	register(&Prop{ID: "C06", Title: "Cost follows the changes",
		Rule:  "A case has a base table of hundreds to thousands of entries and a few changes on either side. Calls to the comparator and heap allocations are counted and held against generous bounds which don't depend on the size of the table. Non-trivial: there are changes, and the table is more than twice as big as the bound on comparisons.",
		Notes: []string{"bounds are several times what the current code needs; a constant factor in cost isn't reported"},
		Parts: []*Part{
			measured(part("table", 1800, 30000, genC06, runC06)),
			measured(part("set", 1200, 20000, genC06Set, runC06Set)),
			measured(fixed(part("time", 0, 0, nil, runTime), fixedTime)),
		}})
	register(&Prop{ID: "C07", Title: "Aggregate keeps every lookup",
		Rule: ruleTab + "A case compares longest matches at every address where the result may change, before and after Aggregate; plus every table over the 7 prefixes of a two bit window with values from {none,1,2,3} in several places. Non-trivial: the aggregate has fewer entries.",
		Parts: []*Part{
			part("aggregate", 100000, 900000, genAgg(6, 0), runC07),
			part("bulk", 1200, 10000, genAgg(6, 700), runC07),
			fixed(part("small", 0, 0, nil, runSmallC07), fixedSmall),
			fixed(part("large", 0, 0, nil, runC07), fixedLargeAgg),
		}})
	register(&Prop{ID: "C08", Title: "Aggregate leaves nothing redundant",
		Rule:  ruleTab + "A case checks the entries of the aggregate for redundancy with the closest one around them and for halves that can be combined, and aggregates again; plus every table over the 7 prefixes of a two bit window. Non-trivial: the aggregate has fewer entries.",
		Known: knownC08,
		Parts: []*Part{
			part("aggregate", 100000, 900000, genAgg(6, 0), runC08),
			part("bulk", 1200, 10000, genAgg(6, 700), runC08),
			fixed(part("small", 0, 0, nil, runSmallC08), fixedSmall),
			fixed(part("large", 0, 0, nil, runC08), fixedLargeAgg),
		}})
	register(&Prop{ID: "C09", Title: "Map",
		Rule: ruleTab + "A case maps the values of a table and compares with mapping a Go map. Non-trivial: more than 2 entries and a mapper which changes values.",
		Parts: []*Part{
			part("map", 125000, 900000, genC09(0), runC09),
			part("bulk", 2000, 12000, genC09(700), runC09),
			part("types", 30000, 300000, genC09Typed, runC09Typed),
			fixed(part("large", 0, 0, nil, runC09), fixedLargeC09),
			fixed(part("scope", 0, 0, nil, runScopeC09), fixedScope),
		}})
	register(&Prop{ID: "C10", Title: "Values of any type",
		Rule: ruleTab + "A case runs a history with values of one of 18 types (uncomparable, nil interfaces, pointers, ...) with == or a custom comparator. Non-trivial: more than one entry.",
		Parts: []*Part{
			part("types", 100000, 700000, genC10, runC10),
		}})
	register(&Prop{ID: "C11", Title: "Set algebra",
		Rule: ruleSet + "A case is a sequence of unions, intersections and differences compared with interval sets; plus every pair of subsets of 8 blocks. Non-trivial: a result with more than one range (both not empty for enumerated pairs).",
		Parts: []*Part{
			part("algebra", 80000, 700000, genC11(6), runC11),
			fixed(part("pairs", 0, 0, nil, runSetPair), fixedSetPairs),
			fixed(part("large", 0, 0, nil, runC11), fixedLargeC11),
		}})
	register(&Prop{ID: "C12", Title: "Sets are canonical",
		Rule: ruleSet + "A case builds the same addresses in two ways, and other addresses, and compares Equal, prefixes and String. Non-trivial: a set with more than one range.",
		Parts: []*Part{
			part("canonical", 60000, 500000, genC12(6, 0), runC12),
			part("bulk", 1200, 10000, genC12(6, 300), runC12),
			fixed(part("small", 0, 0, nil, runSmallC12), fixedSets),
			fixed(part("large", 0, 0, nil, runC12), fixedLargeC12),
		}})
	register(&Prop{ID: "C13", Title: "Set_ behaves as a set of addresses",
		Rule: ruleSet + "A case is a history of Insert and Remove compared with an interval set. Non-trivial: more than 3 operations and at least one of them removes addresses.",
		Parts: []*Part{
			part("history", 50000, 900000, genC13(0), runC13),
			part("bulk", 800, 12000, genC13(400), runC13),
			fixed(part("large", 0, 0, nil, runC13), fixedLargeC13),
			fixed(part("scope", 0, 0, nil, runScopeC13), fixedScopeSets),
		}})
	register(&Prop{ID: "C14", Title: "Set snapshots and clones are isolated",
		Rule: ruleSet + "A case is a history over a forest of sets, clones, aliases and builds. Non-trivial: more than 4 operations and a set is modified after a snapshot was taken of it.",
		Parts: []*Part{
			part("forest", 50000, 700000, genC14(0), runC14),
			part("bulk", 750, 10000, genC14(300), runC14),
		}})
	register(&Prop{ID: "C15", Title: "Walking sets",
		Rule: ruleSet + "A case walks the prefixes, ranges and addresses of a set completely and with stops, compared with an interval set; plus all subsets of 8 blocks at every position of either end of the address space. Non-trivial: more than one range.",
		Parts: []*Part{
			part("walk", 80000, 700000, genC15(0), runC15),
			part("bulk", 1200, 10000, genC15(300), runC15),
			fixed(part("small", 0, 0, nil, runSmallC15), fixedSets),
			fixed(part("large", 0, 0, nil, runC15), fixedLargeC15),
		}})
	register(&Prop{ID: "C16", Title: "Counting addresses and prefixes",
		Rule: ruleSet + "A case counts addresses and prefixes of a length in sets, prefixes and ranges, compared with arithmetic on big integers. Non-trivial: a set with addresses, and a count which is neither 0 nor an error.",
		Parts: []*Part{
			part("count", 100000, 2000000, genC16(0), runC16),
			part("bulk", 1200, 12000, genC16(300), runC16),
			fixed(part("large", 0, 0, nil, runC16), fixedLargeC16),
			fixed(part("scope", 0, 0, nil, runScopeC16), fixedScopeSets),
		}})
	register(&Prop{ID: "C17", Title: "Contains and IsEmpty",
		Rule: ruleSet + "A case asks everything that has Contains about drawn sets and about near misses. Non-trivial: a set with addresses which contains some of the arguments and not others.",
		Parts: []*Part{
			part("contains", 60000, 1000000, genC17(0), runC17),
			part("bulk", 1200, 12000, genC17(300), runC17),
			fixed(part("large", 0, 0, nil, runC17), fixedLargeC17),
			fixed(part("scope", 0, 0, nil, runScopeC17), fixedSetPairs),
		}})
	register(&Prop{ID: "C18", Title: "FindAvailablePrefix",
		Rule: ruleSet + "A case asks for a prefix of every length of interest in a set with some of it reserved. Non-trivial: a prefix is found and some of the set is reserved.",
		Parts: []*Part{
			part("find", 80000, 700000, genC18(0), runC18),
			part("bulk", 1200, 10000, genC18(200), runC18),
			fixed(part("large", 0, 0, nil, runC18), fixedLargeC18),
			fixed(part("scope", 0, 0, nil, runScopeC18), fixedSetPairs),
		}})
	register(&Prop{ID: "C19", Title: "Range arithmetic",
		Rule: "A case has two ranges which share edges, touch, overlap or lie anywhere in the IPv4 or IPv6 address space, compared with intervals of big integers in both orders; plus all pairs of ranges in a small window at several places including both ends of the address space. Non-trivial: the ranges are different.",
		Parts: []*Part{
			part("ranges", 180000, 2000000, genC19, runC19),
			fixed(part("small", 0, 0, nil, runRangeQuad), fixedRanges),
		}})
	register(&Prop{ID: "C20", Title: "Prefix arithmetic",
		Rule: "A case has a prefix of any length with any host bits and another one or an address related to it, compared with arithmetic on integers. Non-trivial: neither length 0 nor full length, with host bits set.",
		Parts: []*Part{
			part("prefix", 1400000, 12000000, genC20, runC20),
		}})
	register(&Prop{ID: "C21", Title: "Masks",
		Rule: "A case has a length, an integer and a net.IPMask, which may or may not make a mask, compared with a scan of all masks; plus every mask and every mask with one bit flipped. Non-trivial: a mask can be made from the integer or the net.IPMask.",
		Parts: []*Part{
			part("mask", 900000, 8000000, genC21, runC21),
			fixed(part("all", 0, 0, nil, runC21), fixedMasks),
		}})
	register(&Prop{ID: "C22", Title: "Round trips through text and package net",
		Rule: "A case takes an address and a prefix through every representation there is and back. The oracle for text is package net/netip. Non-trivial: not the zero address and not length 0.",
		Parts: []*Part{
			part("roundtrip", 1200000, 12000000, genC22, runC22),
		}})
	register(&Prop{ID: "C23", Title: "Parsing arbitrary input",
		Rule: "A case has text (from a grammar of addresses, mutated text or noise), bytes and a mask of any length. The oracle is an independent parser and package net/netip. Non-trivial: text of more than one character.",
		Parts: []*Part{
			part("parse", 1400000, 12000000, genC23, runC23),
		}})
	register(&Prop{ID: "C24", Title: "Both families in one API",
		Rule: "A case has values of both families and arbitrary text and bytes. Every function of package ip is compared with the package of the family. Non-trivial: every case (each has mixed or equal families and foreign types).",
		Parts: []*Part{
			part("ip", 900000, 8000000, genC24, runC24),
		}})
	register(&Prop{ID: "C25", Title: "Reading while writing", Race: true,
		Rule:  ruleTab + "A case has a history of writes of one thread and reads of others. What a reader gets must be right for one of the states which existed between the start and the end of the read. Reads also happen at a chosen point in the middle of a write in the same thread, and writes when the argument of a read is evaluated. In sched parts the packages have a yield in front of every statement, the case says where another thread goes on, and the history must be linearizable; sched-pairs runs every schedule of a write and a read with one preemption, and with two at multiples of a stride; sched-trios stops a read at every statement until a write and the same read of another thread are done, which reads again a few statements later. Non-trivial: a read overlaps a write.",
		Notes: []string{"the schedule of threads is only controlled in sched parts, by statement and sequentially consistent; the parts with reads in the middle of a write are deterministic", "runs with the race detector: a race is reported whatever the values were"},
		Parts: []*Part{
			part("middle", 6000, 50000, genC25In, runC25In),
			part("middle-read", 6000, 50000, genC25Rd, runC25Rd),
			threads(part("table", 600, 12000, genC25, runC25)),
			threads(part("set", 400, 9000, genC25Set, runC25Set)),
			sched(part("sched-table", 24000, 240000, genSched(false), runSched)),
			sched(part("sched-set", 10000, 80000, genSchedSet(false), runSchedSet)),
			sched(fixed(part("sched-pairs", 0, 0, nil, runSchedPairs), fixedSchedPairs(false))),
			sched(fixed(part("sched-trios", 0, 0, nil, runTrio), fixedTrios)),
			sched(fixed(part("sched-trios-set", 0, 0, nil, runTrioSet), fixedTrioSets)),
		}})
	register(&Prop{ID: "C26", Title: "No lost updates", Race: true,
		Rule:  ruleTab + "A case has a write with other writes at a chosen point in the middle of it (when the key is read or at a call to the comparator), or threads which write different keys. Either a write panics and has no effect or all are as if one happened after the other. In sched parts the packages have a yield in front of every statement, the case says where another thread goes on, and the history must be linearizable; sched-pairs runs every schedule of two writes with one preemption, and with two at multiples of a stride. Non-trivial: the other writes change something or are detected; in sched parts, operations overlap.",
		Notes: []string{"the schedule of threads is only controlled in sched parts, by statement and sequentially consistent; the parts with writes in the middle of a write are deterministic"},
		Parts: []*Part{
			part("middle", 24000, 400000, genC26, runC26),
			part("middle-set", 16000, 300000, genC26Set, runC26Set),
			threads(part("threads", 1600, 25000, genC26Threads, runC26Threads)),
			sched(part("sched-table", 24000, 240000, genSched(true), runSched)),
			sched(part("sched-set", 10000, 80000, genSchedSet(true), runSchedSet)),
			sched(fixed(part("sched-pairs", 0, 0, nil, runSchedPairs), fixedSchedPairs(true))),
		}})
	register(&Prop{ID: "C27", Title: "Zero values and nil",
		Rule: ruleTab + "A case uses every kind of empty set and table, nil and zero value in place of a drawn one. Non-trivial: a set with addresses and a table with more than one entry are involved.",
		Parts: []*Part{
			part("zero", 36000, 200000, genC27, runC27),
		}})
	register(&Prop{ID: "C28", Title: "Equal values are ==",
		Rule: "A case makes two values in two of the ways there are to make one and compares with == and as keys of a map. Non-trivial: made in different ways or different.",
		Parts: []*Part{
			part("values", 1200000, 12000000, genC28, runC28),
		}})
	register(&Prop{ID: "C29", Title: "Allocating until exhaustion",
		Rule: ruleSet + "A case allocates and frees prefixes of mixed lengths from a pool. Non-trivial: more than 2 prefixes are allocated at the end. The part large allocates tens of thousands of blocks one by one, frees every second or third and allocates again.",
		Parts: []*Part{
			part("pool", 40000, 150000, genC29, runC29),
			fixed(part("large", 0, 0, nil, runLargeC29), fixedLargeC29),
		}})
	register(&Prop{ID: "C30", Title: "Callbacks may use tables and sets, and panic",
		Rule: ruleTab + "A case runs one operation with callbacks, in one of which the tables and sets are read and modified or which panics, and compares with the same operation without that and with models of all tables and sets. Non-trivial: the callback changes something or panics.",
		Parts: []*Part{
			part("callback", 60000, 700000, genC30, runC30),
		}})
	register(&Prop{ID: "C31", Title: "Memory follows what is stored",
		Rule:  "A case fills a table or set with hundreds to thousands of entries, replaces and removes them, keeps snapshots after single changes and drops others. The bytes in use after a garbage collection are held against a generous bound which only depends on the entries and single changes that are still reachable. The part forest has many small tables and sets made from others, of which few stay, and holds what is in use against what those need. Non-trivial: every case of the part memory; in forest, there are 300 or more entries at some time.",
		Notes: []string{"bounds are several times what the current code needs"},
		Parts: []*Part{
			measured(part("memory", 600, 9000, genC31, runC31)),
			measured(part("forest", 1200, 15000, genC31Forest, runC31Forest)),
		}})
	register(&Prop{ID: "C33", Title: "Values shared by goroutines", Race: true,
		Rule:  ruleTab + "A case has fixed tables and sets, some made from others, which 2 to 4 goroutines use at the same time in every way there is, and mutable ones made from them by each goroutine for itself. What each gets is compared with what it gets when the same steps are run by one goroutine after the other, and what was shared with models. Non-trivial: two goroutines do the same kind of thing, and the last table has more than one entry and the last set an address.",
		Notes: []string{"the schedule of threads is only controlled in the part sched-share, by statement", "runs with the race detector: a race is reported whatever the values were"},
		Parts: []*Part{
			threads(part("share", 2000, 40000, genC33(0, false), runC33)),
			threads(part("bulk", 300, 4500, genC33(300, false), runC33)),
			sched(part("sched-share", 8000, 120000, genC33Sched, runC33Sched)),
		}})
	register(&Prop{ID: "C34", Title: "Plain values",
		Rule:  "A case has an address, a prefix, a mask and a range, and makes values of each from integers and from each other, asks them for their parts, compares them and uses them as keys of a map, while heap allocations are counted. The values must be the same afterwards. Non-trivial: not the zero address and not length 0.",
		Notes: []string{"calls which are given or return text, slices, errors, package net or a SetI aren't counted"},
		Parts: []*Part{
			measured(part("plain", 400000, 4000000, genC34, runC34)),
		}})
	register(&Prop{ID: "C35", Title: "Linear work",
		Rule:  "A case has two lists of up to 1500 prefixes in one of six shapes (dense, every other, pairs, random, nested ladders, complete trees). Tables and sets of them are walked, mapped, compared, aggregated, combined and searched as a whole, and a set is combined with single prefixes of the other, while heap allocations and calls to the comparator are counted and held against generous bounds which are linear in the number of prefixes involved. The part time does the same and more with a number of prefixes and 32 times as many, which must take less than 450 times as long, and combines large sets with single prefixes and ranges, in less than a tenth of the time it takes to walk the set. Non-trivial: at least 100 prefixes.",
		Notes: []string{"bounds are several times what the current code needs; a constant factor in cost isn't reported"},
		Parts: []*Part{
			measured(part("table", 5000, 60000, genWhole, runWholeTable)),
			measured(part("set", 5000, 60000, genWhole, runWholeSet)),
			measured(fixed(part("time", 0, 0, nil, runWholeTime), fixedWholeTime)),
		}})
	register(&Prop{ID: "C32", Title: "The same results on 32 bit platforms",
		Rule:  "The checks of other properties with fewer cases, built for GOARCH=386 where int has 32 bits. Cases, oracles and what makes a case non-trivial are those of the property in the name of the part.",
		Notes: []string{"the 386 binary runs on the 64 bit kernel; other 32 bit platforms aren't run"},
		Parts: parts386(),
	})
	for _, p := range props {
		for _, q := range p.Parts {
			if q.Name == "scope" {
				switch p.ID {
				case "C05":
					p.Rule += " The part scope has every pair of tables with any of the 7 prefixes of a two bit window."
				case "C01", "C02", "C03", "C09":
					p.Rule += " The part scope has every table with any of the 7 prefixes of a two bit window, wherever the window is (and of the 15 of a three bit window in thorough runs), and does or looks up everything in and around the window."
				default:
					p.Rule += " The part scope has every set of any of 8 neighbouring blocks (or every pair of them) and everything in and around them."
				}
			}
			if q.Name == "large" && p.ID != "C01" && p.ID != "C29" {
				p.Rule += " The part large has the same checks of a few histories with more than 65536 entries or ranges."
			}
		}
	}
}

// parts386 are parts of other properties, with fewer cases
func parts386() (l []*Part) {
	for _, p := range props {
		switch p.ID {
		case "C06", "C25", "C26", "C30", "C31", "C33", "C34", "C35":
			continue // nothing that depends on the size of an int
		}
		for _, from := range p.Parts {
			q := *from
			q.Name = p.ID + "-" + from.Name
			div := 8
			switch p.ID {
			case "C16", "C18", "C19", "C20", "C21", "C22", "C23", "C24":
				div = 3 // arithmetic
			}
			q.Quick /= div
			q.Thorough /= div
			if q.Fixed != nil && p.ID != "C19" && p.ID != "C21" {
				if q.Gen == nil || q.Quick == 0 {
					continue
				}
				q.Fixed = nil
			}
			l = append(l, &q)
		}
	}
	return l
}
