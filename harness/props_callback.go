package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// ---- C30: callbacks which use the tables and sets, and which panic

type c30Case struct {
	S     Space
	Init  []TabOp
	Other []TabOp // changes to the other side of a diff
	Sets  []setOp
	Kind  string
	At    int // which call does something
	Act   []TabOp
	SAct  []setOp
	Arg   ArgSpec
	Op    TabOp
	N     int
	Panic bool
}

var c30Kinds = []string{
	"walk", "map", "diff", "build", "cmp-diff", "cmp-map", "cmp-aggregate", "key", "write-key", "write-cmp",
	"walk-prefixes", "walk-ranges", "walk-addresses", "set-build", "set-arg", "set-write",
}

func genC30(t *rapid.T) c30Case {
	c := c30Case{S: genSpace(t, 4), Kind: oneOf(t, c30Kinds...)}
	gop := genTabOp(c.S, 3, 0)
	gset := genSetOp(c.S, 0)
	c.Init = slice(t, []int{2, 8, 12}, gop)
	c.Other = slice(t, []int{0, 2}, gop)
	c.Sets = slice(t, []int{1, 4}, gset)
	c.Act = slice(t, []int{0, 1, 3}, gop)
	c.SAct = slice(t, []int{0, 1, 2}, gset)
	c.At = ri(t, 0, 40)
	c.Arg = c.S.arg(t)
	c.Op = gop(t)
	c.N = ri(t, 0, c.S.bits())
	c.Panic = chance(t, 7)
	return c
}

type c30Panic struct{ n int }

func runC30(x *X, c c30Case) {
	f := c.S.fam()
	bits := f.Bits()
	n := newNorm(x, f)
	x.Label(c.Kind)

	// The hook is called in each callback. One of them does something.
	var (
		calls, target = 0, -1
		inside        bool
		active        bool // the comparator is a callback
		hook          func()
	)
	fire := func() {
		if inside {
			return
		}
		calls++
		if calls-1 != target {
			return
		}
		inside = true
		defer func() { inside = false }()
		hook()
	}
	n.saw(c.Op.K.P)
	base := MTabV[int](normMTab[int]{newMTableCmp(f, func(a, b int) bool {
		if active {
			fire()
		}
		return a == b
	}), n})
	bm := Tab[int]{}
	for _, op := range c.Init {
		op.apply(x, f, n, base, bm)
	}
	snap, m := base.Table(), bm.clone()
	side, om := snap.Mut(), bm.clone()
	for _, op := range c.Other {
		op.apply(x, f, n, side, om)
	}
	other := side.Table()

	sbase := f.NewMSet()
	var sbm Ivs
	for _, o := range c.Sets {
		o.apply(f, sbase)
		sbm = o.model(bits, sbm)
	}
	ssnap, sm := sbase.Set(), sbm.clone()

	var events []string
	log := func(format string, a ...any) { events = append(events, fmt.Sprintf(format, a...)) }
	table := func(what string, t TabV[int]) {
		for _, e := range entriesOf(t) {
			log("%s %v:%v", what, e.P, e.V)
		}
	}
	entry := func(what string) func(p Pfx, v int) bool {
		return func(p Pfx, v int) bool {
			log("%s %v:%v", what, p, v)
			fire()
			return true
		}
	}
	diff := func() {
		log("%v", snap.Diff(other, func(p Pfx, a, b int) bool {
			log("changed %v:%v-%v", p, a, b)
			fire()
			return true
		}, entry("left"), entry("right"), entry("same")))
	}
	// the operations; those of the second kind modify base or sbase if they
	// return
	write := false
	op := func() {
		switch c.Kind {
		case "walk":
			log("%v", snap.Walk(entry("walk")))
		case "map", "cmp-map":
			table("mapped", snap.Map(func(p Pfx, v int) int {
				log("map %v:%v", p, v)
				if c.Kind == "map" {
					fire()
				}
				return v / 2
			}))
		case "diff", "cmp-diff":
			diff()
		case "cmp-aggregate":
			table("aggregated", snap.Aggregate())
		case "build":
			table("built", snap.Build(func(t MTabV[int]) bool {
				fire()
				t.InsertOrUpdate(c.Op.K.make(f), 77)
				fire()
				return true
			}))
		case "key":
			key := f.KeyFunc(func() Pfx {
				fire()
				return c.Op.K.P
			})
			v, ok := snap.Get(key)
			log("get %v %v", v, ok)
			v, ok, p := snap.LongestMatch(key)
			log("match %v %v %v", v, ok, p)
		case "walk-prefixes":
			log("%v", ssnap.WalkPrefixes(func(p Pfx) bool {
				log("%v", p)
				fire()
				return true
			}))
		case "walk-ranges":
			log("%v", ssnap.WalkRanges(func(v Iv) bool {
				log("%v", v)
				fire()
				return true
			}))
		case "walk-addresses":
			k := 0
			fin, ok := ssnap.WalkAddresses(func(a U) bool {
				log("%v", a)
				fire()
				k++
				return k < 50
			})
			log("%v %v", fin, ok)
		case "set-build":
			s := ssnap.Build(func(s MSetV) bool {
				fire()
				s.Insert(f.ArgPfx(c.Op.K.P))
				fire()
				return true
			})
			log("%v", contents(x, f, s))
		case "set-arg":
			arg := f.ArgFunc(func() SetV {
				fire()
				return buildSet(f, c.Arg.model(bits)).Set()
			})
			log("union %v", contents(x, f, ssnap.Union(arg)))
			log("intersection %v", contents(x, f, ssnap.Intersection(arg)))
			log("difference %v", contents(x, f, ssnap.Difference(arg)))
			log("contains %v", ssnap.Contains(arg))
			p, err := ssnap.FindAvailable(arg, uint32(c.N))
			log("available %v %v", p, err != nil)
		case "write-key", "write-cmp":
			if !write {
				return
			}
			key := c.Op.K.make(f)
			if c.Kind == "write-key" {
				key = f.KeyFunc(func() Pfx {
					fire()
					return c.Op.K.P
				})
			}
			n.saw(c.Op.K.P)
			c.Op.do(base, key)
		case "set-write":
			if !write {
				return
			}
			arg := f.ArgFunc(func() SetV {
				fire()
				return buildSet(f, c.Arg.model(bits)).Set()
			})
			if c.Op.Op == "remove" {
				sbase.Remove(arg)
			} else {
				sbase.Insert(arg)
			}
		}
	}
	run := func() (got []string) {
		events = nil
		calls = 0
		active = c.Kind[:3] == "cmp" || c.Kind == "write-cmp"
		defer func() { active = false }()
		op()
		return events
	}
	cmp := func(what string, got, want []string) {
		for i := range got {
			if i >= len(want) || got[i] != want[i] {
				w := "nothing"
				if i < len(want) {
					w = want[i]
				}
				x.Fail("%s: %s: result %d is %q, want %s", c.Kind, what, i, got[i], w)
			}
		}
	}
	same := func(what string, got, want []string) {
		cmp(what, got, want)
		if len(got) != len(want) {
			x.Fail("%s: %s: there are %d results, want %d", c.Kind, what, len(got), len(want))
		}
	}
	intact := func(what string) {
		wantTable(x, what+" (fixed table)", snap, m)
		wantTable(x, what+" (other fixed table)", other, om)
		wantTable(x, what+" (mutable table)", base.Table(), bm)
		wantSet(x, f, what+" (fixed set)", ssnap, sm)
		wantSet(x, f, what+" (mutable set)", sbase.Set(), sbm)
	}

	// without a hook
	hook = func() {}
	want := run()
	if c.Kind == "write-key" || c.Kind == "write-cmp" || c.Kind == "set-write" {
		// a write which panics in the middle
		write = true
		target = c.At % 3
		reached := false
		hook = func() {
			reached = true
			panic(c30Panic{1})
		}
		func() {
			defer func() {
				if r := recover(); r != nil && r != any(c30Panic{1}) {
					panic(r)
				}
			}()
			run()
		}()
		if !reached {
			return
		}
		write, target = false, -1
		intact("after a panic in the middle of a write")
		for _, op := range c.Act {
			op.apply(x, f, n, base, bm)
		}
		for _, o := range c.SAct {
			o.apply(f, sbase)
			sbm = o.model(bits, sbm)
		}
		intact("after a panic in the middle of a write and more writes")
		x.NonTrivial(true)
		return
	}
	total := calls
	if total == 0 {
		return
	}
	target = c.At % total
	reached, changed := false, 0
	var changedT TabV[int]
	var changedS SetV
	var wantNested []string
	hook = func() {
		reached = true
		save := events
		intact("in a callback")
		for _, op := range c.Act {
			op.apply(x, f, n, base, bm)
			changed++
		}
		for _, o := range c.SAct {
			o.apply(f, sbase)
			sbm = o.model(bits, sbm)
			changed++
		}
		intact("in a callback which has changed something")
		// the same operation from within
		saveActive := active
		events, active = nil, false
		op()
		same("inside a callback", events, want)
		// and on others
		events = nil
		ownT, ownS := snap, ssnap
		snap, ssnap = base.Table(), sbase.Set()
		changedT, changedS = snap, ssnap
		op()
		snap, ssnap = ownT, ownS
		wantNested = events
		events, active = save, saveActive
		if c.Panic {
			panic(c30Panic{2})
		}
	}
	panicked := false
	var got []string
	func() {
		defer func() {
			if r := recover(); r != nil {
				if r != any(c30Panic{2}) {
					panic(r)
				}
				panicked = true
			}
		}()
		got = run()
	}()
	if !reached {
		x.Fail("%s: %d callbacks the first time and only %d the second time", c.Kind, total, calls)
	}
	switch {
	case c.Panic && !panicked:
		x.Fail("%s: the panic of a callback is lost", c.Kind)
	case panicked:
		cmp("before the panic", events, want)
	default:
		same("with a callback which changes tables", got, want)
	}
	intact("at the end")
	target = -1
	same("afterwards", run(), want)
	snap, ssnap = changedT, changedS
	same("inside a callback, on what it has changed", wantNested, run())
	x.LabelIf(panicked, "panics")
	x.LabelIf(changed > 0, "changes tables")
	x.NonTrivial(panicked || changed > 0)
}
