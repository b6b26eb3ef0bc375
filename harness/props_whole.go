package main

import (
	"runtime"
	"sort"
	"time"

	"pgregory.net/rapid"
)

// ---- C35

// wholeCase is a pair of lists of prefixes, A and B, of a few shapes. What is
// done with them as a whole may take work in proportion to their lengths.
type wholeCase struct {
	S     Space // only where the lists are
	N, M  int
	Shape [2]string
	Seed  [2]uint64
	Vals  int
	Few   int // prefixes of B which are combined with all of A
}

var wholeShapes = []string{"dense", "every other", "random", "ladders", "tree", "pairs"}

func genWhole(t *rapid.T) wholeCase {
	c := wholeCase{S: genSpace(t, 4)}
	c.N = oneOf(t, 1, 40, 200, 600, 1500) + ri(t, 0, 40)
	c.M = oneOf(t, 1, 40, 200, 600, 1500) + ri(t, 0, 40)
	for i := range c.Shape {
		c.Shape[i] = oneOf(t, wholeShapes...)
		c.Seed[i] = uint64(ri(t, 0, 1<<20))
	}
	c.Vals = oneOf(t, 1, 2, 3, 1000)
	c.Few = ri(t, 1, 3)
	return c
}

// wholeList makes n prefixes, in no particular order
func wholeList(bits int, base U, shape string, seed uint64, n int) []Pfx {
	l := make([]Pfx, 0, n)
	w := 6 // bits of the window
	for 1<<w < 4*n {
		w++
	}
	rnd := func(i int) uint64 { return splitmix(seed<<20 + uint64(i)) }
	for i := 0; i < n; i++ {
		var p Pfx
		switch shape {
		case "dense":
			p = Pfx{u64(uint64(i)), bits}
		case "every other":
			p = Pfx{u64(uint64(2 * i)), bits}
		case "pairs": // the holes are a third of the size of what's between
			p = Pfx{u64(uint64(i/3*4 + i%3)), bits}
		case "random":
			p = Pfx{u64(rnd(i) & (1<<w - 1)), bits - int(rnd(i)>>60)%4}
		case "ladders": // each in the one before
			p = Pfx{U{rnd(i / bits), rnd(i/bits + n)}, i%bits + 1}
		case "tree": // all nodes of a complete binary tree
			d := 0
			for (2<<d)-1 <= i {
				d++
			}
			p = Pfx{u64(uint64(i-(1<<d)+1) << (w - d)), bits - w + d}
		}
		if shape != "ladders" {
			p.A = p.A.or(base.and(ones(w + 4).not()))
		}
		p.A = p.A.and(ones(bits))
		l = append(l, p.net(bits))
	}
	sort.Slice(l, func(i, j int) bool { return mixPfx(l[i]) < mixPfx(l[j]) })
	return l
}

func mixPfx(p Pfx) uint64 { return splitmix(splitmix(p.A.L+p.A.H*3) + uint64(p.N)) }

type wholeCost struct {
	x    *X
	what string
}

// atMost fails if f allocates more than that
func (c wholeCost) atMost(what string, limit int, f func()) {
	if d := allocsOf(f); d > uint64(limit) {
		c.x.Fail("%s: %s allocated %d objects, more than %d", c.what, what, d, limit)
	}
}

func runWholeTable(x *X, c wholeCase) {
	f := c.S.fam()
	bits := f.Bits()
	compared := 0
	cmp := func(a, b int) bool { compared++; return a == b }
	build := func(i, n int) (TabV[int], int) {
		m := newMTableCmp(f, cmp)
		for _, p := range wholeList(bits, c.S.Base, c.Shape[i], c.Seed[i], n) {
			m.InsertOrUpdate(f.KeyPfx(p), int(mixPfx(p)>>40)%c.Vals)
		}
		return m.Table(), int(m.NumEntries())
	}
	a, n := build(0, c.N)
	b, m := build(1, c.M)
	x.Label("A is " + c.Shape[0])
	x.NonTrivial(n >= 100)
	w := wholeCost{x, "table with " + itoa(n) + " entries (" + c.Shape[0] + "), other with " + itoa(m) + " (" + c.Shape[1] + ")"}
	count := func(what string, limit int, fn func()) {
		compared = 0
		fn()
		if compared > limit {
			x.Fail("%s: %s compared %d times, more than %d", w.what, what, compared, limit)
		}
	}
	yes := func(Pfx, int) bool { return true }
	ch := func(Pfx, int, int) bool { return true }
	w.atMost("Walk", 6*n+100, func() { a.Walk(yes) })
	w.atMost("NumEntries", 50, func() { a.NumEntries() })
	for _, d := range []struct {
		what string
		do   func()
	}{
		{"Diff", func() { a.Diff(b, ch, yes, yes, nil) }},
		{"Diff the other way", func() { b.Diff(a, ch, yes, yes, nil) }},
		{"Diff with all handlers", func() { a.Diff(b, ch, yes, yes, yes) }},
		{"Diff without handlers", func() { a.Diff(b, nil, nil, nil, nil) }},
		{"Diff of the same with all handlers", func() { a.Diff(a, ch, yes, yes, yes) }},
		{"Diff with an empty one", func() { a.Diff(zeroTable[int](f), ch, yes, yes, yes) }},
	} {
		w.atMost(d.what, 6*(n+m)+150, d.do)
		count(d.what, 3*(n+m)+50, d.do)
	}
	i := 0
	for _, d := range []struct {
		what string
		do   func(Pfx, int) int
	}{
		{"Map of all values", func(_ Pfx, v int) int { return v + 1000000 }},
		{"Map of some values", func(p Pfx, v int) int { return v + int(mixPfx(p)>>30&1)*1000000 }},
		{"Map of one value", func(p Pfx, v int) int {
			if i++; i == n/2 {
				return v + 1000000
			}
			return v
		}},
		{"Map to equal values", func(_ Pfx, v int) int { return v }},
	} {
		w.atMost(d.what, 8*n+150, func() { i = 0; a.Map(d.do) })
		count(d.what, 3*n+50, func() { i = 0; a.Map(d.do) })
	}
	w.atMost("Aggregate", 12*n+150, func() { a.Aggregate() })
	count("Aggregate", 8*n+50, func() { a.Aggregate() })
}

func runWholeSet(x *X, c wholeCase) {
	f := c.S.fam()
	bits := f.Bits()
	build := func(i, n int) (SetV, []Pfx) {
		s := f.NewMSet()
		for _, p := range wholeList(bits, c.S.Base, c.Shape[i], c.Seed[i], n) {
			if c.Shape[i] == "ladders" {
				// the far half of each step
				h := u64(1).shl(bits - p.N)
				p = Pfx{p.A.xor(h), p.N}.net(bits)
			} else if c.Shape[i] == "tree" && p.N != bits && mixPfx(p)>>40%8 != 0 {
				continue
			}
			s.Insert(f.ArgPfx(p))
		}
		return s.Set(), prefixesOf(s.Set())
	}
	a, la := build(0, c.N)
	b, lb := build(1, c.M)
	n, m := len(la), len(lb)
	x.Label("A is " + c.Shape[0])
	x.NonTrivial(n >= 100)
	w := wholeCost{x, "set of " + itoa(n) + " prefixes (" + c.Shape[0] + "), other of " + itoa(m) + " (" + c.Shape[1] + ")"}
	both := 12*(n+m) + 8*bits + 150
	aa, ab := f.ArgSet(a), f.ArgSet(b)
	u := a.Union(ab)
	for _, d := range []struct {
		what string
		do   func() SetV
	}{
		{"Union", func() SetV { return a.Union(ab) }},
		{"Intersection", func() SetV { return a.Intersection(ab) }},
		{"Difference", func() SetV { return a.Difference(ab) }},
		{"Difference the other way", func() SetV { return b.Difference(aa) }},
		{"Difference from the union", func() SetV { return u.Difference(aa) }},
		{"Intersection with the union", func() SetV { return a.Intersection(f.ArgSet(u)) }},
	} {
		r := len(prefixesOf(d.do()))
		w.atMost(d.what, both+12*r, func() { d.do() })
	}
	w.atMost("Contains", both, func() { u.Contains(aa) })
	w.atMost("Contains the other way", both+12*len(prefixesOf(u)), func() { a.Contains(f.ArgSet(u)) })
	w.atMost("Equal", 6*(n+m)+100, func() { a.Equal(b) })
	again, _ := build(0, c.N)
	w.atMost("Equal with another one", 6*(n+m)+100, func() { a.Equal(again) })
	w.atMost("IsEmpty", 6*n+100, func() { a.IsEmpty() })
	w.atMost("WalkPrefixes", 6*n+100, func() { a.WalkPrefixes(func(Pfx) bool { return true }) })
	w.atMost("WalkRanges", 16*n+100, func() { a.WalkRanges(func(Iv) bool { return true }) })
	w.atMost("String", 24*n+100, func() { _ = a.String() })
	if n > 0 {
		w.atMost("NumPrefixes", 8*n+100, func() { a.NumPrefixes(uint32(la[n/2].N)) })
		for _, l := range []int{la[0].N, la[n/2].N, bits} {
			w.atMost("FindAvailable", 24*n+150, func() { a.FindAvailable(Arg{}, uint32(l)) })
			w.atMost("FindAvailable with reservations", 24*(n+m)+8*bits+150, func() { a.FindAvailable(ab, uint32(l)) })
		}
	}
	// A few prefixes and the whole set
	for i := 0; i < c.Few && m > 0; i++ {
		p := lb[int(c.Seed[0]+uint64(i)*7)%m]
		if p.N < bits/2 {
			continue
		}
		arg := f.ArgPfx(p)
		in := 0 // prefixes which it covers
		for _, q := range la {
			if p.contains(bits, q) {
				in++
			}
		}
		limit := 8*bits + 12*in + 150
		w.atMost("Union with one prefix", limit, func() { a.Union(arg) })
		w.atMost("Difference with one prefix", limit, func() { a.Difference(arg) })
		w.atMost("Intersection with one prefix", limit, func() { a.Intersection(arg) })
		w.atMost("Contains one prefix", limit+12*bits, func() { a.Contains(arg) })
		one := f.ArgPfxSet(p)
		w.atMost("Union of one prefix with the set", limit, func() { one.Union(aa) })
		w.atMost("Intersection of one prefix with the set", limit, func() { one.Intersection(aa) })
		w.atMost("Difference of one prefix and the set", limit, func() { one.Difference(aa) })
	}
}

// ---- time: 32 times as much takes less than 450 times as long

type wholeTime struct {
	F     string
	Kind  string
	Shape [2]string
	N     int
}

func fixedWholeTime(tier string, emit func(wholeTime)) {
	n := 1000
	if tier == "thorough" {
		n = 4000
	}
	for _, f := range []string{"v4", "v6"} {
		for _, s := range []string{"every other", "pairs", "random"} {
			emit(wholeTime{f, "few", [2]string{s, s}, n})
		}
		for _, k := range []string{"table", "set"} {
			for _, s := range [][2]string{{"every other", "every other"}, {"dense", "random"}, {"random", "random"}, {"ladders", "ladders"}, {"tree", "random"}, {"pairs", "every other"}} {
				emit(wholeTime{f, k, s, n})
			}
		}
	}
}

func runWholeTime(x *X, c wholeTime) {
	x.Label(c.Kind)
	x.NonTrivial(true)
	if c.Kind == "few" {
		c.few(x)
		return
	}
	const more, limit = 32, 450
	small, big := c.ops(x, c.N), c.ops(x, c.N*more)
	for i := range small {
		// short ones are repeated so that they can be measured
		k := 1
		var s time.Duration
		for {
			s = howLong(func() {
				for j := 0; j < k; j++ {
					small[i].do()
				}
			})
			if s > 20*time.Microsecond || k > 1<<16 {
				break
			}
			k *= 4
		}
		max := s * limit
		used := time.Duration(0)
		best := time.Duration(1 << 62)
		for try := 0; ; try++ {
			if try == 5 {
				runtime.GC()
			}
			d := atLeast(func() {
				for j := 0; j < k; j++ {
					big[i].do()
				}
			})
			if d < best {
				best = d
			}
			used += d
			if best <= max {
				break
			}
			if try >= 40 || try >= 3 && used > 4*time.Second {
				x.Fail("%s of %s takes %v with %d prefixes and at least %v with %d", small[i].what, c.Kind, s/time.Duration(k), c.N, best/time.Duration(k), c.N*more)
			}
		}
	}
}

type timedOp struct {
	what string
	do   func()
}

// few does things with a large set and one prefix, which may take a tenth of
// the time it takes to visit all prefixes of the set. It's about a thousandth.
func (c wholeTime) few(x *X) {
	f := fams[c.F]
	bits := f.Bits()
	base := u64(0x5a5a5a).shl(bits - 24)
	s := f.NewMSet()
	l := wholeList(bits, base, c.Shape[0], 1, c.N*32)
	for _, p := range l {
		s.Insert(f.ArgPfx(p))
	}
	full := s.Set()
	whole := howLong(func() { full.WalkPrefixes(func(Pfx) bool { return true }) })
	t := timeCase{N: len(prefixesOf(full))}
	if t.N < 10000 {
		return // ladders may cover nearly everything
	}
	af, am := f.ArgSet(full), f.ArgMSet(s)
	for i := 0; i < 5; i++ {
		p := l[i*c.N]
		switch i {
		case 0:
			p = prefixesOf(full)[0]
		case 1:
			p = Pfx{p.A.xor(ones(bits)), p.N}.net(bits) // elsewhere
		case 2:
			p.N = bits - 4
			p = p.net(bits)
		}
		a, one := f.ArgPfx(p), f.ArgPfxSet(p)
		r := f.ArgRange(Iv{p.first(bits), p.first(bits).or(ones(5))})
		fast(x, t, whole, "Intersection with one prefix", func() { full.Intersection(a) })
		fast(x, t, whole, "Union with one prefix", func() { full.Union(a) })
		fast(x, t, whole, "Difference with one prefix", func() { full.Difference(a) })
		fast(x, t, whole, "Contains of one prefix", func() { full.Contains(a) })
		fast(x, t, whole, "Set_.Contains of one prefix", func() { s.Contains(a) })
		fast(x, t, whole, "Intersection of one prefix with the set", func() { one.Intersection(af) })
		fast(x, t, whole, "Difference of one prefix and the mutable set", func() { one.Difference(am) })
		fast(x, t, whole, "Union of one prefix with the set", func() { one.Union(af) })
		fast(x, t, whole, "Intersection with a small range", func() { full.Intersection(r) })
		fast(x, t, whole, "Difference with a small range", func() { full.Difference(r) })
		fast(x, t, whole, "Contains of a small range", func() { full.Contains(r) })
	}
}

func (c wholeTime) ops(x *X, n int) []timedOp {
	f := fams[c.F]
	bits := f.Bits()
	base := u64(0x5a5a5a).shl(bits - 24)
	la := wholeList(bits, base, c.Shape[0], 1, n)
	lb := wholeList(bits, base, c.Shape[1], 2, n)
	if c.Kind == "table" {
		build := func(l []Pfx) TabV[int] {
			m := newMTable[int](f)
			for i, p := range l {
				m.InsertOrUpdate(f.KeyPfx(p), i%3)
			}
			return m.Table()
		}
		a, b := build(la), build(lb)
		yes := func(Pfx, int) bool { return true }
		ch := func(Pfx, int, int) bool { return true }
		return []timedOp{
			{"building", func() { build(la) }},
			{"Walk", func() { a.Walk(yes) }},
			{"Diff", func() { a.Diff(b, ch, yes, yes, yes) }},
			{"Diff the other way", func() { b.Diff(a, ch, yes, yes, nil) }},
			{"Diff of equal ones", func() { a.Diff(a, ch, yes, yes, yes) }},
			{"Map of all values", func() { a.Map(func(_ Pfx, v int) int { return v + 1 }) }},
			{"Map to equal values", func() { a.Map(func(_ Pfx, v int) int { return v }) }},
			{"Aggregate", func() { a.Aggregate() }},
			{"removing every entry", func() {
				m := a.Mut()
				for _, p := range lb {
					m.Remove(f.KeyPfx(p))
				}
				for _, p := range la {
					m.Remove(f.KeyPfx(p))
				}
			}},
			{"looking up every entry", func() {
				for _, p := range la {
					a.LongestMatch(f.KeyPfx(p))
					a.Get(f.KeyPfx(p))
				}
			}},
		}
	}
	build := func(l []Pfx) SetV {
		s := f.NewMSet()
		for _, p := range l {
			if c.Shape[0] == "ladders" {
				p = Pfx{p.A.xor(u64(1).shl(bits - p.N)), p.N}.net(bits)
			}
			s.Insert(f.ArgPfx(p))
		}
		return s.Set()
	}
	a, b := build(la), build(lb)
	aa, ab := f.ArgSet(a), f.ArgSet(b)
	u := a.Union(ab)
	au := f.ArgSet(u)
	copied := build(la)
	return []timedOp{
		{"building", func() { build(la) }},
		{"Union", func() { a.Union(ab) }},
		{"Intersection", func() { a.Intersection(ab) }},
		{"Difference", func() { a.Difference(ab) }},
		{"Difference the other way", func() { b.Difference(aa) }},
		{"Difference of the union", func() { u.Difference(aa) }},
		{"Intersection with the union", func() { a.Intersection(au) }},
		{"Contains", func() { u.Contains(aa) }},
		{"Contains the other way", func() { a.Contains(au) }},
		{"Equal", func() { a.Equal(copied) }},
		{"IsEmpty", func() { a.IsEmpty() }},
		{"NumPrefixes", func() { a.NumPrefixes(uint32(bits)) }},
		{"WalkPrefixes", func() { a.WalkPrefixes(func(Pfx) bool { return true }) }},
		{"WalkRanges", func() { a.WalkRanges(func(Iv) bool { return true }) }},
		{"String", func() { _ = a.String() }},
		{"FindAvailable", func() { a.FindAvailable(Arg{}, uint32(bits-2)) }},
		{"FindAvailable with reservations", func() { u.FindAvailable(ab, uint32(bits-2)) }},
		{"removing every prefix", func() {
			m := u.Mut()
			for _, p := range la {
				m.Remove(f.ArgPfx(p))
			}
		}},
		{"looking for every prefix", func() {
			for _, p := range lb {
				a.Contains(f.ArgPfx(p))
			}
		}},
	}
}
