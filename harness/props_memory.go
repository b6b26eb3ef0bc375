package main

import (
	"runtime"

	"pgregory.net/rapid"
)

// ---- C31: memory follows what is stored

type c31Case struct {
	S     Space
	Kind  string
	N     int // entries
	Len   int
	Churn int // how often everything is replaced
	Keep  int // entries which stay at the end
	Snaps int // snapshots which are kept
	Nest  bool
	Cmp   bool
	St    int
}

func genC31(t *rapid.T) c31Case {
	c := c31Case{S: genSpace(t, 6), Kind: oneOf(t, "table", "table", "set", "values")}
	c.N = oneOf(t, 600, 1200, 2500)
	bits := c.S.bits()
	c.Len = oneOf(t, 14, 20, bits, bits-3, bits/2+1)
	c.Churn = ri(t, 0, 2)
	c.Keep = oneOf(t, 0, 1, 10, 100)
	c.Snaps = oneOf(t, 0, 5, 50)
	c.Nest = chance(t, 6)
	c.Cmp = chance(t, 6)
	c.St = oneOf(t, 1, 7, 7919)
	return c
}

func (c c31Case) key(i int) Pfx {
	bits := c.S.bits()
	p := Pfx{c.S.Base.add(u64(uint64(i)).shl(bits - c.Len)).and(ones(bits)), c.Len}
	if c.Nest && i%7 == 0 {
		p.N -= 5
	}
	return p.net(bits)
}

// live is the number of bytes in use
func live() int64 {
	runtime.GC()
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	return int64(s.HeapAlloc)
}

const (
	nodeBytes  = 400      // generous: two nodes and a boxed value take about 130
	noiseBytes = 32 << 10 // what else may be allocated meanwhile
)

func runC31(x *X, c c31Case) {
	f := c.S.fam()
	bits := f.Bits()
	x.Label(c.Kind)
	// per is called with the number of entries (or prefixes) and single changes
	// that may still be in memory
	check := func(what string, before int64, entries, changes int) {
		limit := int64(entries)*nodeBytes + int64(changes)*int64(bits+4)*nodeBytes/2 + noiseBytes
		used := live() - before
		for i := 0; i < 3 && used > limit; i++ {
			used = live() - before
		}
		if used > limit {
			x.Fail("%s: %d bytes are in use with %d entries in memory (and %d changes kept), limit %d", what, used, entries, changes, limit)
		}
	}
	var keep []any
	start := live()
	switch c.Kind {
	case "table":
		t := newMTable[int](f)
		if c.Cmp {
			t = newMTableCmp(f, func(a, b int) bool { return a == b })
		}
		for r := 0; r <= c.Churn; r++ {
			for i := 0; i < c.N; i++ {
				t.InsertOrUpdate(f.KeyPfx(c.key(i*c.St%c.N)), i+r)
			}
			if r < c.Churn {
				for i := 0; i < c.N; i++ {
					t.Remove(f.KeyPfx(c.key(i)))
				}
			}
		}
		check("after filling the table", start, c.N, 0)
		fixed := t.Table()
		for i := 0; i < c.Snaps; i++ {
			t.InsertOrUpdate(f.KeyPfx(c.key(i*31%c.N)), -i)
			keep = append(keep, t.Table())
		}
		check("with snapshots after single changes", start, c.N, c.Snaps)
		// copies which are dropped don't stay
		for i := 0; i < 4; i++ {
			d := fixed.Mut()
			for j := 0; j < c.N; j++ {
				d.InsertOrUpdate(f.KeyPfx(c.key(j)), -j)
			}
			fixed.Map(func(p Pfx, v int) int { return v + 1 })
			fixed.Aggregate()
			fixed.Diff(d.Table(), nil, nil, nil, nil)
		}
		check("after copies were dropped", start, c.N, c.Snaps)
		runtime.KeepAlive(keep)
		keep = nil
		fixed = nil
		// a map to equal values shares
		fixed = t.Table()
		for i := 0; i < 8; i++ {
			fixed = fixed.Map(func(p Pfx, v int) int { return v })
			keep = append(keep, fixed)
		}
		check("with maps which change nothing", start, c.N, 0)
		runtime.KeepAlive(keep)
		keep = nil
		fixed = nil
		for i := c.Keep; i < c.N; i++ {
			t.Remove(f.KeyPfx(c.key(i)))
		}
		check("after entries were removed", start, c.Keep, 0)
		runtime.KeepAlive(t)
	case "values":
		c.values(x, f)
	case "set":
		s := f.NewMSet()
		el := func(i int) Arg { return f.ArgPfx(Pfx{c.key(2 * i).A, c.Len}) }
		for r := 0; r <= c.Churn; r++ {
			for i := 0; i < c.N; i++ {
				s.Insert(el(i * c.St % c.N))
			}
			if r < c.Churn {
				for i := 0; i < c.N; i++ {
					s.Remove(el(i))
				}
			}
		}
		check("after filling the set", start, c.N, 0)
		fixed := s.Set()
		for i := 0; i < c.Snaps; i++ {
			s.Remove(el(i * 31 % c.N))
			keep = append(keep, s.Set())
			s.Insert(el(i * 31 % c.N))
			keep = append(keep, s.Set())
		}
		check("with snapshots after single changes", start, c.N, 2*c.Snaps)
		for i := 0; i < 4; i++ {
			d := fixed.Mut()
			for j := 0; j < c.N; j += 2 {
				d.Remove(el(j))
			}
			fixed.Union(f.ArgMSet(d))
			fixed.Intersection(f.ArgMSet(d))
			fixed.Difference(f.ArgMSet(d))
		}
		check("after copies were dropped", start, c.N, 2*c.Snaps)
		runtime.KeepAlive(keep)
		keep = nil
		fixed = nil
		for i := c.Keep; i < c.N; i++ {
			s.Remove(el(i))
		}
		check("after prefixes were removed", start, c.Keep, 0)
		// everything between is filled: one range
		lo := c.key(0).A
		s.Insert(f.ArgRange(Iv{lo, Pfx{c.key(2*c.N - 1).A, c.Len}.last(bits)}.order()))
		check("after everything became one range", start, 2*bits, 0)
		runtime.KeepAlive(s)
	}
	x.NonTrivial(true)
}

func (v Iv) order() Iv {
	if v.Hi.lt(v.Lo) {
		return Iv{v.Hi, v.Lo}
	}
	return v
}

// values has big values in all prefixes of a small window: which of them are
// retained?
func (c c31Case) values(x *X, f Fam) {
	type value = *[32 << 10]byte
	const size = 32 << 10
	bits := f.Bits()
	top := bits - c.S.Off - c.S.W // length of the whole window
	var all []Pfx
	for l := 0; l <= c.S.W; l++ {
		for i := 0; i < 1<<l; i++ {
			all = append(all, Pfx{c.S.Base.add(u64(uint64(i)).shl(bits - top - l)).and(ones(bits)), top + l})
		}
	}
	t := newMTableCmp(f, func(a, b value) bool { return a == b })
	start := live()
	check := func(what string, n int) {
		used, limit := int64(0), int64(n)*(size+nodeBytes)+int64(len(all))*nodeBytes+noiseBytes
		for i := 0; i < 4; i++ {
			if used = live() - start; used <= limit {
				return
			}
		}
		x.Fail("%s: %d bytes are in use with %d values of %d bytes in the table, limit %d", what, used, n, size, limit)
	}
	st := c.St
	if st > 1 && len(all)%7 == 0 {
		st = 2 // len(all) is odd
	}
	for i := range all {
		t.Insert(f.KeyPfx(all[i*st%len(all)]), new([size]byte))
	}
	check("after filling the table", len(all))
	// replace, in each way there is
	for i, p := range all {
		switch i % 3 {
		case 0:
			t.Update(f.KeyPfx(p), new([size]byte))
		case 1:
			t.InsertOrUpdate(f.KeyPfx(p), new([size]byte))
		case 2:
			t.GetOrInsert(f.KeyPfx(p), new([size]byte))
		}
	}
	check("after values were replaced", len(all))
	t.Table().Map(func(Pfx, value) value { return new([size]byte) })
	check("after a map was dropped", len(all))
	// remove the shorter ones, which leaves nodes without an entry
	n := len(all)
	for _, p := range all[:len(all)/2] {
		t.Remove(f.KeyPfx(p))
		n--
	}
	check("after the shorter prefixes were removed", n)
	back := t.Table().Mut()
	for _, p := range all[:len(all)/2] {
		back.Insert(f.KeyPfx(p), nil)
		back.Remove(f.KeyPfx(p))
	}
	check("after adding and removing entries in a copy", n)
	for i, p := range all[len(all)/2:] {
		if i%4 != 0 {
			t.Remove(f.KeyPfx(p))
			n--
		}
	}
	back = nil
	check("after more were removed", n)
	runtime.KeepAlive(t)
	// values which are equal to others; an aggregated table keeps one for each
	// of its entries
	t = newMTableCmp(f, func(a, b value) bool { return a[0] == b[0] })
	for i := range all {
		i = i * st % len(all)
		v := new([size]byte)
		v[0] = byte(uint32(i+c.Keep) * 2654435761 >> 9 % 3)
		if c.Nest && i%5 == 0 {
			continue
		}
		t.Insert(f.KeyPfx(all[i]), v)
	}
	agg := t.Table().Aggregate()
	n = int(t.NumEntries())
	check("with an aggregated table", n)
	t = nil
	n = int(agg.NumEntries())
	check("of which only the aggregated table is left", n)
	back = agg.Mut()
	agg = nil
	var left []Pfx
	back.Table().Walk(func(p Pfx, v value) bool {
		left = append(left, p)
		return true
	})
	for i, p := range left {
		if i%2 == 0 {
			back.Remove(f.KeyPfx(p))
			n--
		}
	}
	check("after entries of the aggregated table were removed", n)
	runtime.KeepAlive(back)
}

// c31Forest is a history of tables or sets in some places. What is retained at
// any time follows what is in these places.
type c31Forest struct {
	F   string
	Set bool
	Cmp bool
	Len int
	Ops []c31Op
}

type c31Op struct {
	Op      string
	I, J, K int // places
	N, At   int // how many prefixes, from where
}

const c31Places = 5

func genC31Forest(t *rapid.T) c31Forest {
	c := c31Forest{F: genFam(t), Set: chance(t, 8), Cmp: chance(t, 5)}
	bits := fams[c.F].Bits()
	c.Len = oneOf(t, bits, bits-3, bits-9, bits/2+4)
	place := func() int { return ri(t, 0, c31Places-1) }
	n := ri(t, 4, 14)
	for i := 0; i < n; i++ {
		o := c31Op{I: place(), J: place(), K: place(), N: oneOf(t, 3, 300, 900), At: oneOf(t, 0, 0, 150, 900)}
		if i == 0 {
			o.Op, o.N = "fill", 900
		} else {
			o.Op = oneOf(t, "fill", "mut", "mut", "fix", "fix", "build", "build nothing", "build and give up", "derive", "derive", "derive", "insert", "remove", "remove", "remove all but", "remove all but", "use", "use", "drop", "drop", "only")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func (c c31Forest) key(bits, i int) Pfx {
	p := Pfx{u64(uint64(i)).shl(bits - c.Len).or(u64(3).shl(bits - 3)), c.Len}
	if c.Set {
		p.A = u64(uint64(2 * i)).shl(bits - c.Len).or(u64(3).shl(bits - 3))
	}
	return p
}

func runC31Forest(x *X, c c31Forest) {
	f := fams[c.F]
	bits := f.Bits()
	kind := "table"
	if c.Set {
		kind = "set"
	}
	x.Label(kind)
	used := 0 // so that nothing is optimized away
	big := false
	var tabs [c31Places]TabV[int]
	var mtabs [c31Places]MTabV[int]
	var sets [c31Places]SetV
	var msets [c31Places]MSetV
	drop := func(i int) { tabs[i], mtabs[i], sets[i], msets[i] = nil, nil, nil, nil }
	// what's in a place, fixed
	tab := func(i int) TabV[int] {
		if mtabs[i] != nil {
			return mtabs[i].Table()
		}
		if tabs[i] == nil {
			return zeroTable[int](f)
		}
		return tabs[i]
	}
	set := func(i int) SetV {
		if msets[i] != nil {
			return msets[i].Set()
		}
		if sets[i] == nil {
			return f.ZeroSet()
		}
		return sets[i]
	}
	removeTab := func(m MTabV[int], at, n int) {
		for i := at; i < at+n; i++ {
			m.Remove(f.KeyPfx(c.key(bits, i)))
		}
	}
	removeSet := func(m MSetV, at, n int) {
		for i := at; i < at+n; i++ {
			m.Remove(f.ArgPfx(c.key(bits, i)))
		}
	}
	const all = 1900
	start := live()
	check := func(step int, op string) {
		n := 0
		for i := range tabs {
			n += int(tab(i).NumEntries()) + len(prefixesOf(set(i)))
		}
		big = big || n >= 300
		limit, now := int64(n)*nodeBytes+noiseBytes, int64(0)
		for try := 0; try < 4; try++ {
			if now = live() - start; now <= limit {
				break
			}
		}
		if now > limit {
			x.Fail("after step %d (%s): %d bytes are in use with %d %s entries in memory, limit %d", step, op, now, n, kind, limit)
		}
	}
	for step, o := range c.Ops {
		i, j, k := o.I, o.J, o.K
		switch o.Op {
		case "fill":
			drop(i)
			if c.Set {
				s := f.NewMSet()
				for n := 0; n < o.N; n++ {
					s.Insert(f.ArgPfx(c.key(bits, o.At+n)))
				}
				msets[i] = s
			} else {
				m := newMTable[int](f)
				if c.Cmp {
					m = newMTableCmp(f, func(a, b int) bool { return a == b })
				}
				for n := 0; n < o.N; n++ {
					m.Insert(f.KeyPfx(c.key(bits, o.At+n)), (o.At+n)/4+1000)
				}
				mtabs[i] = m
			}
		case "mut":
			t, s := tab(i), set(i)
			drop(j)
			if c.Set {
				msets[j] = s.Mut()
			} else {
				mtabs[j] = t.Mut()
			}
		case "fix":
			t, s := tab(i), set(i)
			drop(j)
			if c.Set {
				sets[j] = s
			} else {
				tabs[j] = t
			}
		case "build", "build nothing", "build and give up":
			t, s := tab(i), set(i)
			drop(j)
			if c.Set {
				sets[j] = s.Build(func(m MSetV) bool {
					if o.Op != "build nothing" {
						removeSet(m, o.At, o.N)
					}
					return o.Op != "build and give up"
				})
			} else {
				tabs[j] = t.Build(func(m MTabV[int]) bool {
					if o.Op != "build nothing" {
						removeTab(m, o.At, o.N)
					}
					return o.Op != "build and give up"
				})
			}
		case "derive":
			if c.Set {
				a, b := set(i), f.ArgSet(set(k))
				drop(j)
				switch o.N {
				case 3:
					sets[j] = a.Union(b)
				case 300:
					sets[j] = a.Intersection(b)
				default:
					sets[j] = a.Difference(b)
				}
			} else {
				a := tab(i)
				drop(j)
				switch o.N {
				case 3:
					tabs[j] = a.Aggregate()
				case 300:
					tabs[j] = a.Map(func(_ Pfx, v int) int { return v })
				default:
					tabs[j] = a.Map(func(p Pfx, v int) int { return v&^1 + int(p.A.L&1) })
				}
			}
		case "insert":
			for n := o.At; n < o.At+o.N; n++ {
				if mtabs[i] != nil {
					mtabs[i].InsertOrUpdate(f.KeyPfx(c.key(bits, n)), n)
				}
				if msets[i] != nil {
					msets[i].Insert(f.ArgPfx(c.key(bits, n)))
				}
			}
		case "remove", "remove all but":
			lo := o.At
			if mtabs[i] != nil {
				if o.Op == "remove" {
					removeTab(mtabs[i], lo, o.N)
				} else {
					removeTab(mtabs[i], 0, lo)
					removeTab(mtabs[i], lo+4, all-lo-4)
				}
			}
			if msets[i] != nil {
				if o.Op == "remove" {
					removeSet(msets[i], lo, o.N)
				} else if o.N == 3 {
					msets[i].Remove(f.ArgPfx(Pfx{}))
				} else {
					removeSet(msets[i], 0, lo)
					msets[i].Remove(f.ArgRange(Iv{c.key(bits, lo+4).A, c.key(bits, all).A}))
				}
			}
		case "use":
			t, s := tab(i), set(i)
			if c.Set {
				b := set(k)
				for n := 0; n < 4; n++ {
					p := c.key(bits, o.At+n)
					if s.Contains(f.ArgPfx(p)) {
						used++
					}
				}
				n, _ := s.NumPrefixes(uint32(c.Len))
				used += int(n) + len(s.String())
				s.Equal(b)
				s.IsEmpty()
				s.NumAddresses()
				s.Contains(f.ArgSet(b))
				s.Union(f.ArgSet(b))
				s.Difference(f.ArgSet(b))
				s.Intersection(f.ArgSet(b))
				s.FindAvailable(f.ArgSet(b), uint32(c.Len))
				s.WalkRanges(func(Iv) bool { used++; return true })
				if msets[i] != nil {
					msets[i].Contains(f.ArgSet(b))
					msets[i].NumAddresses()
					msets[i].IsEmpty()
					msets[i].Union(f.ArgSet(b))
				}
			} else {
				b := tab(k)
				for n := 0; n < 4; n++ {
					p := c.key(bits, o.At+n)
					v, _ := t.Get(f.KeyPfx(p))
					w, _, _ := t.LongestMatch(f.KeyAddr(p.A))
					used += v + w
					if mtabs[i] != nil {
						v, _ := mtabs[i].Get(f.KeyPfx(p))
						w, _, _ := mtabs[i].LongestMatch(f.KeyAddr(p.A))
						used += v + w
					}
				}
				yes := func(Pfx, int) bool { used++; return true }
				t.Walk(yes)
				t.Diff(b, nil, yes, yes, yes)
				t.Diff(b, nil, nil, nil, nil)
				t.Aggregate()
				t.Map(func(_ Pfx, v int) int { return v + 1 })
			}
		case "drop":
			drop(i)
		case "only":
			for n := range tabs {
				if n != i {
					drop(n)
				}
			}
		}
		if step%3 == 2 || step == len(c.Ops)-1 || o.Op == "only" || o.Op == "drop" {
			check(step+1, o.Op)
		}
	}
	// Of one mutable one, not much is left
	for n := 0; n < c31Places; n++ {
		i := (c.Ops[0].J + n) % c31Places
		if mtabs[i] == nil && msets[i] == nil {
			continue
		}
		for j := range tabs {
			if j != i {
				drop(j)
			}
		}
		if c.Set {
			if c.Ops[0].K%2 == 0 {
				msets[i].Remove(f.ArgPfx(Pfx{}))
				msets[i].Insert(f.ArgPfx(c.key(bits, 5)))
			} else {
				removeSet(msets[i], 1, all)
			}
		} else {
			removeTab(mtabs[i], 1, all)
		}
		check(len(c.Ops)+1, "little left")
		break
	}
	x.LabelIf(used > 0, "used")
	x.NonTrivial(big)
	runtime.KeepAlive(&tabs)
	runtime.KeepAlive(&mtabs)
	runtime.KeepAlive(&sets)
	runtime.KeepAlive(&msets)
}
