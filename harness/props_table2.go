package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"

	"pgregory.net/rapid"
)

// ---- C06

type c06Case struct {
	S    Space
	N    int // entries in the base table
	Len  int // their prefix length, all different
	Nest bool
	St   int
	Ops  []TabOp // few changes
	Back []TabOp // changes to the other side
	Nil  int     // handlers other than unchanged which are nil
}

func genC06(t *rapid.T) c06Case {
	c := c06Case{S: genSpace(t, 5)}
	c.N = oneOf(t, 300, 700, 1500, 3000)
	bits := c.S.bits()
	c.Len = oneOf(t, 12, 20, 24, bits, bits-3, bits/2+1)
	c.Nest = chance(t, 6)
	c.St = oneOf(t, 1, 7919)
	c.Nil = ri(t, 0, 7)
	gop := func(t *rapid.T) TabOp {
		op := genTabOp(c.S, 4, 0)(t)
		if chance(t, 10) {
			// one of the entries of the base table
			op.K = KeySpec{"pfx", c.key(ri(t, 0, c.N-1))}
		}
		return op
	}
	c.Ops = slice(t, []int{0, 1, 2}, gop)
	c.Back = slice(t, []int{0, 0, 1}, gop)
	if len(c.Ops) > 6 {
		c.Ops = c.Ops[:6]
	}
	if len(c.Back) > 6 {
		c.Back = c.Back[:6]
	}
	return c
}

func (c c06Case) key(i int) Pfx {
	bits := c.S.bits()
	p := Pfx{c.S.Base.add(u64(uint64(i)).shl(bits - c.Len)).and(ones(bits)), c.Len}
	if c.Nest && i%7 == 0 {
		p.N -= 5
	}
	return p.net(bits)
}

// allocsOf counts heap allocations
func allocsOf(f func()) uint64 {
	var a, b runtime.MemStats
	best := ^uint64(0)
	for i := 0; i < 3 && best > 40; i++ {
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		if d := b.Mallocs - a.Mallocs; d < best {
			best = d
		}
	}
	return best
}

func runC06(x *X, c c06Case) {
	f := c.S.fam()
	bits := f.Bits()
	n := newNorm(x, f)
	compared := 0
	base := MTabV[int](normMTab[int]{newMTableCmp(f, func(a, b int) bool { compared++; return a == b }), n})
	m := Tab[int]{}
	for j := 0; j < c.N; j++ {
		i := j * c.St % c.N
		k := c.key(i)
		base.InsertOrUpdate(f.KeyPfx(k), i%4)
		m[k] = i % 4
	}
	snap := base.Table()
	if snap.NumEntries() != int64(len(m)) {
		x.Fail("base table has %d entries, want %d", snap.NumEntries(), len(m))
	}
	size := len(m)

	// Copies in both directions cost the same for any size.
	compared = 0
	var keepT TabV[int]
	var keepM MTabV[int]
	if d := allocsOf(func() { keepT = base.Table() }); d > 60 {
		x.Fail("Table_.Table allocated %d objects with %d entries", d, size)
	}
	if d := allocsOf(func() { keepM = snap.Mut() }); d > 60 {
		x.Fail("Table.Table_ allocated %d objects with %d entries", d, size)
	}
	if d := allocsOf(func() { snap.Build(func(MTabV[int]) bool { return true }) }); d > 80 {
		x.Fail("Build allocated %d objects with %d entries", d, size)
	}
	_, _ = keepT, keepM
	if compared > 16 {
		x.Fail("conversions compared values %d times with %d entries", compared, size)
	}

	// A change copies only the path to it.
	work := snap.Mut()
	wm := m.clone()
	for _, op := range c.Ops {
		runtime.GC()
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		op.apply(x, f, n, work, wm)
		runtime.ReadMemStats(&b)
		if d := b.Mallocs - a.Mallocs; d > uint64(6*bits+100) && d > uint64(size/2) {
			x.Fail("%v allocated %d objects with %d entries", op, d, size)
		}
	}
	other := snap.Mut()
	om := m.clone()
	for _, op := range c.Back {
		op.apply(x, f, n, other, om)
	}

	// Diff with no handler for unchanged skips what's common.
	changes := len(c.Ops) + len(c.Back)
	limit := changes*(bits+2) + 16
	left, right := work.Table(), other.Table()
	events := 0
	handler := func(Pfx, int) bool { events++; return true }
	ch := func(Pfx, int, int) bool { events++; return true }
	l, r := handler, handler
	if c.Nil&1 != 0 {
		ch = nil
	}
	if c.Nil&2 != 0 {
		l = nil
	}
	if c.Nil&4 != 0 {
		r = nil
	}
	compared = 0
	left.Diff(right, ch, l, r, nil)
	if compared > limit {
		x.Fail("Diff compared %d entries after %d changes to a table of %d entries", compared, changes, size)
	}
	if events > changes {
		x.Fail("Diff found %d differences after %d changes", events, changes)
	}
	x.LabelIf(events > 0, "differences found")
	compared = 0
	snap.Diff(base.Table(), ch, l, r, nil)
	if compared > 16 {
		x.Fail("Diff compared %d entries of two identical tables", compared)
	}

	// Map keeps the structure if values compare equal.
	mapped := left.Map(func(p Pfx, v int) int { return v })
	compared = 0
	left.Diff(mapped, ch, l, r, nil)
	if compared > 16 {
		x.Fail("Diff compared %d entries after a Map which changed nothing", compared)
	}
	if len(c.Ops) > 0 {
		only := c.Ops[0].K.P.net(bits)
		mapped = left.Map(func(p Pfx, v int) int {
			if p == only {
				return v + 10
			}
			return v
		})
		compared = 0
		left.Diff(mapped, ch, l, r, nil)
		if lim := bits + 18; compared > lim {
			x.Fail("Diff compared %d entries after a Map which changed at most one", compared)
		}
	}
	x.LabelIf(c.Nest, "nested")
	x.NonTrivial(changes > 0 && size > 2*limit)
}

// The set counterpart: conversions are cheap for sets as well.
type c06Set struct {
	S   Space
	N   int
	Len int // length of the prefixes in the set
	Ops []setOp
}

func genC06Set(t *rapid.T) c06Set {
	c := c06Set{S: genSpace(t, 4), N: oneOf(t, 300, 1000, 2500)}
	bits := c.S.bits()
	c.Len = oneOf(t, bits, bits, bits-5, 16, bits/2+1)
	for i := ri(t, 1, 4); i > 0; i-- {
		o := setOp{Op: oneOf(t, "insert", "remove"), Arg: ArgSpec{K: "pfx", P: c.S.pfx(t)}}
		if chance(t, 50) {
			// in the middle of the set
			k := ri(t, 0, 2*c.N)
			o.Arg.P = Pfx{c.key(k), ri(t, max(0, c.Len-8), bits)}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func (c c06Set) key(i int) U {
	bits := c.S.bits()
	return c.S.Base.add(u64(uint64(i)).shl(bits - c.Len)).and(ones(bits))
}

func runC06Set(x *X, c c06Set) {
	f := c.S.fam()
	bits := f.Bits()
	s := f.NewMSet()
	for i := 0; i < c.N; i++ {
		s.Insert(f.ArgPfx(Pfx{c.key(2 * i), c.Len}))
	}
	snap := s.Set()
	var k1 SetV
	var k2 MSetV
	if d := allocsOf(func() { k1 = s.Set() }); d > 60 {
		x.Fail("Set_.Set allocated %d objects for %d prefixes", d, c.N)
	}
	if d := allocsOf(func() { k2 = snap.Mut() }); d > 60 {
		x.Fail("Set.Set_ allocated %d objects for %d prefixes", d, c.N)
	}
	if d := allocsOf(func() { snap.Build(func(MSetV) bool { return true }) }); d > 80 {
		x.Fail("Set.Build allocated %d objects for %d prefixes", d, c.N)
	}
	_, _ = k1, k2
	// One change allocates along one path, and so does a union or difference
	// with one prefix.
	for _, o := range c.Ops {
		arg := o.Arg.make(f)
		var what string
		var d uint64
		var r SetV
		for _, way := range []int{0, 1} {
			switch {
			case way == 0 && o.Op == "insert":
				what, d = "Union", allocsOf(func() { r = snap.Union(arg) })
			case way == 0:
				what, d = "Difference", allocsOf(func() { r = snap.Difference(arg) })
			case o.Op == "insert":
				what, d = "Insert", allocsOf(func() { m := snap.Mut(); m.Insert(arg) })
			default:
				what, d = "Remove", allocsOf(func() { m := snap.Mut(); m.Remove(arg) })
			}
			if d > uint64(10*bits+100) && d > uint64(c.N/2) {
				x.Fail("%s of %v allocated %d objects for %d prefixes", what, o.Arg, d, c.N)
			}
		}
		x.LabelIf(!r.Equal(snap), "changed by "+o.Op)
		snap = r
	}
	x.NonTrivial(true)
}

// ---- C07 and C08

type aggCase struct {
	S    Space
	Init TabInit
	Mod  int
	Ops  []TabOp
}

func genAgg(maxW, bulk int) func(t *rapid.T) aggCase {
	return func(t *rapid.T) aggCase {
		c := aggCase{S: genSpace(t, maxW), Init: genTabInit(t)}
		if chance(t, 3) {
			c.Mod = 2
		}
		vals := oneOf(t, 2, 2, 3, 1, 4)
		gop := genTabOp(c.S, vals, bulk)
		c.Ops = slice(t, []int{3, 8, 16, 30}, func(t *rapid.T) TabOp {
			op := gop(t)
			if op.Op != "remove" && !op.bulk() {
				op.Op = "iou"
			}
			return op
		})
		return c
	}
}

func (c aggCase) table(x *X, n *norm) (MTabV[int], Tab[int]) {
	f := c.S.fam()
	if c.Mod == 0 {
		return buildTable(x, f, n, c.Init, c.Ops)
	}
	t := MTabV[int](normMTab[int]{newMTableCmp(f, func(a, b int) bool { return a%c.Mod == b%c.Mod }), n})
	m := Tab[int]{}
	for _, op := range c.Ops {
		op.apply(x, f, n, t, m)
	}
	m = Tab[int]{}
	for _, e := range entriesOf(t.Table()) {
		m[e.P] = e.V
	}
	return t, m
}

func eqMod(mod int) func(a, b int) bool {
	if mod == 0 {
		return func(a, b int) bool { return a == b }
	}
	return func(a, b int) bool { return a%mod == b%mod }
}

// checkAggLookups compares lookups of every address between a table and its
// aggregate. The result can only change at a boundary of an entry.
func checkAggLookups(x *X, f Fam, orig TabV[int], m Tab[int], eq func(a, b int) bool) Tab[int] {
	bits := f.Bits()
	agg := orig.Aggregate()
	am := Tab[int]{}
	for _, e := range entriesOf(agg) {
		if _, dup := am[e.P]; dup {
			x.Fail("aggregated table has %v twice", e.P)
		}
		am[e.P] = e.V
	}
	if agg.NumEntries() != int64(len(am)) {
		x.Fail("aggregated table has %d entries, NumEntries is %d", len(am), agg.NumEntries())
	}
	at := map[U]bool{}
	m.boundaries(bits, at)
	am.boundaries(bits, at)
	i := 0
	for _, a := range sortedU(at) {
		q := Pfx{a, bits}
		_, want, wok := m.lpm(bits, q)
		_, got, gok := am.lpm(bits, q)
		if wok != gok || wok && !eq(want, got) {
			x.Fail("entries of the aggregate, %v, give %v, %v for %v; want %v, %v", am.keys(), got, gok, a, want, wok)
		}
		if i++; i > 400 {
			continue
		}
		got, gok, _ = agg.LongestMatch(f.KeyAddr(a))
		if wok != gok || wok && !eq(want, got) {
			x.Fail("LongestMatch(%v) in the aggregate, %v, is %v, %v; want %v, %v", a, am.keys(), got, gok, want, wok)
		}
	}
	wantTable(x, "original after Aggregate", orig, m)
	return am
}

func runC07(x *X, c aggCase) {
	f := c.S.fam()
	n := newNorm(x, f)
	t, m := c.table(x, n)
	am := checkAggLookups(x, f, t.Table(), m, eqMod(c.Mod))
	m.labels(x, f.Bits())
	x.LabelIf(len(am) < len(m), "fewer entries")
	x.LabelIf(c.Mod > 0, "custom comparator")
	x.NonTrivial(len(am) < len(m) && len(m) > 2)
}

func runSmallC07(x *X, c smallTab) {
	f := fams[c.F]
	n := newNorm(x, f)
	m := c.model()
	t := MTabV[int](normMTab[int]{newMTable[int](f), n})
	for _, k := range m.keys() {
		t.Insert(f.KeyPfx(k), m[k])
	}
	am := checkAggLookups(x, f, t.Table(), m, eqMod(0))
	x.NonTrivial(len(am) < len(m))
}

// checkAggMinimal is what holds of every aggregate: no entry is redundant with
// the closest one that contains it and there are no two halves that could be
// combined.
func checkAggMinimal(x *X, f Fam, orig TabV[int], count int, eq func(a, b int) bool) Tab[int] {
	bits := f.Bits()
	agg := orig.Aggregate()
	am := Tab[int]{}
	for _, e := range entriesOf(agg) {
		am[e.P] = e.V
	}
	if len(am) > count {
		x.Fail("the aggregate has %d entries, more than the %d of the original", len(am), count)
	}
	for _, k := range am.keys() {
		v := am[k]
		if p, ok := am.parent(bits, k); ok && eq(am[p], v) {
			x.Fail("aggregate %v has entry %v with the same value as %v which contains it", am, k, p)
		}
		if k.N == 0 {
			continue
		}
		sib := Pfx{k.A.xor(u64(1).shl(bits - k.N)), k.N}
		sv, ok := am[sib]
		if !ok || !eq(sv, v) {
			continue
		}
		x.Fail("aggregate %v has both halves %v and %v with an equal value", am, k, sib)
	}
	// it is as small as it gets by doing it again
	again := agg.Aggregate()
	if d := again.NumEntries(); d != int64(len(am)) {
		x.Fail("aggregating twice changes the number of entries from %d to %d", len(am), d)
	}
	for _, e := range entriesOf(again) {
		v, ok := am[e.P]
		if !ok || !eq(v, e.V) {
			x.Fail("aggregating twice changes the result: %v, was %v, %v", e, v, ok)
		}
	}
	return am
}

func runC08(x *X, c aggCase) {
	f := c.S.fam()
	n := newNorm(x, f)
	t, m := c.table(x, n)
	am := checkAggMinimal(x, f, t.Table(), len(m), eqMod(c.Mod))
	m.labels(x, f.Bits())
	x.LabelIf(len(am) < len(m), "fewer entries")
	x.NonTrivial(len(am) < len(m) && len(m) > 2)
}

func runSmallC08(x *X, c smallTab) {
	f := fams[c.F]
	n := newNorm(x, f)
	m := c.model()
	t := MTabV[int](normMTab[int]{newMTable[int](f), n})
	for _, k := range m.keys() {
		t.Insert(f.KeyPfx(k), m[k])
	}
	am := checkAggMinimal(x, f, t.Table(), len(m), eqMod(0))
	x.NonTrivial(len(am) < len(m))
}

// knownC08 looks at the recorded finding: Aggregate's documentation promises
// the minimum set of entries, these have an equivalent with fewer.
func knownC08(listed map[string]string) (out []string) {
	type kf struct {
		id  string
		tab Tab[int]
		min int
	}
	at := func(last uint64, n int) Pfx { return Pfx{u64(10<<24 | 224<<16 | 24<<8 | last), n} }
	for _, k := range []kf{
		{"pushed-down-default", Tab[int]{at(0, 30): 1, at(0, 31): 2, at(1, 32): 1, at(0, 32): 2}, 2},
		{"shadowed-by-halves", Tab[int]{at(0, 24): 1, at(0, 25): 2, at(128, 25): 3}, 2},
	} {
		line, ok := listed[k.id]
		if !ok {
			continue
		}
		t := newMTable[int](fam4{})
		for p, v := range k.tab {
			t.Insert(fam4{}.KeyPfx(p), v)
		}
		if t.Table().Aggregate().NumEntries() > int64(k.min) {
			out = append(out, line)
		}
	}
	return out
}

// ---- C09

type c09Case struct {
	S    Space
	Init TabInit
	Mod  int
	Ops  []TabOp
	Fn   int // which mapper
	Sel  []Pfx
}

func genC09(bulk int) func(t *rapid.T) c09Case {
	return func(t *rapid.T) c09Case {
		c := c09Case{S: genSpace(t, 5), Init: genTabInit(t), Fn: ri(t, 0, 4)}
		if chance(t, 4) {
			c.Mod = 2
		}
		c.Ops = slice(t, []int{2, 8, 20}, genTabOp(c.S, 4, bulk))
		c.Sel = slice(t, []int{0, 1}, func(t *rapid.T) Pfx { return c.S.pfx(t).net(c.S.bits()) })
		return c
	}
}

func runC09(x *X, c c09Case) {
	f := c.S.fam()
	n := newNorm(x, f)
	t, m := aggCase{c.S, c.Init, c.Mod, nil}.table(x, n)
	for _, op := range c.Ops {
		if c.Mod > 0 && op.Op == "goi" {
			op.Op = "iou"
		}
		op.apply(x, f, n, t, m)
	}
	if c.Mod > 0 {
		m = Tab[int]{}
		for _, e := range entriesOf(t.Table()) {
			m[e.P] = e.V
		}
	}
	sel := map[Pfx]bool{}
	for _, p := range c.Sel {
		sel[p] = true
	}
	mapper := func(p Pfx, v int) int {
		switch c.Fn {
		case 0:
			return v
		case 1:
			return v + 1
		case 2:
			return v + 2 // equal modulo 2
		case 3:
			return p.N
		}
		if sel[p] {
			return v + 5
		}
		return v
	}
	snap := t.Table()
	keys := m.keys()
	i := 0
	res := snap.Map(func(p Pfx, v int) int {
		if i >= len(keys) || keys[i] != p || m[p] != v {
			x.Fail("call %d of the mapper is with %v:%d; entries %v", i, p, v, keys)
		}
		i++
		return mapper(p, v)
	})
	if i != len(keys) {
		x.Fail("the mapper was called %d times for %d entries", i, len(keys))
	}
	eq := eqMod(c.Mod)
	check := func(what string, res TabV[int], m Tab[int], fn func(Pfx, int) int) {
		got := entriesOf(res)
		if len(got) != len(m) || res.NumEntries() != int64(len(m)) {
			x.Fail("%s: %d entries, NumEntries %d, want %d", what, len(got), res.NumEntries(), len(m))
		}
		for j, e := range got {
			v, ok := m[e.P]
			if !ok {
				x.Fail("%s: has entry %v", what, e)
			}
			want := fn(e.P, v)
			// it doesn't modify anything if values compare equal
			if e.V != want && !(eq(v, want) && e.V == v) {
				x.Fail("%s: entry %v, want value %d", what, e, want)
			}
			if j > 0 && !got[j-1].P.less(e.P) {
				x.Fail("%s: entry %v after %v", what, e, got[j-1])
			}
		}
	}
	check("Map", res, m, mapper)
	check("original after Map", snap, m, func(p Pfx, v int) int { return v })
	check("Map(nil)", snap.Map(nil), m, func(p Pfx, v int) int { return v })
	// lookups work in the result and it's a table like any other
	for j, k := range keys {
		if j > 30 {
			break
		}
		v, ok, p := res.LongestMatch(f.KeyPfx(k))
		want := mapper(k, m[k])
		if !ok || p != k || v != want && !(eq(m[k], want) && v == m[k]) {
			x.Fail("LongestMatch(%v) in the mapped table is %v, %v, %v", k, v, ok, p)
		}
	}
	if len(keys) > 0 {
		k := keys[len(keys)/2]
		mut := res.Mut()
		if !mut.Remove(f.KeyPfx(k)) || mut.NumEntries() != int64(len(keys)-1) {
			x.Fail("could not remove %v from a clone of the mapped table", k)
		}
		if res.NumEntries() != int64(len(keys)) {
			x.Fail("the mapped table changed with its clone")
		}
	}
	m.labels(x, f.Bits())
	x.LabelIf(c.Mod > 0, "custom comparator")
	x.NonTrivial(len(m) > 2 && c.Fn > 0)
}

// ---- C10

type c10Case struct {
	S    Space
	Type string
	Cust bool
	Ops  []TabOp
	Side []TabOp // changes to a clone
}

var c10Types = []string{"string", "slice", "map", "func", "ptr", "any", "error", "struct", "array", "bool", "float", "empty", "nested", "chan", "guarded", "twin", "twinany", "twinerr", "twinstruct"}

func genC10(t *rapid.T) c10Case {
	c := c10Case{S: genSpace(t, 4), Type: oneOf(t, c10Types...), Cust: rapid.Bool().Draw(t, "cust")}
	gop := genTabOp(c.S, 5, 0)
	c.Ops = slice(t, []int{3, 8, 20}, gop)
	c.Side = slice(t, []int{0, 2}, gop)
	return c
}

type c10Struct struct {
	A string
	B [2]int
	C any
}

type c10Guarded struct{ v *int }

type c10Twin struct {
	P *int
	N any
}

var c10Zeros [8]int // different pointers to equal values
var c10Errs = [4]error{errors.New("x"), errors.New("x"), errors.New("y"), nil}

type c10Err string

func (e c10Err) Error() string { return string(e) }

var c10Ints = [8]int{0, 1, 2, 3, 4, 5, 6, 7}
var c10Chans = [8]chan int{nil, make(chan int), make(chan int, 1), make(chan int, 2), make(chan int, 3), make(chan int, 4), make(chan int, 5), make(chan int, 6)}

func runC10(x *X, c c10Case) {
	x.Label(c.Type)
	switch c.Type {
	case "string":
		mk := func(i int) string { return []string{"", "a", "b", "ab", "c", "d"}[i%6] }
		runTypedCmp(x, c, mk)
	case "slice":
		runTyped(x, c, func(i int) []int {
			if i == 0 {
				return nil
			}
			return []int{i, 1}
		}, nil)
	case "map":
		runTyped(x, c, func(i int) map[string]int {
			if i == 0 {
				return nil
			}
			return map[string]int{"a": i}
		}, nil)
	case "func":
		type fn func() int
		run := func(f fn) int {
			if f == nil {
				return -1
			}
			return f()
		}
		runTyped(x, c, func(i int) fn {
			if i == 0 {
				return nil
			}
			return func() int { return i }
		}, func(a, b fn) bool { return run(a) == run(b) })
	case "ptr":
		mk := func(i int) *int {
			if i == 0 {
				return nil
			}
			return &c10Ints[i%8]
		}
		runTypedCmp(x, c, mk)
	case "any":
		mk := func(i int) any { return []any{nil, 1, "1", 1.5, int8(1), c10Err("x")}[i%6] }
		if !c.Cust {
			runTypedCmp(x, c, mk)
		} else {
			runTyped(x, c, func(i int) any { return []any{nil, 1, "1", []int{1}, map[int]int{}, struct{}{}}[i%6] }, nil)
		}
	case "error":
		mk := func(i int) error {
			if i == 0 {
				return nil
			}
			return c10Err(fmt.Sprint(i))
		}
		runTypedCmp(x, c, mk)
	case "struct":
		mk := func(i int) c10Struct {
			return []c10Struct{{}, {A: "x"}, {B: [2]int{0, 1}}, {C: 1}, {C: "1"}, {A: "x", C: 1}}[i%6]
		}
		runTypedCmp(x, c, mk)
	case "twin":
		runTypedCmp(x, c, func(i int) *int { return &c10Zeros[i%8] })
	case "twinany":
		runTypedCmp(x, c, func(i int) any {
			return []any{&c10Zeros[0], &c10Zeros[1], int32(1), int64(1), c10Errs[0], c10Errs[1]}[i%6]
		})
	case "twinerr":
		runTypedCmp(x, c, func(i int) error { return c10Errs[i%4] })
	case "twinstruct":
		runTypedCmp(x, c, func(i int) c10Twin { return c10Twin{&c10Zeros[i%3], &c10Zeros[i%2]} })
	case "array":
		runTypedCmp(x, c, func(i int) [3]byte { return [3]byte{0, byte(i), 0} })
	case "bool":
		runTypedCmp(x, c, func(i int) bool { return i%2 == 1 })
	case "float":
		runTypedCmp(x, c, func(i int) float64 {
			return []float64{0, 1, math.Inf(1), math.SmallestNonzeroFloat64, math.Copysign(0, -1), 2}[i%6]
		})
	case "empty":
		runTypedCmp(x, c, func(i int) struct{} { return struct{}{} })
	case "nested":
		runTyped(x, c, func(i int) [][]string { return [][]string{nil, {fmt.Sprint(i)}}[:1+i%2] }, nil)
	case "guarded":
		// the comparator must only ever see values that were stored
		runTyped(x, c, func(i int) c10Guarded { return c10Guarded{&c10Ints[i%8]} }, func(a, b c10Guarded) bool {
			if a.v == nil || b.v == nil {
				x.Fail("the comparator was called with a value that was never stored: %v, %v", a, b)
			}
			return *a.v == *b.v
		})
	case "chan":
		runTypedCmp(x, c, func(i int) chan int { return c10Chans[i%8] })
	}
}

// runTypedCmp is for comparable types: == or a custom comparator
func runTypedCmp[T comparable](x *X, c c10Case, mk func(int) T) {
	if c.Cust {
		runTyped(x, c, mk, func(a, b T) bool { return a == b })
		return
	}
	runTypedOn(x, c, newMTable[T](c.S.fam()), mk, func(a, b T) bool { return a == b })
}

func runTyped[T any](x *X, c c10Case, mk func(int) T, eq func(a, b T) bool) {
	x.Label("custom comparator")
	if eq == nil {
		eq = func(a, b T) bool { return reflect.DeepEqual(a, b) }
	}
	runTypedOn(x, c, newMTableCmp(c.S.fam(), eq), mk, eq)
}

func runTypedOn[T any](x *X, c c10Case, raw MTabV[T], mk func(int) T, eq func(a, b T) bool) {
	f := c.S.fam()
	bits := f.Bits()
	n := newNorm(x, f)
	show := func(v T) string { return fmt.Sprintf("%#v", v) }
	var same func(t TabV[T], m Tab[T], what string)
	same = func(t TabV[T], m Tab[T], what string) {
		got := entriesOf(t)
		keys := m.keys()
		if len(got) != len(keys) || t.NumEntries() != int64(len(keys)) {
			x.Fail("%s: %d entries, NumEntries %d, want %d", what, len(got), t.NumEntries(), len(keys))
		}
		for i, e := range got {
			if e.P != keys[i] || !eq(e.V, m[e.P]) {
				x.Fail("%s: entry %d is %v:%s, want %v:%s", what, i, e.P, show(e.V), keys[i], show(m[keys[i]]))
			}
			if v, ok := t.Get(f.KeyPfx(e.P)); !ok || !eq(v, m[e.P]) {
				x.Fail("%s: Get(%v) is %s, %v, want %s", what, e.P, show(v), ok, show(m[e.P]))
			}
			q := Pfx{e.P.last(bits), bits}
			wp, wv, _ := m.lpm(bits, q)
			if v, ok, p := t.LongestMatch(f.KeyAddr(q.A)); !ok || p != wp || !eq(v, wv) {
				x.Fail("%s: LongestMatch(%v) is %s, %v, %v, want %s, %v", what, q, show(v), ok, p, show(wv), wp)
			}
		}
	}
	apply := func(t MTabV[T], m Tab[T], ops []TabOp) {
		for _, op := range ops {
			n.saw(op.K.P)
			k := op.K.P.net(bits)
			key := op.K.make(f)
			v := mk(op.V)
			old, had := m[k]
			got, ok := t.Get(key)
			if ok != had || ok && !eq(got, old) {
				x.Fail("Get(%v) is %s, %v, want %s, %v", op.K, show(got), ok, show(old), had)
			}
			switch op.Op {
			case "insert":
				if t.Insert(key, v) == had {
					x.Fail("Insert(%v) returned %v", op.K, had)
				}
				if !had {
					m[k] = v
				}
			case "update":
				if t.Update(key, v) != had {
					x.Fail("Update(%v) returned %v", op.K, !had)
				}
				if had {
					m[k] = v
				}
			case "iou":
				t.InsertOrUpdate(key, v)
				m[k] = v
			case "goi":
				want := v
				if had {
					want = old
				}
				if got := t.GetOrInsert(key, v); !eq(got, want) {
					x.Fail("GetOrInsert(%v, %s) returned %s, want %s", op.K, show(v), show(got), show(want))
				}
				m[k] = want
			case "remove":
				if t.Remove(key) != had {
					x.Fail("Remove(%v) returned %v", op.K, !had)
				}
				delete(m, k)
			}
		}
	}
	t := MTabV[T](normMTab[T]{raw, n})
	m := Tab[T]{}
	apply(t, m, c.Ops)
	snap := t.Table()
	same(snap, m, "table")

	// a clone with more changes, and the difference
	side := snap.Mut()
	sm := m.clone()
	apply(side, sm, c.Side)
	same(side.Table(), sm, "clone")
	same(snap, m, "table after its clone was changed")
	counts := [4]int{}
	all := Tab[bool]{}
	for k := range m {
		all[k] = true
	}
	for k := range sm {
		all[k] = true
	}
	for k := range all {
		l, lok := m[k]
		r, rok := sm[k]
		switch {
		case !lok:
			counts[2]++
		case !rok:
			counts[1]++
		case eq(l, r):
			counts[3]++
		default:
			counts[0]++
		}
	}
	got := [4]int{}
	snap.Diff(side.Table(),
		func(p Pfx, a, b T) bool {
			if !eq(a, m[p]) || !eq(b, sm[p]) {
				x.Fail("Diff changed %v: %s, %s; want %s, %s", p, show(a), show(b), show(m[p]), show(sm[p]))
			}
			got[0]++
			return true
		},
		func(p Pfx, a T) bool {
			if !eq(a, m[p]) {
				x.Fail("Diff left %v: %s", p, show(a))
			}
			got[1]++
			return true
		},
		func(p Pfx, a T) bool {
			if !eq(a, sm[p]) {
				x.Fail("Diff right %v: %s", p, show(a))
			}
			got[2]++
			return true
		},
		func(p Pfx, a T) bool {
			if !eq(a, sm[p]) {
				x.Fail("Diff unchanged %v: %s", p, show(a))
			}
			got[3]++
			return true
		})
	if got != counts {
		x.Fail("Diff made %v calls (changed, left, right, unchanged), want %v", got, counts)
	}

	// Map to a constant and back
	k := mk(1)
	cm := Tab[T]{}
	for p := range m {
		cm[p] = k
	}
	mapped := snap.Map(func(p Pfx, v T) T {
		if !eq(v, m[p]) {
			x.Fail("mapper called with %v: %s, want %s", p, show(v), show(m[p]))
		}
		return k
	})
	same(mapped, cm, "mapped table")

	// Aggregate, and aggregate of aggregated
	agg := snap.Aggregate()
	am := Tab[T]{}
	for _, e := range entriesOf(agg) {
		am[e.P] = e.V
	}
	same(agg, am, "aggregated table")
	at := map[U]bool{}
	m.boundaries(bits, at)
	for _, a := range sortedU(at) {
		_, want, wok := m.lpm(bits, Pfx{a, bits})
		v, ok, _ := agg.LongestMatch(f.KeyAddr(a))
		if ok != wok || ok && !eq(v, want) {
			x.Fail("LongestMatch(%v) in the aggregate is %s, %v; want %s, %v", a, show(v), ok, show(want), wok)
		}
	}
	agg.Aggregate()
	// an aggregated table can be modified
	back := agg.Mut()
	apply(back, am, c.Side)
	same(back.Table(), am, "changed aggregate")
	same(snap, m, "table at the end")
	x.NonTrivial(len(m) > 1)
}
