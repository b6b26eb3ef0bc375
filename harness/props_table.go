package main

import "pgregory.net/rapid"

// ---- C01

type c01Case struct {
	S    Space
	Init TabInit
	Ops  []TabOp
}

func genC01(t *rapid.T) c01Case {
	c := c01Case{S: genSpace(t, 5), Init: genTabInit(t)}
	c.Ops = slice(t, []int{1, 4, 10, 25}, genTabOp(c.S, 4, 0))
	return c
}

func genC01Big(t *rapid.T) c01Case {
	c := c01Case{S: genSpace(t, 5), Init: genTabInit(t)}
	c.Ops = slice(t, []int{2, 6, 12}, genTabOp(c.S, 4, oneOf(t, 30, 300, 3000)))
	return c
}

func runC01(x *X, c c01Case) {
	f := c.S.fam()
	n := newNorm(x, f)
	t := MTabV[int](normMTab[int]{c.Init.make(f), n})
	m := Tab[int]{}
	removed := 0
	for i, op := range c.Ops {
		before := len(m)
		op.apply(x, f, n, t, m)
		if len(m) < before {
			removed++
		}
		wantGet(x, "Table_", t, f, op.K, m)
		if got := t.NumEntries(); got != int64(len(m)) {
			x.Fail("NumEntries is %d after op %d, want %d", got, i, len(m))
		}
		if len(m) <= 48 || i == len(c.Ops)-1 {
			snap := t.Table()
			wantTable(x, "after op "+itoa(i), snap, m)
			j := 0
			for _, k := range m.keys() {
				if j++; j > 64 {
					break
				}
				wantGet(x, "Table_", t, f, KeySpec{"pfx", k}, m)
				wantGet(x, "Table", snap, f, KeySpec{"pfx", k}, m)
				// with host bits, one longer and one shorter
				wantGet(x, "Table", snap, f, KeySpec{"pfx", Pfx{k.last(f.Bits()), k.N}}, m)
				if k.N < f.Bits() {
					wantGet(x, "Table", snap, f, KeySpec{"pfx", Pfx{k.A, k.N + 1}}, m)
					wantGet(x, "Table", snap, f, KeySpec{"pfx", Pfx{k.last(f.Bits()), k.N + 1}}, m)
				}
				if k.N > 0 {
					wantGet(x, "Table", snap, f, KeySpec{"pfx", Pfx{k.A, k.N - 1}}, m)
				}
			}
		}
	}
	m.labels(x, f.Bits())
	x.LabelIf(removed > 0, "an entry was removed")
	x.NonTrivial(len(c.Ops) >= 3 && (removed > 0 || len(m) >= 2))
}

// ---- C02

type c02Case struct {
	S    Space
	Init TabInit
	Ops  []TabOp
	Q    []KeySpec
}

func genC02(bulk int) func(t *rapid.T) c02Case {
	return func(t *rapid.T) c02Case {
		c := c02Case{S: genSpace(t, 6), Init: genTabInit(t)}
		c.Ops = slice(t, []int{0, 3, 8, 20}, genTabOp(c.S, 4, bulk))
		c.Q = slice(t, []int{3, 10}, func(t *rapid.T) KeySpec { return c.S.key(t) })
		return c
	}
}

func runC02(x *X, c c02Case) {
	f := c.S.fam()
	bits := f.Bits()
	n := newNorm(x, f)
	t, m := buildTable(x, f, n, c.Init, c.Ops)
	snap := t.Table()
	found, missed, shorter := 0, 0, 0
	query := func(k KeySpec) {
		if wantMatch(x, "Table", snap, f, k, m) {
			found++
			if p, _, _ := m.lpm(bits, k.P); p.N < k.P.N {
				shorter++
			}
		} else {
			missed++
		}
		wantMatch(x, "Table_", t, f, k, m)
	}
	for _, k := range c.Q {
		query(k)
	}
	i := 0
	for _, k := range m.keys() {
		// everything around every entry
		first, last := k.first(bits), k.last(bits)
		query(KeySpec{"addr", Pfx{first, bits}})
		query(KeySpec{"addr", Pfx{last, bits}})
		query(KeySpec{"pfx", k})
		if k.N > 0 {
			query(KeySpec{"pfx", Pfx{first, k.N - 1}})
			query(KeySpec{"addr", Pfx{first.dec().and(ones(bits)), bits}})
			query(KeySpec{"addr", Pfx{last.inc().and(ones(bits)), bits}})
		}
		if k.N < bits {
			query(KeySpec{"pfx", Pfx{first, k.N + 1}})
			query(KeySpec{"pfx", Pfx{last, k.N + 1}})
		}
		if i++; i > 60 {
			break
		}
	}
	// the table isn't changed by looking things up
	wantTable(x, "after lookups", t.Table(), m)
	m.labels(x, bits)
	x.LabelIf(found > 0, "found")
	x.LabelIf(missed > 0, "not found")
	x.LabelIf(shorter > 0, "match shorter than the search")
	x.NonTrivial(shorter > 0 && len(m) > 1)
}

// ---- C03

type c03Case struct {
	S    Space
	Init TabInit
	Ops  []TabOp
	Stop []int
}

func genC03(bulk int) func(t *rapid.T) c03Case {
	return func(t *rapid.T) c03Case {
		c := c03Case{S: genSpace(t, 6), Init: genTabInit(t)}
		c.Ops = slice(t, []int{2, 8, 20}, genTabOp(c.S, 4, bulk))
		c.Stop = slice(t, []int{1, 2}, func(t *rapid.T) int { return ri(t, 0, 30) })
		return c
	}
}

func runC03(x *X, c c03Case) {
	f := c.S.fam()
	n := newNorm(x, f)
	t, m := buildTable(x, f, n, c.Init, c.Ops)
	snap := t.Table()
	want := m.keys()
	walk := func(stop int) {
		i := 0
		fin := snap.Walk(func(p Pfx, v int) bool {
			if i >= len(want) {
				x.Fail("Walk made an extra call with %v after all %d entries", p, i)
			}
			if stop > 0 && i == stop {
				x.Fail("Walk made another call after the callback returned false")
			}
			if p != want[i] || v != m[p] {
				x.Fail("Walk call %d is %v:%d, want %v:%d", i, p, v, want[i], m[want[i]])
			}
			i++
			return i != stop
		})
		if stop > 0 && stop <= len(want) {
			if fin || i != stop {
				x.Fail("Walk stopped after %d calls, returned %v, wanted a stop at %d", i, fin, stop)
			}
		} else if !fin || i != len(want) {
			x.Fail("Walk returned %v after %d of %d entries", fin, i, len(want))
		}
	}
	walk(0)
	walk(len(want))
	for _, s := range c.Stop {
		walk(s)
		if len(want) > 1 {
			walk(s%(len(want)-1) + 1)
		}
	}
	m.labels(x, f.Bits())
	x.NonTrivial(len(m) > 2)
}

// exhaustive small tables: every assignment of {none,0,1,2} to the 7 prefixes of
// a 2 bit window.
type smallTab struct {
	F   string
	Off int // bits below the window
	Hi  U
	M   int // base 4 digits, one for each prefix
}

func (s smallTab) prefixes() (l []Pfx) {
	bits := fams[s.F].Bits()
	for n := 0; n <= 2; n++ {
		for i := 0; i < 1<<n; i++ {
			l = append(l, Pfx{s.Hi.or(u64(uint64(i)).shl(s.Off + 2 - n)), bits - s.Off - 2 + n})
		}
	}
	return l
}

func (s smallTab) model() Tab[int] {
	m := Tab[int]{}
	d := s.M
	for _, p := range s.prefixes() {
		if v := d % 4; v > 0 {
			m[p] = v
		}
		d /= 4
	}
	return m
}

// fixedSmall enumerates small tables in a few places
func fixedSmall(tier string, emit func(smallTab)) {
	for m := 0; m < 1<<14; m++ {
		if tier == "thorough" {
			for _, f := range []string{"v4", "v6"} {
				bits := fams[f].Bits()
				for _, off := range []int{0, 1, bits/2 - 2, bits/2 - 1, bits / 2, bits - 3, bits - 2} {
					emit(smallTab{f, off, U{}, m})
					emit(smallTab{f, off, ones(bits).xor(ones(off + 2)), m})
				}
			}
			continue
		}
		emit(smallTab{"v4", 0, U{}, m})
		emit(smallTab{"v4", 30, U{}, m})
		emit(smallTab{"v6", 63, ones(128).xor(ones(65)), m})
		emit(smallTab{"v6", 8, U{5, 7 << 20}, m})
	}
}

func itoa(i int) string { return fmtInt(i) }

// ---- C04

type c04Op struct {
	K    string // op, snap, clone, alias, build, map, agg, diff, walkmut
	I, J int
	Op   TabOp
	Sub  []TabOp `json:",omitempty"`
	Ok   bool    `json:",omitempty"`
}

type c04Case struct {
	S    Space
	Init TabInit
	Ops  []c04Op
}

func genC04(bulk int) func(t *rapid.T) c04Case {
	return func(t *rapid.T) c04Case {
		c := c04Case{S: genSpace(t, 5), Init: genTabInit(t)}
		gop := genTabOp(c.S, 4, bulk)
		c.Ops = slice(t, []int{3, 8, 20}, func(t *rapid.T) c04Op {
			o := c04Op{I: ri(t, 0, 9), J: ri(t, 0, 9)}
			switch ri(t, 0, 19) {
			default:
				o.K, o.Op = "op", gop(t)
			case 10, 11:
				o.K = "snap"
			case 12:
				o.K = "clone"
			case 13:
				o.K = "alias"
			case 14:
				o.K, o.Ok = "build", chance(t, 9)
				o.Sub = rapid.SliceOfN(rapid.Custom(gop), 0, 6).Draw(t, "sub")
			case 15:
				o.K = "map"
			case 16:
				o.K = "agg"
			case 17:
				o.K = "diff"
			case 18:
				o.K = "walkmut"
				o.Sub = rapid.SliceOfN(rapid.Custom(gop), 1, 6).Draw(t, "sub")
			}
			return o
		})
		return c
	}
}

func runC04(x *X, c c04Case) {
	f := c.S.fam()
	n := newNorm(x, f)
	type mreg struct {
		t MTabV[int]
		m *Tab[int]
	}
	type sreg struct {
		t TabV[int]
		m Tab[int]
	}
	first := MTabV[int](normMTab[int]{c.Init.make(f), n})
	muts := []mreg{{first, &Tab[int]{}}}
	snaps := []sreg{{first.Table(), Tab[int]{}}}
	const max = 9
	addM := func(r mreg, at int) {
		if len(muts) < max {
			muts = append(muts, r)
		} else {
			muts[at%max] = r
		}
	}
	addS := func(r sreg, at int) {
		if len(snaps) < max {
			snaps = append(snaps, r)
		} else {
			snaps[at%max] = r
		}
	}
	var afterSnap, builds bool
	for i, o := range c.Ops {
		mi, si := o.I%len(muts), o.I%len(snaps)
		where := "op " + itoa(i) + " " + o.K
		switch o.K {
		case "op":
			o.Op.apply(x, f, n, muts[mi].t, *muts[mi].m)
			if len(snaps) > 1 {
				afterSnap = true
			}
		case "snap":
			addS(sreg{muts[mi].t.Table(), muts[mi].m.clone()}, o.J)
		case "clone":
			m := snaps[si].m.clone()
			addM(mreg{snaps[si].t.Mut(), &m}, o.J)
		case "alias":
			addM(muts[mi], o.J)
		case "build":
			m := snaps[si].m.clone()
			res := snaps[si].t.Build(func(t MTabV[int]) bool {
				wantTable(x, where+" inside the callback", t.Table(), m)
				for _, op := range o.Sub {
					op.apply(x, f, n, t, m)
				}
				wantTable(x, where+" at the end of the callback", t.Table(), m)
				return o.Ok
			})
			if !o.Ok {
				m = snaps[si].m.clone()
			}
			builds = true
			addS(sreg{res, m}, o.J)
		case "map":
			m := Tab[int]{}
			for k, v := range snaps[si].m {
				m[k] = (v + 1) % 4
			}
			addS(sreg{snaps[si].t.Map(func(p Pfx, v int) int { return (v + 1) % 4 }), m}, o.J)
		case "agg":
			res := snaps[si].t.Aggregate()
			m := Tab[int]{}
			for _, e := range entriesOf(res) {
				m[e.P] = e.V
			}
			addS(sreg{res, m}, o.J)
		case "diff":
			snaps[si].t.Diff(snaps[o.J%len(snaps)].t,
				func(Pfx, int, int) bool { return true },
				func(Pfx, int) bool { return true },
				func(Pfx, int) bool { return true },
				func(Pfx, int) bool { return true })
		case "walkmut":
			want := snaps[si].m.keys()
			j := 0
			mj := o.J % len(muts)
			snaps[si].t.Walk(func(p Pfx, v int) bool {
				if j >= len(want) || want[j] != p || snaps[si].m[p] != v {
					x.Fail("%s: the walk was affected by a change to a mutable table: call %d is %v:%d", where, j, p, v)
				}
				o.Sub[j%len(o.Sub)].apply(x, f, n, muts[mj].t, *muts[mj].m)
				j++
				return j < 60
			})
			if j != len(want) && j < 60 {
				x.Fail("%s: the walk was affected by a change to a mutable table: %d calls, want %d", where, j, len(want))
			}
		}
		for j, r := range muts {
			wantTable(x, where+": mutable table "+itoa(j), r.t.Table(), *r.m)
			wantGet(x, where+": mutable table "+itoa(j), r.t, f, o.Op.K, *r.m)
		}
		for j, r := range snaps {
			wantTable(x, where+": snapshot "+itoa(j), r.t, r.m)
			wantGet(x, where+": snapshot "+itoa(j), r.t, f, o.Op.K, r.m)
			wantMatch(x, where+": snapshot "+itoa(j), r.t, f, o.Op.K, r.m)
		}
	}
	x.LabelIf(afterSnap, "modified after a snapshot")
	x.LabelIf(builds, "build")
	x.LabelIf(len(muts) > 2, "more than 2 mutable tables")
	x.NonTrivial(afterSnap && len(c.Ops) > 4)
}

// ---- C05

type c05Case struct {
	S     Space
	Init  TabInit
	Mod   int // values are equal if they're equal modulo this, 0 for ==
	Base  []TabOp
	Left  []TabOp // applied to copies of the base
	Right []TabOp
	Sep   bool // the right side shares nothing
	Nil   int  // bit mask of handlers which are nil
	Stop  []int
}

func genC05(bulk int) func(t *rapid.T) c05Case {
	return func(t *rapid.T) c05Case {
		c := c05Case{S: genSpace(t, 5), Init: genTabInit(t)}
		if chance(t, 4) {
			c.Mod = 2
		}
		gop := genTabOp(c.S, 4, bulk)
		c.Base = slice(t, []int{0, 4, 15}, gop)
		c.Left = slice(t, []int{0, 1, 4}, gop)
		c.Right = slice(t, []int{0, 1, 4}, gop)
		c.Sep = chance(t, 5)
		c.Nil = oneOf(t, 0, 0, 0, 1, 2, 4, 8, 8, 8, ri(t, 0, 15))
		c.Stop = slice(t, []int{1, 1, 2}, func(t *rapid.T) int { return ri(t, 0, 30) })
		return c
	}
}

func runC05(x *X, c c05Case) {
	f := c.S.fam()
	n := newNorm(x, f)
	var base MTabV[int]
	if c.Mod > 0 {
		base = newMTableCmp(f, func(a, b int) bool { return a%c.Mod == b%c.Mod })
	} else {
		base = c.Init.make(f)
	}
	base = normMTab[int]{base, n}
	lm := Tab[int]{}
	// with Mod, the value after an update to an equal value isn't specified so
	// the models are read back
	read := func(t MTabV[int], m Tab[int]) Tab[int] {
		if c.Mod == 0 {
			return m
		}
		out := Tab[int]{}
		for _, e := range entriesOf(t.Table()) {
			if v, ok := m[e.P]; !ok || v%c.Mod != e.V%c.Mod {
				x.Fail("entry %v, model has %v, %v", e, v, ok)
			}
			out[e.P] = e.V
		}
		if len(out) != len(m) {
			x.Fail("%d entries, want %d", len(out), len(m))
		}
		return out
	}
	do := func(t MTabV[int], m Tab[int], ops []TabOp) Tab[int] {
		for _, op := range ops {
			if c.Mod > 0 && op.Op == "goi" {
				op.Op = "insert"
			}
			op.apply(x, f, n, t, m)
			m = read(t, m)
		}
		return m
	}
	lm = do(base, lm, c.Base)
	rt, rm := base.Table().Mut(), lm.clone()
	if c.Sep {
		rt = normMTab[int]{newMTable[int](f), n}
		for _, k := range lm.keys() {
			rt.Insert(f.KeyPfx(k), lm[k])
		}
	}
	lm = do(base, lm, c.Left)
	rm = do(rt, rm, c.Right)
	left, right := base.Table(), rt.Table()
	checkDiff(x, f, left, right, lm, rm, c.Mod, c.Nil, append(c.Stop, 0))
	checkDiff(x, f, left, left, lm, lm, c.Mod, c.Nil, append(c.Stop, 0))
	zero := normTab[int]{zeroTable[int](f), n}
	checkDiff(x, f, left, zero, lm, nil, c.Mod, c.Nil, c.Stop)
	checkDiff(x, f, zero, right, nil, rm, 0, c.Nil, c.Stop)
	// nothing has changed
	wantTable(x, "left", left, lm)
	wantTable(x, "right", right, rm)
	x.LabelIf(c.Mod > 0, "custom comparator")
	x.LabelIf(c.Sep, "no sharing")
	x.LabelIf(c.Nil > 0, "nil handlers")
	lm.labels(x, f.Bits())
	x.NonTrivial(len(lm) > 1 && len(rm) > 1)
}

type diffEvent struct {
	K string // changed, left, right, unchanged
	P Pfx
	L int
	R int
}

// diffModel is what Diff should call, in order
func diffModel(lm, rm Tab[int], mod int) (out []diffEvent) {
	all := Tab[int]{}
	for k := range lm {
		all[k] = 0
	}
	for k := range rm {
		all[k] = 0
	}
	for _, k := range all.keys() {
		l, lok := lm[k]
		r, rok := rm[k]
		switch {
		case !rok:
			out = append(out, diffEvent{"left", k, l, 0})
		case !lok:
			out = append(out, diffEvent{"right", k, 0, r})
		case l == r || mod > 0 && l%mod == r%mod:
			out = append(out, diffEvent{"unchanged", k, l, r})
		default:
			out = append(out, diffEvent{"changed", k, l, r})
		}
	}
	return out
}

func checkDiff(x *X, f Fam, left, right TabV[int], lm, rm Tab[int], mod, nils int, stops []int) {
	var want []diffEvent
	kinds := []string{"changed", "left", "right", "unchanged"}
	skip := map[string]bool{}
	for i, k := range kinds {
		skip[k] = nils>>i&1 == 1
	}
	for _, e := range diffModel(lm, rm, mod) {
		if !skip[e.K] {
			want = append(want, e)
		}
		x.LabelIf(e.K == "changed", "changed")
		x.LabelIf(e.K == "unchanged", "unchanged")
	}
	run := func(stop int) {
		i := 0
		call := func(e diffEvent) bool {
			if i == stop && stop > 0 {
				x.Fail("Diff made another call, %v, after a callback returned false", e)
			}
			if i >= len(want) {
				x.Fail("Diff made an extra call %v", e)
			}
			w := want[i]
			if e.K == "unchanged" {
				// either value may be passed if they're equal
				if e.L != w.L && e.L != w.R {
					x.Fail("Diff call %d is %v, want %v", i, e, w)
				}
				e = w
			}
			if e != w {
				x.Fail("Diff call %d is %v, want %v", i, e, w)
			}
			i++
			return i != stop
		}
		var ch func(Pfx, int, int) bool
		var l, r, u func(Pfx, int) bool
		if !skip["changed"] {
			ch = func(p Pfx, a, b int) bool { return call(diffEvent{"changed", p, a, b}) }
		}
		if !skip["left"] {
			l = func(p Pfx, a int) bool { return call(diffEvent{"left", p, a, 0}) }
		}
		if !skip["right"] {
			r = func(p Pfx, a int) bool { return call(diffEvent{"right", p, 0, a}) }
		}
		if !skip["unchanged"] {
			u = func(p Pfx, a int) bool { return call(diffEvent{"unchanged", p, a, a}) }
		}
		fin := left.Diff(right, ch, l, r, u)
		if stop > 0 && stop <= len(want) {
			if fin || i != stop {
				x.Fail("Diff returned %v after %d calls, wanted a stop at %d", fin, i, stop)
			}
		} else if !fin || i != len(want) {
			x.Fail("Diff returned %v after %d of %d calls, next is %v", fin, i, len(want), want[i:])
		}
	}
	for _, s := range stops {
		run(s)
		if len(want) > 0 && s > 0 {
			run(s%len(want) + 1)
		}
	}
}

// exhaustive pairs of tables: each of the 3 prefixes of a one bit window has no
// value or one of three
type tabPair struct {
	F    string
	Off  int
	Hi   U
	A, B int
	Nil  int
	Sep  bool
}

func (c tabPair) model(d int) Tab[int] {
	bits := fams[c.F].Bits()
	m := Tab[int]{}
	for _, p := range []Pfx{
		{c.Hi, bits - c.Off - 1},
		{c.Hi, bits - c.Off},
		{c.Hi.or(u64(1).shl(c.Off)), bits - c.Off},
	} {
		if v := d % 4; v > 0 {
			m[p] = v
		}
		d /= 4
	}
	return m
}

func fixedTabPairs(tier string, emit func(tabPair)) {
	places := []tabPair{
		{F: "v4", Off: 31}, {F: "v4", Off: 0, Hi: ones(32).xor(ones(1))},
		{F: "v6", Off: 63, Hi: U{1, 0}}, {F: "v6", Off: 127},
	}
	for a := 0; a < 64; a++ {
		for b := 0; b < 64; b++ {
			for i, p := range places {
				p.A, p.B, p.Sep = a, b, (a+b+i)%2 == 0
				p.Nil = (a*5 + b*3 + i) % 16
				emit(p)
				p.Nil = 0
				emit(p)
				if tier == "thorough" {
					for p.Nil = 0; p.Nil < 16; p.Nil++ {
						p.Sep = !p.Sep
						emit(p)
					}
				}
			}
		}
	}
}

func runTabPair(x *X, c tabPair) {
	f := fams[c.F]
	n := newNorm(x, f)
	lm, rm := c.model(c.A), c.model(c.B)
	lt := MTabV[int](normMTab[int]{newMTable[int](f), n})
	for _, k := range lm.keys() {
		lt.Insert(f.KeyPfx(k), lm[k])
	}
	rt := lt.Table().Mut()
	if c.Sep {
		rt = normMTab[int]{newMTable[int](f), n}
	}
	for _, k := range lm.keys() {
		if _, ok := rm[k]; !ok {
			rt.Remove(f.KeyPfx(k))
		}
	}
	for _, k := range rm.keys() {
		rt.InsertOrUpdate(f.KeyPfx(k), rm[k])
	}
	checkDiff(x, f, lt.Table(), rt.Table(), lm, rm, 0, c.Nil, []int{0, 1, 2, 3, 4})
	x.NonTrivial(len(lm) > 0 && len(rm) > 0)
}
