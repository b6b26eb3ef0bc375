package main

import (
	"math/big"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// ---- C11

type c11Step struct {
	Op  string  // lit, union, inter, diff
	I   int     // receiver in the pool
	Mut bool    // receiver as a Set_
	Arg ArgSpec // for lit and for operations with K != ""
	J   int     // otherwise the argument is from the pool
	As  string  // set, mset or func
}

type c11Case struct {
	S     Space
	Steps []c11Step
}

func genC11(maxW int) func(t *rapid.T) c11Case {
	return func(t *rapid.T) c11Case {
		c := c11Case{S: genSpace(t, maxW)}
		c.Steps = slice(t, []int{3, 6, 12}, func(t *rapid.T) c11Step {
			st := c11Step{I: ri(t, 0, 30), J: ri(t, 0, 30)}
			st.Op = oneOf(t, "union", "inter", "diff", "diff", "lit")
			st.Mut = chance(t, 4)
			if st.Op == "lit" || rapid.Bool().Draw(t, "arg") {
				st.Arg = c.S.arg(t)
			} else {
				st.As = oneOf(t, "set", "set", "mset", "func")
			}
			return st
		})
		return c
	}
}

func runC11(x *X, c c11Case) {
	f := c.S.fam()
	bits := f.Bits()
	type reg struct {
		s SetV
		m Ivs
	}
	pool := []reg{{f.ZeroSet(), nil}, {f.ArgPfxSet(Pfx{}), Ivs{{U{}, ones(bits)}}}}
	rich := 0
	for i, st := range c.Steps {
		r := pool[(len(pool)-1+st.I)%len(pool)]
		var arg Arg
		var am Ivs
		if st.Arg.K != "" {
			arg, am = st.Arg.make(f), st.Arg.model(bits)
		} else {
			a := pool[(len(pool)-1+st.J)%len(pool)]
			am = a.m
			switch st.As {
			case "mset":
				arg = f.ArgMSet(a.s.Mut())
			case "func":
				arg = f.ArgFunc(func() SetV { return a.s })
			default:
				arg = f.ArgSet(a.s)
			}
		}
		type ops interface {
			Union(Arg) SetV
			Intersection(Arg) SetV
			Difference(Arg) SetV
		}
		var rec ops = r.s
		var ms MSetV
		if st.Mut {
			ms = r.s.Mut()
			rec = ms
		}
		var res SetV
		var want Ivs
		switch st.Op {
		case "lit":
			// converted by itself, not through an operation
			res = f.ZeroSet()
			if st.Arg.K != "nil" {
				res = f.SetOf(arg)
			}
			want = am
		case "union":
			res, want = rec.Union(arg), r.m.union(am)
		case "inter":
			res, want = rec.Intersection(arg), r.m.intersect(am)
		case "diff":
			res, want = rec.Difference(arg), r.m.minus(am)
		}
		wantSet(x, f, "step "+itoa(i)+" "+st.Op, res, want)
		if ms != nil {
			wantSet(x, f, "receiver of step "+itoa(i), ms.Set(), r.m)
		}
		if arg.v != nil {
			wantSet(x, f, "argument of step "+itoa(i), f.SetOf(arg), am)
		}
		if len(want) > 1 && len(am) > 0 {
			rich++
		}
		pool = append(pool, reg{res, want})
	}
	for i, r := range pool {
		wantSet(x, f, "result "+itoa(i-2)+" at the end", r.s, r.m)
	}
	x.LabelIf(rich > 0, "a result with more than one range")
	x.LabelIf(rich > 3, "more than 3 results with more than one range")
	x.NonTrivial(rich > 0)
}

// exhaustive: every pair of subsets of a window with 8 addresses (or 8 blocks)
type setPair struct {
	F    string
	Base U
	Off  int
	A, B int // bit masks
}

func (c setPair) set(mask int) (l Ivs) {
	for i := 0; i < 8; i++ {
		if mask>>i&1 == 1 {
			a := c.Base.or(u64(uint64(i)).shl(c.Off))
			l = append(l, Iv{a, a.or(ones(c.Off))})
		}
	}
	return normIvs(l)
}

func fixedSetPairs(tier string, emit func(setPair)) {
	places := []setPair{
		{"v4", U{}, 29, 0, 0},
		{"v4", u64(0xfffffff8), 0, 0, 0},
		{"v6", U{0x20010db8 << 32, 0}, 62, 0, 0},
		{"v6", ones(128).xor(ones(67)), 64, 0, 0},
	}
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			if tier == "thorough" {
				for _, p := range places {
					p.A, p.B = a, b
					emit(p)
				}
				continue
			}
			p := places[(a*256+b)%len(places)]
			if (a^b)%3 == 0 { // each pair in one place, a third of them in another
				q := places[(a+b/4+1)%len(places)]
				q.A, q.B = a, b
				emit(q)
			}
			p.A, p.B = a, b
			emit(p)
		}
	}
}

// fixedSets enumerates all subsets of the window on their own
func fixedSets(tier string, emit func(setPair)) {
	for a := 0; a < 256; a++ {
		for _, f := range []string{"v4", "v6"} {
			bits := fams[f].Bits()
			for off := 0; off+3 <= bits; off++ {
				hi := ones(bits).xor(ones(off + 3))
				emit(setPair{f, U{}, off, a, 0})
				emit(setPair{f, hi, off, a, 0})
			}
		}
	}
}

func runSetPair(x *X, c setPair) {
	f := fams[c.F]
	am, bm := c.set(c.A), c.set(c.B)
	a, b := buildSet(f, am).Set(), buildSet(f, bm).Set()
	wantSet(x, f, "a", a, am)
	wantSet(x, f, "b", b, bm)
	wantSet(x, f, "union", a.Union(f.ArgSet(b)), am.union(bm))
	wantSet(x, f, "intersection", a.Intersection(f.ArgSet(b)), am.intersect(bm))
	wantSet(x, f, "difference", a.Difference(f.ArgSet(b)), am.minus(bm))
	wantSet(x, f, "a at the end", a, am)
	wantSet(x, f, "b at the end", b, bm)
	x.NonTrivial(len(am) > 0 && len(bm) > 0)
}

// ---- C12

type c12Case struct {
	S     Space
	Ops   []setOp
	Order int // how the second construction orders its pieces
	Way   int
	Other []Iv
}

type setOp struct {
	Op  string // insert, remove
	Arg ArgSpec
	N   int `json:",omitempty"` // bulk
	St  int `json:",omitempty"`
	// Self passes the mutable set itself: 1 as it is, 2 its copy, 3 a snapshot
	// of it, 4 the snapshot before the last operation
	Self int `json:",omitempty"`
}

func genSetOp(s Space, bulk int) func(t *rapid.T) setOp {
	return func(t *rapid.T) setOp {
		o := setOp{Op: oneOf(t, "insert", "insert", "insert", "remove", "remove"), Arg: s.arg(t)}
		if bulk > 0 && chance(t, 3) {
			o.N, o.St = ri(t, 2, bulk), oneOf(t, 1, 2, 3, 5)
			o.Arg = ArgSpec{K: "pfx", P: s.pfx(t)}
			k := 0
			for 1<<k < o.N*o.St {
				k++
			}
			if k > s.bits() {
				k = s.bits()
			}
			o.Arg.P.N = ri(t, k, s.bits())
		}
		return o
	}
}

func (o setOp) model(bits int, m Ivs) Ivs {
	am := o.Arg.model(bits)
	if o.N > 0 {
		var l []Iv
		o.each(bits, func(p Pfx) { l = append(l, p.iv(bits)) })
		am = normIvs(l)
	}
	if o.Op == "remove" {
		return m.minus(am)
	}
	return m.union(am)
}

func (o setOp) each(bits int, f func(p Pfx)) {
	for i := 0; i < o.N; i++ {
		p := o.Arg.P
		p.A = p.A.add(u64(uint64(i * o.St)).shl(bits - p.N)).and(ones(bits))
		f(p)
	}
}

func (o setOp) apply(f Fam, s MSetV) {
	do := s.Insert
	if o.Op == "remove" {
		do = s.Remove
	}
	if o.N > 0 {
		o.each(f.Bits(), func(p Pfx) { do(f.ArgPfx(p)) })
		return
	}
	do(o.Arg.make(f))
}

func genC12(maxW, bulk int) func(t *rapid.T) c12Case {
	return func(t *rapid.T) c12Case {
		c := c12Case{S: genSpace(t, maxW), Order: ri(t, 0, 5), Way: ri(t, 0, 5)}
		c.Ops = slice(t, []int{1, 5, 12}, genSetOp(c.S, bulk))
		c.Other = c.S.ivs(t)
		return c
	}
}

func checkCanonical(x *X, f Fam, s SetV, m Ivs) {
	bits := f.Bits()
	want := m.prefixes(bits)
	got := prefixesOf(s)
	if !pfxsEq(got, want) {
		x.Fail("the set %v has prefixes %v, want %v", m, got, want)
	}
	if len(want) < 300 {
		var names []string
		for _, p := range want {
			names = append(names, f.Pfx(p).String())
		}
		if got, want := s.String(), "["+strings.Join(names, ", ")+"]"; got != want {
			x.Fail("String is %q, want %q", got, want)
		}
	}
}

func runC12(x *X, c c12Case) {
	f := c.S.fam()
	bits := f.Bits()
	s := f.NewMSet()
	var m Ivs
	for _, o := range c.Ops {
		o.apply(f, s)
		m = o.model(bits, m)
		if len(m) < 100 {
			checkCanonical(x, f, s.Set(), m)
		}
	}
	a := s.Set()
	checkCanonical(x, f, a, m)

	// the same addresses put together in another way
	pieces := m.prefixes(bits)
	if c.Way == 2 { // split them
		var l []Pfx
		for _, p := range pieces {
			if p.N < bits {
				l = append(l, Pfx{p.A, p.N + 1}, Pfx{p.A.or(u64(1).shl(bits - p.N - 1)), p.N + 1})
			} else {
				l = append(l, p)
			}
		}
		pieces = l
	}
	for i := range pieces { // a permutation
		j := i
		switch c.Order {
		case 1:
			j = len(pieces) - 1 - i
		case 2:
			j = i * 7 % len(pieces)
		case 3:
			j = int(splitmix(uint64(i)) % uint64(len(pieces)))
		}
		if j > i {
			pieces[i], pieces[j] = pieces[j], pieces[i]
		}
	}
	var b SetV
	switch c.Way {
	default:
		t := f.NewMSet()
		for _, p := range pieces {
			t.Insert(f.ArgPfx(p))
		}
		b = t.Set()
	case 1:
		t := f.ZeroSet()
		for _, p := range pieces {
			t = f.Pfx(p).Set().Union(f.ArgSet(t))
		}
		b = t
	case 3: // complement of the complement
		all := f.Pfx(Pfx{}).Set()
		b = all.Difference(f.ArgSet(all.Difference(f.ArgSet(a))))
	case 4: // take away from everything
		t := f.Pfx(Pfx{}).Set().Mut()
		for _, v := range (Ivs{{U{}, ones(bits)}}).minus(m) {
			t.Remove(f.ArgRange(v))
		}
		b = t.Set()
	case 5: // ranges
		t := f.NewMSet()
		for _, v := range m {
			t.Insert(f.ArgRange(v))
		}
		b = t.Set()
	}
	checkCanonical(x, f, b, m)
	if !a.Equal(b) || !b.Equal(a) || !a.Equal(a) {
		x.Fail("two sets with %v are not equal", m)
	}
	if !a.Mut().Equal(b.Mut()) {
		x.Fail("two Set_ with %v are not equal", m)
	}
	// and a set which may be different
	om := normIvs(c.Other)
	o := buildSet(f, c.Other).Set()
	checkEq := func(what string, o SetV, om Ivs) {
		if got := a.Equal(o); got != m.eq(om) {
			x.Fail("%s: Equal of %v and %v is %v", what, m, om, got)
		}
		if got := o.Equal(a); got != m.eq(om) {
			x.Fail("%s: Equal of %v and %v is %v", what, om, m, got)
		}
		if got := a.Mut().Equal(o.Mut()); got != m.eq(om) {
			x.Fail("%s: Set_.Equal of %v and %v is %v", what, m, om, got)
		}
	}
	checkEq("other", o, om)
	// different in a single address
	for _, v := range m {
		checkEq("one less", a.Difference(f.ArgAddr(v.Lo)), m.minus(Ivs{{v.Lo, v.Lo}}))
		if v.Hi != ones(bits) {
			n := v.Hi.inc()
			checkEq("one more", a.Union(f.ArgAddr(n)), m.union(Ivs{{n, n}}))
		}
		break
	}
	x.LabelIf(len(m) > 1, "more than one range")
	x.LabelIf(len(m) > 50, "more than 50 ranges")
	x.LabelIf(len(pieces) > len(m), "a range with more than one prefix")
	x.NonTrivial(len(m) > 1)
}

func runSmallC12(x *X, c setPair) {
	f := fams[c.F]
	am, bm := c.set(c.A), c.set(c.B)
	a, b := buildSet(f, am).Set(), buildSet(f, bm).Set()
	checkCanonical(x, f, a.Union(f.ArgSet(b)), am.union(bm))
	checkCanonical(x, f, a.Intersection(f.ArgSet(b)), am.intersect(bm))
	checkCanonical(x, f, a.Difference(f.ArgSet(b)), am.minus(bm))
	if got := a.Equal(b); got != am.eq(bm) {
		x.Fail("Equal of %v and %v is %v", am, bm, got)
	}
	u := a.Union(f.ArgSet(b))
	if !u.Equal(b.Union(f.ArgSet(a))) {
		x.Fail("the union of %v and %v depends on the order", am, bm)
	}
	x.NonTrivial(len(am) > 1 || len(bm) > 1)
}

// ---- C13

type c13Case struct {
	S   Space
	Ops []setOp
}

func genC13(bulk int) func(t *rapid.T) c13Case {
	return func(t *rapid.T) c13Case {
		c := c13Case{S: genSpace(t, 6)}
		gop := genSetOp(c.S, bulk)
		c.Ops = slice(t, []int{2, 8, 25}, func(t *rapid.T) setOp {
			o := gop(t)
			if chance(t, 6) {
				o = setOp{Op: o.Op, Self: ri(t, 1, 4)}
			}
			return o
		})
		return c
	}
}

func runC13(x *X, c c13Case) {
	f := c.S.fam()
	bits := f.Bits()
	s := f.NewMSet()
	alias := s
	var m Ivs
	removed, most := 0, 0
	prev, prevM := s.Set(), Ivs(nil)
	for i, o := range c.Ops {
		before := m
		last, lastM := prev, prevM
		prev, prevM = s.Set(), m
		if o.Self > 0 {
			arg, am := f.ArgMSet(s), m
			switch o.Self {
			case 2:
				arg = f.ArgMSet(alias)
			case 3:
				arg = f.ArgSet(s.Set())
			case 4:
				arg, am = f.ArgSet(last), lastM
			}
			x.LabelIf(len(m) > 0, "with itself")
			if o.Op == "remove" {
				s.Remove(arg)
				m = m.minus(am)
			} else {
				s.Insert(arg)
				m = m.union(am)
			}
			wantSet(x, f, "after op "+itoa(i)+" with itself", s.Set(), m)
			wantSet(x, f, "after op "+itoa(i)+" with itself (copy of the Set_)", alias.Set(), m)
			if !m.eq(before) {
				removed++
			}
			continue
		}
		if i%3 == 2 {
			o.apply(f, alias)
		} else {
			o.apply(f, s)
		}
		m = o.model(bits, m)
		most = max(most, len(m))
		if o.Op == "remove" && !m.eq(before) {
			removed++
		}
		what := "after op " + itoa(i)
		wantSet(x, f, what, s.Set(), m)
		wantSet(x, f, what+" (copy of the Set_)", alias.Set(), m)
		if s.IsEmpty() != (len(m) == 0) {
			x.Fail("%s: IsEmpty is %v for %v", what, s.IsEmpty(), m)
		}
		if n, ok := s.NumAddresses(); ok && big.NewInt(n).Cmp(m.size()) != 0 {
			x.Fail("%s: NumAddresses is %d for %v", what, n, m)
		}
		am := o.Arg.model(bits)
		if got, want := s.Contains(o.Arg.make(f)), len(am.minus(m)) == 0; got != want {
			x.Fail("%s: Contains(%v) is %v for %v", what, o.Arg, got, m)
		}
		if o.N == 0 && i < 12 {
			// the read operations of a Set_ don't modify it
			wantSet(x, f, what+" union", s.Union(o.Arg.make(f)), m.union(am))
			wantSet(x, f, what+" intersection", s.Intersection(o.Arg.make(f)), m.intersect(am))
			wantSet(x, f, what+" difference", s.Difference(o.Arg.make(f)), m.minus(am))
			wantSet(x, f, what+" afterwards", s.Set(), m)
		}
	}
	x.LabelIf(removed > 0, "something was removed")
	x.LabelIf(most > 3, "more than 3 ranges")
	x.LabelIf(most > 100, "more than 100 ranges")
	x.NonTrivial(removed > 0 && len(c.Ops) > 3)
}

// ---- C14

type c14Op struct {
	K    string // op, snap, clone, alias, build, alg, self
	I, J int
	Op   setOp
	Sub  []setOp `json:",omitempty"`
	Ok   bool    `json:",omitempty"`
}

type c14Case struct {
	S   Space
	Ops []c14Op
}

func genC14(bulk int) func(t *rapid.T) c14Case {
	return func(t *rapid.T) c14Case {
		c := c14Case{S: genSpace(t, 5)}
		gop := genSetOp(c.S, bulk)
		c.Ops = slice(t, []int{3, 8, 20}, func(t *rapid.T) c14Op {
			o := c14Op{I: ri(t, 0, 9), J: ri(t, 0, 9)}
			switch ri(t, 0, 19) {
			default:
				o.K, o.Op = "op", gop(t)
			case 10, 11:
				o.K = "snap"
			case 12:
				o.K = "clone"
			case 13:
				o.K = "alias"
			case 14:
				o.K, o.Ok = "build", chance(t, 9)
				o.Sub = rapid.SliceOfN(rapid.Custom(gop), 0, 6).Draw(t, "sub")
			case 15, 16:
				o.K, o.Op = "alg", gop(t)
			case 17:
				o.K, o.Op = "self", gop(t)
			case 18:
				o.K = "walkmut"
				o.Sub = rapid.SliceOfN(rapid.Custom(gop), 1, 5).Draw(t, "sub")
			}
			return o
		})
		return c
	}
}

func runC14(x *X, c c14Case) {
	f := c.S.fam()
	bits := f.Bits()
	type mreg struct {
		s MSetV
		m *Ivs
	}
	type sreg struct {
		s SetV
		m Ivs
	}
	first := f.NewMSet()
	muts := []mreg{{first, &Ivs{}}}
	snaps := []sreg{{first.Set(), nil}, {f.ZeroSet(), nil}}
	const max = 9
	addM := func(r mreg, at int) {
		if len(muts) < max {
			muts = append(muts, r)
		} else {
			muts[at%max] = r
		}
	}
	addS := func(r sreg, at int) {
		if len(snaps) < max {
			snaps = append(snaps, r)
		} else {
			snaps[at%max] = r
		}
	}
	apply := func(o setOp, s MSetV, m *Ivs) {
		o.apply(f, s)
		*m = o.model(bits, *m)
	}
	var afterSnap bool
	for i, o := range c.Ops {
		mi, si := o.I%len(muts), o.I%len(snaps)
		where := "op " + itoa(i) + " " + o.K
		switch o.K {
		case "op":
			apply(o.Op, muts[mi].s, muts[mi].m)
			if len(snaps) > 2 {
				afterSnap = true
			}
		case "snap":
			addS(sreg{muts[mi].s.Set(), *muts[mi].m}, o.J)
		case "clone":
			m := snaps[si].m.clone()
			addM(mreg{snaps[si].s.Mut(), &m}, o.J)
		case "alias":
			addM(muts[mi], o.J)
		case "build":
			m := snaps[si].m.clone()
			res := snaps[si].s.Build(func(s MSetV) bool {
				for _, op := range o.Sub {
					apply(op, s, &m)
				}
				wantSet(x, f, where+" at the end of the callback", s.Set(), m)
				return o.Ok
			})
			if !o.Ok {
				m = snaps[si].m
			}
			addS(sreg{res, m}, o.J)
		case "alg": // operations between things which share structure
			b := snaps[o.J%len(snaps)]
			r, m := snaps[si].s.Union(f.ArgSet(b.s)), snaps[si].m.union(b.m)
			switch o.J % 3 {
			case 1:
				r, m = snaps[si].s.Difference(f.ArgSet(b.s)), snaps[si].m.minus(b.m)
			case 2:
				r, m = snaps[si].s.Intersection(f.ArgSet(b.s)), snaps[si].m.intersect(b.m)
			}
			addS(sreg{r, m}, o.J)
		case "self": // insert or remove another mutable set
			b := muts[o.J%len(muts)]
			bm := b.m.clone()
			if o.Op.Op == "remove" {
				muts[mi].s.Remove(f.ArgMSet(b.s))
				*muts[mi].m = muts[mi].m.minus(bm)
			} else {
				muts[mi].s.Insert(f.ArgMSet(b.s))
				*muts[mi].m = muts[mi].m.union(bm)
			}
		case "walkmut":
			want := snaps[si].m.prefixes(bits)
			mj := o.J % len(muts)
			j := 0
			snaps[si].s.WalkPrefixes(func(p Pfx) bool {
				if j >= len(want) || want[j] != p {
					x.Fail("%s: the walk was affected by a change to a mutable set: call %d is %v", where, j, p)
				}
				apply(o.Sub[j%len(o.Sub)], muts[mj].s, muts[mj].m)
				j++
				return j < 30
			})
			if j != len(want) && j < 30 {
				x.Fail("%s: the walk made %d calls, want %d", where, j, len(want))
			}
		}
		for j, r := range muts {
			wantSet(x, f, where+": mutable set "+itoa(j), r.s.Set(), *r.m)
		}
		for j, r := range snaps {
			wantSet(x, f, where+": snapshot "+itoa(j), r.s, r.m)
		}
	}
	x.LabelIf(afterSnap, "modified after a snapshot")
	x.LabelIf(len(muts) > 2, "more than 2 mutable sets")
	x.NonTrivial(afterSnap && len(c.Ops) > 4)
}

// ---- C15

type c15Case struct {
	S    Space
	L    []Iv
	Ops  []setOp
	Stop []int
}

func genC15(bulk int) func(t *rapid.T) c15Case {
	return func(t *rapid.T) c15Case {
		c := c15Case{S: genSpace(t, 6)}
		c.Ops = slice(t, []int{1, 3, 8}, genSetOp(c.S, bulk))
		c.Stop = slice(t, []int{1, 2}, func(t *rapid.T) int { return ri(t, 0, 25) })
		return c
	}
}

// walkCheck checks a walk and all ways to stop it early
func walkCheck[E comparable](x *X, what string, want []E, more bool, stops []int, walk func(func(E) bool) bool) {
	run := func(stop int) {
		i := 0
		fin := walk(func(e E) bool {
			if stop > 0 && i == stop {
				x.Fail("%s made another call after the callback returned false", what)
			}
			if i >= len(want) {
				x.Fail("%s made an extra call with %v", what, e)
			}
			if want[i] != e {
				x.Fail("%s call %d is %v, want %v", what, i, e, want[i])
			}
			i++
			return i != stop
		})
		if stop > 0 && stop <= len(want) {
			if fin || i != stop {
				x.Fail("%s returned %v after %d calls, wanted a stop at %d", what, fin, i, stop)
			}
		} else if !fin || i != len(want) {
			x.Fail("%s returned %v after %d of %d calls", what, fin, i, len(want))
		}
	}
	if !more {
		run(0)
		run(len(want) + 1)
	}
	run(len(want))
	for _, s := range stops {
		if len(want) > 0 {
			run(s%len(want) + 1)
		}
	}
}

func runC15(x *X, c c15Case) {
	f := c.S.fam()
	bits := f.Bits()
	s_ := f.NewMSet()
	var m Ivs
	for _, o := range c.Ops {
		o.apply(f, s_)
		m = o.model(bits, m)
	}
	s := s_.Set()
	walkCheck(x, "WalkRanges", []Iv(m), false, c.Stop, s.WalkRanges)
	walkCheck(x, "WalkPrefixes", m.prefixes(bits), false, c.Stop, s.WalkPrefixes)
	if bits == 32 {
		// a limited number of addresses, or all of them
		var l []U
		more := false
	loop:
		for _, v := range m {
			for a := v.Lo; ; a = a.inc() {
				if len(l) == 3000 {
					more = true
					break loop
				}
				l = append(l, a)
				if a == v.Hi {
					break
				}
			}
		}
		if len(l) > 0 || !more {
			walkCheck(x, "WalkAddresses", l, more, c.Stop, func(f func(U) bool) bool {
				fin, _ := s.WalkAddresses(f)
				return fin
			})
		}
		x.LabelIf(!more && len(l) > 1, "all addresses walked")
	}
	x.LabelIf(len(m) > 1, "more than one range")
	x.LabelIf(len(m) > 0 && m[0].Lo == U{}, "starts at the first address")
	x.LabelIf(len(m) > 0 && m[len(m)-1].Hi == ones(bits), "ends at the last address")
	x.NonTrivial(len(m) > 1)
}

// the end of the walk in a set at the end of the address space, etc.
func runSmallC15(x *X, c setPair) {
	f := fams[c.F]
	m := c.set(c.A)
	var ops []setOp
	for _, v := range m {
		ops = append(ops, setOp{Op: "insert", Arg: ArgSpec{K: "range", R: v}})
	}
	runC15(x, c15Case{S: Space{F: c.F, Base: c.Base, Off: c.Off, W: 3}, Ops: ops, Stop: []int{c.B % 8}})
	_ = f
}

// ---- C16

type c16Case struct {
	S   Space
	Ops []setOp
	P   Pfx
	R   Iv
	N   []uint32
}

func genC16(bulk int) func(t *rapid.T) c16Case {
	return func(t *rapid.T) c16Case { return drawC16(t, bulk) }
}

func drawC16(t *rapid.T, bulk int) c16Case {
	c := c16Case{S: genSpace(t, 6)}
	c.Ops = slice(t, []int{0, 1, 4}, genSetOp(c.S, bulk))
	c.P, c.R = c.S.pfx(t), c.S.iv(t)
	bits := c.S.bits()
	c.N = slice(t, []int{3, 6}, func(t *rapid.T) uint32 {
		switch ri(t, 0, 7) {
		case 0:
			return uint32(ri(t, 0, bits))
		case 1:
			return uint32(oneOf(t, 0, bits, bits-1, bits/2, bits/2-1, bits/2+1))
		case 2:
			return oneOf(t, uint32(bits)+1, uint32(bits)+2, 2*uint32(bits), 1<<31, 1<<32-1, 256+uint32(bits)/2, 1<<31+8)
		case 3: // around 2^64 of them
			return uint32(min(bits, c.P.N+oneOf(t, 62, 63, 64, 65)))
		case 4:
			return uint32(min(bits, max(0, bits-c.S.Off-c.S.W+oneOf(t, 60, 62, 63, 64, 65))))
		}
		return uint32(c.S.length(t))
	})
	return c
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func checkNumPrefixes(x *X, what string, bits int, n uint32, m Ivs, got uint64, err error) {
	if int64(n) > int64(bits) {
		if err == nil && len(m) > 0 {
			x.Fail("%s: NumPrefixes(%d) of %v is %d without an error", what, n, m, got)
		}
		return
	}
	want := m.numPrefixes(bits, int(n))
	if want.Cmp(two64) >= 0 {
		if err == nil {
			x.Fail("%s: NumPrefixes(%d) of %v is %d without an error, the count is %v", what, n, m, got, want)
		}
		x.Label("overflow")
		return
	}
	if err != nil {
		x.Fail("%s: NumPrefixes(%d) of %v is the error %q, the count is %v", what, n, m, err, want)
	}
	if new(big.Int).SetUint64(got).Cmp(want) != 0 {
		x.Fail("%s: NumPrefixes(%d) of %v is %d, want %v", what, n, m, got, want)
	}
}

func checkNumAddrs(x *X, what string, n int64, ok bool, m Ivs) {
	if ok && big.NewInt(n).Cmp(m.size()) != 0 {
		x.Fail("%s: NumAddresses of %v is %d, want %v", what, m, n, m.size())
	}
}

func runC16(x *X, c c16Case) {
	f := c.S.fam()
	bits := f.Bits()
	s_ := f.NewMSet()
	var m Ivs
	for _, o := range c.Ops {
		o.apply(f, s_)
		m = o.model(bits, m)
	}
	s, p, r := s_.Set(), f.Pfx(c.P), f.Range(c.R)
	n, ok := s.NumAddresses()
	checkNumAddrs(x, "Set", n, ok, m)
	n, ok = s_.NumAddresses()
	checkNumAddrs(x, "Set_", n, ok, m)
	n, ok = p.NumAddresses()
	checkNumAddrs(x, "Prefix", n, ok, Ivs{c.P.iv(bits)})
	n, ok = r.NumAddresses()
	checkNumAddrs(x, "Range", n, ok, Ivs{c.R})
	if s.IsEmpty() != (len(m) == 0) || s_.IsEmpty() != (len(m) == 0) {
		x.Fail("IsEmpty is %v, Set_ %v, for %v", s.IsEmpty(), s_.IsEmpty(), m)
	}
	some := false
	for _, l := range c.N {
		k, err := s.NumPrefixes(l)
		checkNumPrefixes(x, "Set", bits, l, m, k, err)
		some = some || k > 0
		k, err = p.NumPrefixes(l)
		checkNumPrefixes(x, "Prefix", bits, l, Ivs{c.P.iv(bits)}, k, err)
		k, err = r.NumPrefixes(l)
		checkNumPrefixes(x, "Range", bits, l, Ivs{c.R}, k, err)
	}
	// a prefix of each length
	for l := 0; l <= bits; l++ {
		if len(m) > 5000 && l > 0 && l < bits-1 && (l < bits-c.S.Off-c.S.W || l > bits-c.S.Off+2) {
			continue // where nothing is different
		}
		k, err := s.NumPrefixes(uint32(l))
		checkNumPrefixes(x, "Set", bits, uint32(l), m, k, err)
	}
	x.NonTrivial(some && len(m) > 0)
}

// ---- C17

type c17Case struct {
	S   Space
	Ops []setOp
	P   Pfx
	R   Iv
	Q   []ArgSpec
}

func genC17(bulk int) func(t *rapid.T) c17Case {
	return func(t *rapid.T) c17Case {
		c := c17Case{S: genSpace(t, 5)}
		c.Ops = slice(t, []int{0, 2, 6}, genSetOp(c.S, bulk))
		c.P, c.R = c.S.pfx(t), c.S.iv(t)
		c.Q = slice(t, []int{3, 8}, func(t *rapid.T) ArgSpec { return c.S.arg(t) })
		return c
	}
}

func runC17(x *X, c c17Case) {
	f := c.S.fam()
	bits := f.Bits()
	s_ := f.NewMSet()
	var m Ivs
	for _, o := range c.Ops {
		o.apply(f, s_)
		m = o.model(bits, m)
	}
	s, p, r := s_.Set(), f.Pfx(c.P), f.Range(c.R)
	pm, rm := Ivs{c.P.iv(bits)}, Ivs{c.R}
	yes, no := 0, 0
	ask := func(q Arg, qm Ivs, what any) {
		check := func(who string, got bool, m Ivs) {
			want := len(qm.minus(m)) == 0
			if want {
				yes++
			} else {
				no++
			}
			if got != want {
				x.Fail("%s %v: Contains(%v) is %v", who, m, what, got)
			}
		}
		check("Set", s.Contains(q), m)
		check("Set_", s_.Contains(q), m)
		check("Prefix", p.Contains(q), pm)
		check("Range", r.Contains(q), rm)
		check("zero Set", f.ZeroSet().Contains(q), nil)
		check("zero Set_", f.ZeroMSet().Contains(q), nil)
	}
	for _, q := range c.Q {
		ask(q.make(f), q.model(bits), q)
	}
	// close to being contained
	for _, m := range []Ivs{m, pm, rm} {
		for i, v := range m {
			if i > 4 {
				break
			}
			ask(f.ArgRange(v), Ivs{v}, v)
			if v.Lo != (U{}) {
				ask(f.ArgRange(Iv{v.Lo.dec(), v.Hi}), Ivs{{v.Lo.dec(), v.Hi}}, v)
				ask(f.ArgAddr(v.Lo.dec()), Ivs{{v.Lo.dec(), v.Lo.dec()}}, v.Lo.dec())
			}
			if v.Hi != ones(bits) {
				ask(f.ArgRange(Iv{v.Lo, v.Hi.inc()}), Ivs{{v.Lo, v.Hi.inc()}}, v)
				ask(f.ArgAddr(v.Hi.inc()), Ivs{{v.Hi.inc(), v.Hi.inc()}}, v.Hi.inc())
			}
			ask(f.ArgAddr(v.Hi), Ivs{{v.Hi, v.Hi}}, v.Hi)
			// everything but a hole
			if i == 0 && v.Lo != v.Hi {
				hole := m.minus(Ivs{{v.Hi, v.Hi}})
				h := buildSet(f, hole).Set()
				ask(f.ArgSet(h), hole, hole)
				if h.Contains(f.ArgRange(v)) {
					x.Fail("Set %v: Contains(%v) is true", hole, v)
				}
			}
		}
	}
	for _, e := range []struct {
		who string
		got bool
		m   Ivs
	}{{"Set", s.IsEmpty(), m}, {"Set_", s_.IsEmpty(), m}, {"Prefix.Set", p.Set().IsEmpty(), pm}, {"Range.Set", r.Set().IsEmpty(), rm}} {
		if e.got != (len(e.m) == 0) {
			x.Fail("%s %v: IsEmpty is %v", e.who, e.m, e.got)
		}
	}
	x.LabelIf(yes > 0, "contained")
	x.LabelIf(no > 0, "not contained")
	x.NonTrivial(yes > 0 && no > 0 && len(m) > 0)
}

// ---- C18 and C29

type c18Case struct {
	S    Space
	Have []setOp
	Res  []setOp
	Nil  bool
	N    []uint32
}

func genC18(bulk int) func(t *rapid.T) c18Case {
	return func(t *rapid.T) c18Case {
		c := c18Case{S: genSpace(t, 6)}
		g := genSetOp(c.S, bulk)
		c.Have = slice(t, []int{1, 3, 6}, g)
		c.Res = slice(t, []int{0, 2, 6}, g)
		c.Nil = chance(t, 1)
		c.N = slice(t, []int{2, 5}, func(t *rapid.T) uint32 {
			if chance(t, 1) {
				return oneOf(t, uint32(c.S.bits()+1), 256, 1<<31, 1<<32-1, 1<<31+24)
			}
			return uint32(c.S.length(t))
		})
		return c
	}
}

// checkAvailable checks the result of FindAvailablePrefix. It must be a network
// of the length asked for, be available, and be in one of the smallest free
// prefixes which have room for it. If there is an error, there is no room.
func checkAvailable(x *X, f Fam, have, res Ivs, n uint32, got Pfx, err error) bool {
	bits := f.Bits()
	free := have.minus(res)
	if int64(n) > int64(bits) {
		if err == nil {
			x.Fail("FindAvailablePrefix with length %d returned %v", n, got)
		}
		return false
	}
	best := -1
	blocks := free.prefixes(bits)
	for _, p := range blocks {
		if p.N <= int(n) && p.N > best {
			best = p.N
		}
	}
	if best < 0 {
		if err == nil {
			x.Fail("FindAvailablePrefix(%d) in %v returned %v, there is no room", n, free, got)
		}
		return false
	}
	if err != nil {
		x.Fail("FindAvailablePrefix(%d) in %v returned an error, there is room: %v", n, free, blocks)
	}
	if got.N != int(n) || got.net(bits) != got {
		x.Fail("FindAvailablePrefix(%d) in %v returned %v", n, free, got)
	}
	if len(Ivs{got.iv(bits)}.minus(have)) > 0 {
		x.Fail("FindAvailablePrefix(%d) returned %v which isn't contained in %v", n, got, have)
	}
	if len(Ivs{got.iv(bits)}.intersect(res)) > 0 {
		x.Fail("FindAvailablePrefix(%d) returned %v which overlaps what is reserved, %v", n, got, res)
	}
	for _, p := range blocks {
		if p.contains(bits, got) {
			if p.N != best {
				x.Fail("FindAvailablePrefix(%d) returned %v in the free prefix %v, there is a smaller one: %v", n, got, p, blocks)
			}
			return true
		}
	}
	x.Fail("FindAvailablePrefix(%d) returned %v, free are %v", n, got, blocks)
	return false
}

func runC18(x *X, c c18Case) {
	f := c.S.fam()
	bits := f.Bits()
	build := func(ops []setOp) (MSetV, Ivs) {
		s := f.NewMSet()
		var m Ivs
		for _, o := range ops {
			o.apply(f, s)
			m = o.model(bits, m)
		}
		return s, m
	}
	hs, have := build(c.Have)
	rs, res := build(c.Res)
	if c.Nil {
		res = nil
	}
	found, none := 0, 0
	for i, n := range c.N {
		arg := Arg{}
		if !c.Nil {
			switch i % 3 {
			case 0:
				arg = f.ArgSet(rs.Set())
			case 1:
				arg = f.ArgMSet(rs)
			default:
				arg = f.ArgFunc(func() SetV { return rs.Set() })
			}
		}
		got, err := hs.Set().FindAvailable(arg, n)
		if checkAvailable(x, f, have, res, n, got, err) {
			found++
		} else {
			none++
		}
	}
	// a single prefix, range or address may be what's reserved
	for i, o := range c.Res {
		if i < 3 && o.N == 0 {
			n := c.N[i%len(c.N)]
			got, err := hs.Set().FindAvailable(o.Arg.make(f), n)
			checkAvailable(x, f, have, o.Arg.model(bits), n, got, err)
		}
	}
	wantSet(x, f, "the set", hs.Set(), have)
	if !c.Nil {
		wantSet(x, f, "what is reserved", rs.Set(), res)
	}
	x.LabelIf(found > 0, "found")
	x.LabelIf(none > 0, "no room")
	x.LabelIf(len(have.intersect(res)) > 0, "something is reserved")
	x.NonTrivial(found > 0 && len(have.intersect(res)) > 0)
}

type c29Op struct {
	K string // alloc, free, grow, shrink, hold
	N uint32
	I int
	P Pfx
}

type c29Case struct {
	S     Space
	Have  []setOp
	Res   []ArgSpec // reserved from the start
	Ops   []c29Op
	Final int // length which is allocated until there's no room
}

func genC29(t *rapid.T) c29Case {
	c := c29Case{S: genSpace(t, 6)}
	bits := c.S.bits()
	top := bits - c.S.Off
	c.Have = slice(t, []int{1, 2, 4}, genSetOp(c.S, 0))
	length := func(t *rapid.T) int { return min(bits, ri(t, max(0, top-c.S.W), min(bits, top+2))) }
	c.Ops = slice(t, []int{3, 10, 25}, func(t *rapid.T) c29Op {
		o := c29Op{K: oneOf(t, "alloc", "alloc", "alloc", "alloc", "free", "grow", "hold", "shrink"), N: uint32(length(t)), I: ri(t, 0, 30)}
		if o.K != "alloc" && o.K != "free" {
			o.P = c.S.pfx(t)
		}
		return o
	})
	if chance(t, 6) {
		c.Res = slice(t, []int{1, 2, 4}, c.S.arg)
	}
	c.Final = length(t)
	return c
}

func runC29(x *X, c c29Case) {
	f := c.S.fam()
	bits := f.Bits()
	pool := f.NewMSet()
	var pm Ivs
	for _, o := range c.Have {
		o.apply(f, pool)
		pm = o.model(bits, pm)
	}
	reserved := f.NewMSet()
	var rm Ivs
	var held []Pfx
	for _, a := range c.Res {
		reserved.Insert(a.make(f))
		rm = rm.union(a.model(bits))
	}
	others := len(c.Res) > 0 // there are reserved addresses which weren't allocated
	alloc := func(n uint32) bool {
		got, err := pool.Set().FindAvailable(f.ArgMSet(reserved), n)
		if !checkAvailable(x, f, pm, rm, n, got, err) {
			return false
		}
		reserved.Insert(f.ArgPfx(got))
		rm = rm.union(Ivs{got.iv(bits)})
		for _, h := range held {
			if h.contains(bits, got) || got.contains(bits, h) {
				x.Fail("%v was handed out while %v is held", got, h)
			}
		}
		held = append(held, got)
		return true
	}
	freed, full := 0, 0
	for _, o := range c.Ops {
		switch o.K {
		case "alloc":
			if !alloc(o.N) {
				full++
			}
		case "free":
			if len(held) > 0 {
				i := o.I % len(held)
				p := held[i]
				held = append(append([]Pfx(nil), held[:i]...), held[i+1:]...)
				reserved.Remove(f.ArgPfx(p))
				rm = rm.minus(Ivs{p.iv(bits)})
				freed++
			}
		case "grow":
			if o.P.N > 2 {
				pool.Insert(f.ArgPfx(o.P))
				pm = pm.union(Ivs{o.P.iv(bits)})
			}
		case "shrink":
			pool.Remove(f.ArgPfx(o.P))
			pm = pm.minus(Ivs{o.P.iv(bits)})
		case "hold": // may be in the pool or not
			reserved.Insert(f.ArgPfx(o.P))
			rm = rm.union(Ivs{o.P.iv(bits)})
			others = true
		}
		wantSet(x, f, "reserved", reserved.Set(), rm)
	}
	// until there's no room: the number is how many fit
	room := pm.minus(rm).numPrefixes(bits, c.Final)
	if room.Cmp(big.NewInt(150)) <= 0 {
		for i := int64(0); i < room.Int64(); i++ {
			if !alloc(uint32(c.Final)) {
				x.Fail("only %d of %v prefixes of length %d were handed out", i, room, c.Final)
			}
		}
		if alloc(uint32(c.Final)) {
			x.Fail("more than %v prefixes of length %d were handed out", room, c.Final)
		}
		x.Label("until there's no room")
	}
	// what's held is disjoint and what's reserved
	var l []Iv
	sort.Slice(held, func(i, j int) bool { return held[i].less(held[j]) })
	for _, h := range held {
		l = append(l, h.iv(bits))
	}
	if !others {
		wantSet(x, f, "reserved at the end", reserved.Set(), normIvs(l))
	}
	x.LabelIf(others, "not all that is reserved was allocated")
	x.LabelIf(freed > 0, "something was freed")
	x.LabelIf(full > 0, "no room")
	x.NonTrivial(len(held) > 2)
}
