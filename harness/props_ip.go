package main

import (
	"fmt"
	"net"
	"reflect"
	"strings"

	"gopkg.in/addrs.v1/ip"
	"gopkg.in/addrs.v1/ipv4"
	"gopkg.in/addrs.v1/ipv6"
	"pgregory.net/rapid"
)

// ---- C24 package ip

type c24Case struct {
	F, G string // families
	P, Q Pfx
	Any  c23Case // arbitrary input
}

func genC24(t *rapid.T) c24Case {
	c := c24Case{F: genFam(t), G: genFam(t)}
	c.P, c.Q = genPfx(t, c.F), genPfx(t, c.G)
	c.Any = genC23(t)
	return c
}

// other types with the methods of the interfaces
type otherAddr struct{ ipv4.Address }
type otherPrefix struct{ ipv6.Prefix }
type otherMask struct{ ipv4.Mask }
type otherRange struct{ ipv6.Range }

func isNil(v any) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	return r.Kind() == reflect.Pointer && r.IsNil()
}

func runC24(x *X, c c24Case) {
	// arbitrary input gives exactly what the package of the family gives
	same := func(what string, got any, err error, want any, werr error) {
		if (err == nil) != (werr == nil) {
			x.Fail("%s: error %v, want %v", what, err, werr)
		}
		if err == nil && got != want {
			x.Fail("%s: %T %v, want %T %v", what, got, got, want, want)
		}
		x.LabelIf(err == nil, "accepted")
		x.LabelIf(err != nil, "refused")
	}
	s := c.Any.S
	v6 := strings.Contains(s, ":")
	{
		got, err := ip.AddressFromString(s)
		var want any
		var werr error
		if v6 {
			want, werr = ipv6.AddressFromString(s)
		} else {
			want, werr = ipv4.AddressFromString(s)
		}
		same(fmt.Sprintf("AddressFromString(%q)", s), got, err, want, werr)
	}
	{
		got, err := ip.PrefixFromString(s)
		var want any
		var werr error
		if v6 {
			want, werr = ipv6.PrefixFromString(s)
		} else {
			want, werr = ipv4.PrefixFromString(s)
		}
		same(fmt.Sprintf("PrefixFromString(%q)", s), got, err, want, werr)
	}
	{
		got, err := ip.AddressFromNetIP(c.Any.B)
		var want any
		werr := fmt.Errorf("bad length")
		switch len(c.Any.B) {
		case 4:
			want, werr = ipv4.AddressFromNetIP(c.Any.B)
		case 16:
			want, werr = ipv6.AddressFromNetIP(c.Any.B)
		}
		same(fmt.Sprintf("AddressFromNetIP(%v)", c.Any.B), got, err, want, werr)
	}
	{
		got, err := ip.MaskFromNetIPMask(c.Any.M)
		var want any
		werr := fmt.Errorf("bad length")
		switch len(c.Any.M) {
		case 4:
			want, werr = ipv4.MaskFromNetIPMask(c.Any.M)
		case 16:
			want, werr = ipv6.MaskFromNetIPMask(c.Any.M)
		}
		same(fmt.Sprintf("MaskFromNetIPMask(%v)", c.Any.M), got, err, want, werr)
	}
	{
		n := &net.IPNet{IP: c.Any.B, Mask: c.Any.M}
		got, err := ip.PrefixFromNetIPNet(n)
		var want any
		werr := fmt.Errorf("bad length")
		switch {
		case len(c.Any.B) == 4 && len(c.Any.M) == 4:
			want, werr = ipv4.PrefixFromNetIPNet(n)
		case len(c.Any.B) == 16 && len(c.Any.M) == 16:
			want, werr = ipv6.PrefixFromNetIPNet(n)
		}
		if !(len(c.Any.B) == 16 && len(c.Any.M) == 4) || err == nil {
			same(fmt.Sprintf("PrefixFromNetIPNet(%v, %v)", c.Any.B, c.Any.M), got, err, want, werr)
		}
		if got, err := ip.PrefixFromNetIPNet(nil); err == nil {
			x.Fail("PrefixFromNetIPNet(nil) is %v", got)
		}
	}

	// values of either family
	f, g := fams[c.F], fams[c.G]
	P, Q := c.P, c.Q
	fa, ga := f.Addr(P.A).Raw().(ip.Address), g.Addr(Q.A).Raw().(ip.Address)
	fp := f.Pfx(P).Raw().(ip.Prefix)
	fm, gm := f.Pfx(P).Mask().Raw().(ip.Mask), g.Pfx(Q).Mask().Raw().(ip.Mask)
	fr := f.Pfx(P).Range().Raw().(ip.Range)
	eq := func(what string, got, want any) {
		if got != want {
			x.Fail("%s: %T %v, want %T %v", what, got, got, want, want)
		}
	}
	eq("PrefixFromAddress", ip.PrefixFromAddress(fa), f.Addr(P.A).Prefix().Raw())
	eq("AddressFromPrefix", ip.AddressFromPrefix(fp), fa)
	eq("MaskFromPrefix", ip.MaskFromPrefix(fp), fm)
	eq("RangeFromPrefix", ip.RangeFromPrefix(fp), fr)
	iv := P.iv(f.Bits())
	eq("FirstFromRange", ip.FirstFromRange(fr), f.Addr(iv.Lo).Raw())
	eq("LastFromRange", ip.LastFromRange(fr), f.Addr(iv.Hi).Raw())

	// the same through text and package net, whichever family it is
	back, err := ip.PrefixFromNetIPNet(fp.ToNetIPNet())
	same("PrefixFromNetIPNet of ToNetIPNet", back, err, fp, nil)
	back, err = ip.PrefixFromString(fp.String())
	same("PrefixFromString of String", back, err, fp, nil)
	aback, err := ip.AddressFromNetIP(fa.ToNetIP())
	same("AddressFromNetIP of ToNetIP", aback, err, fa, nil)
	aback, err = ip.AddressFromString(fa.String())
	same("AddressFromString of String", aback, err, fa, nil)
	mback, err := ip.MaskFromNetIPMask(fm.ToNetIPMask())
	same("MaskFromNetIPMask of ToNetIPMask", mback, err, fm, nil)

	// both families
	pm, err := ip.PrefixFromAddressMask(fa, gm)
	if c.F == c.G {
		same("PrefixFromAddressMask", pm, err, f.PfxFromAddrMask(f.Addr(P.A), g.Pfx(Q).Mask()).Raw(), nil)
	} else if err == nil {
		x.Fail("PrefixFromAddressMask of %v and %v is %v", fa, gm, pm)
	}
	r, empty, err := ip.RangeFromAddresses(fa, ga)
	switch {
	case c.F != c.G:
		x.want(err != nil, "RangeFromAddresses of %v and %v is %v", fa, ga, r)
	case err != nil:
		x.Fail("RangeFromAddresses of %v and %v: %v", fa, ga, err)
	case empty != Q.A.lt(P.A):
		x.Fail("RangeFromAddresses of %v and %v empty is %v", fa, ga, empty)
	default:
		// also if it's empty
		want, _ := f.RangeFromAddresses(P.A, Q.A)
		eq("RangeFromAddresses", r, want.Raw())
	}
	x.LabelIf(c.F != c.G, "mixed")

	// neither family
	for _, a := range []ip.Address{nil, otherAddr{}, &otherAddr{}} {
		x.want(isNil(ip.PrefixFromAddress(a)), "PrefixFromAddress(%T)", a)
		_, err := ip.PrefixFromAddressMask(a, fm)
		x.want(err != nil, "PrefixFromAddressMask(%T, %T)", a, fm)
		_, _, err = ip.RangeFromAddresses(a, fa)
		x.want(err != nil, "RangeFromAddresses(%T, %T)", a, fa)
		_, _, err = ip.RangeFromAddresses(fa, a)
		x.want(err != nil, "RangeFromAddresses(%T, %T)", fa, a)
	}
	for _, m := range []ip.Mask{nil, otherMask{}, &otherMask{}} {
		_, err := ip.PrefixFromAddressMask(fa, m)
		x.want(err != nil, "PrefixFromAddressMask(%T, %T)", fa, m)
	}
	for _, p := range []ip.Prefix{nil, otherPrefix{}, &otherPrefix{}} {
		x.want(isNil(ip.AddressFromPrefix(p)), "AddressFromPrefix(%T)", p)
		x.want(isNil(ip.MaskFromPrefix(p)), "MaskFromPrefix(%T)", p)
		x.want(isNil(ip.RangeFromPrefix(p)), "RangeFromPrefix(%T)", p)
	}
	for _, r := range []ip.Range{nil, otherRange{}, &otherRange{}, fa} {
		x.want(isNil(ip.FirstFromRange(r)), "FirstFromRange(%T)", r)
		x.want(isNil(ip.LastFromRange(r)), "LastFromRange(%T)", r)
	}
	x.NonTrivial(true)
}

// ---- C27 zero values and nil

type c27Case struct {
	F    string
	S    Space
	K    KeySpec
	P    Pfx
	A    ArgSpec
	L    []Iv
	Ops  []TabOp
	N    uint32
	Copy int
}

func genC27(t *rapid.T) c27Case {
	s := genSpace(t, 4)
	c := c27Case{F: s.F, S: s, K: s.key(t), P: s.pfx(t), A: s.arg(t), L: s.ivs(t), N: uint32(ri(t, 0, s.bits()))}
	c.Ops = slice(t, []int{0, 2, 5}, genTabOp(s, 4, 0))
	return c
}

func runC27(x *X, c c27Case) {
	f := fams[c.F]
	bits := f.Bits()
	zeroIv := Ivs{Iv{}}
	all := Ivs{{U{}, ones(bits)}}

	// plain values
	x.want(f.ZeroAddr().U() == U{} && f.ZeroAddr().String() == strOf(bits, U{}), "zero Address is %v", f.ZeroAddr())
	x.want(f.ZeroMask().Length() == 0, "zero Mask is %v", f.ZeroMask())
	x.want(f.ZeroPfx().Pfx() == Pfx{}, "zero Prefix is %v", f.ZeroPfx().Pfx())
	x.want(f.ZeroRange().Iv() == Iv{}, "zero Range is %v", f.ZeroRange().Iv())
	wantSet(x, f, "zero Prefix.Set", f.ZeroPfx().Set(), all)
	wantSet(x, f, "zero Range.Set", f.ZeroRange().Set(), zeroIv)
	wantSet(x, f, "zero Address.Set", f.ZeroAddr().Set(), zeroIv)
	x.want(f.ZeroPfx().Contains(c.A.make(f)), "zero Prefix doesn't contain %v", c.A)

	// sets: an empty one, a zero Set, a zero Set_ and nil are all the same
	am := c.A.model(bits)
	sm := normIvs(c.L)
	s := buildSet(f, c.L)
	empties := []Arg{{}, f.ArgSet(f.ZeroSet()), f.ArgMSet(f.ZeroMSet()), f.ArgMSet(f.NewMSet()), f.ArgFunc(f.ZeroSet)}
	for i, e := range empties {
		what := fmt.Sprintf("with empty set %d", i)
		for _, v := range []interface {
			Union(Arg) SetV
			Intersection(Arg) SetV
			Difference(Arg) SetV
			Contains(Arg) bool
		}{s, s.Set()} {
			wantSet(x, f, "Union "+what, v.Union(e), sm)
			wantSet(x, f, "Intersection "+what, v.Intersection(e), nil)
			wantSet(x, f, "Difference "+what, v.Difference(e), sm)
			x.want(v.Contains(e), "%v Contains %s", sm, what)
		}
		x.want(f.Pfx(c.P).Contains(e), "Prefix %v Contains %s", c.P, what)
		x.want(f.Pfx(c.P).Range().Contains(e), "Range Contains %s", what)
		w := s.Set().Mut()
		w.Insert(e)
		wantSet(x, f, "Insert "+what, w.Set(), sm)
		w.Remove(e)
		wantSet(x, f, "Remove "+what, w.Set(), sm)
		p, err := s.Set().FindAvailable(e, c.N)
		q, qerr := s.Set().FindAvailable(f.ArgSet(f.ZeroSet()), c.N)
		x.want((err == nil) == (qerr == nil) && (err != nil || p.N == q.N), "FindAvailablePrefix %s: %v, %v and %v, %v", what, p, err, q, qerr)
	}
	for i, z := range []SetV{f.ZeroSet(), f.ZeroMSet().Set(), f.NewMSet().Set(), f.ZeroSet().Mut().Set(), f.ZeroSet().Set()} {
		what := fmt.Sprintf("empty set %d", i)
		wantSet(x, f, what, z, nil)
		x.want(z.IsEmpty() && z.String() == "[]", "%s: IsEmpty %v, String %q", what, z.IsEmpty(), z.String())
		wantSet(x, f, what+" Union", z.Union(c.A.make(f)), am)
		wantSet(x, f, what+" Intersection", z.Intersection(c.A.make(f)), nil)
		wantSet(x, f, what+" Difference", z.Difference(c.A.make(f)), nil)
		x.want(z.Contains(c.A.make(f)) == (len(am) == 0), "%s Contains %v", what, c.A)
		x.want(z.Equal(f.ZeroSet()) && f.NewMSet().Set().Equal(z), "%s isn't equal to an empty set", what)
		x.want(z.Equal(s.Set()) == (len(sm) == 0), "%s Equal %v", what, sm)
		if n, ok := z.NumAddresses(); ok {
			x.want(n == 0, "%s: NumAddresses %d", what, n)
		}
		n, err := z.NumPrefixes(c.N)
		x.want(n == 0 && err == nil, "%s: NumPrefixes %d, %v", what, n, err)
		x.want(z.WalkPrefixes(func(Pfx) bool { x.Fail("%s: WalkPrefixes calls back", what); return true }), "%s: WalkPrefixes", what)
		x.want(z.WalkRanges(func(Iv) bool { x.Fail("%s: WalkRanges calls back", what); return true }), "%s: WalkRanges", what)
		if fin, ok := z.WalkAddresses(func(U) bool { x.Fail("%s: WalkAddresses calls back", what); return true }); ok {
			x.want(fin, "%s: WalkAddresses", what)
		}
		_, err = z.FindAvailable(c.A.make(f), c.N)
		x.want(err != nil, "%s: FindAvailablePrefix(%d) found something", what, c.N)
		// a usable set comes from a zero value
		m := z.Mut()
		m.Insert(c.A.make(f))
		wantSet(x, f, what+" made mutable", m.Set(), am)
		b := z.Build(func(m MSetV) bool { m.Insert(c.A.make(f)); return true })
		wantSet(x, f, what+" Build", b, am)
		wantSet(x, f, what+" at the end", z, nil)
	}
	zm := f.ZeroMSet()
	wantSet(x, f, "zero Set_ Union", zm.Union(c.A.make(f)), am)
	wantSet(x, f, "zero Set_ Intersection", zm.Intersection(c.A.make(f)), nil)
	wantSet(x, f, "zero Set_ Difference", zm.Difference(c.A.make(f)), nil)
	x.want(zm.IsEmpty() && zm.Equal(f.NewMSet()) && f.NewMSet().Equal(zm) && zm.Equal(f.ZeroMSet()), "zero Set_ isn't empty")
	x.want(zm.Equal(s) == (len(sm) == 0) && s.Equal(zm) == (len(sm) == 0), "zero Set_ Equal %v", sm)
	x.want(zm.Contains(c.A.make(f)) == (len(am) == 0), "zero Set_ Contains %v", c.A)
	if n, ok := zm.NumAddresses(); ok {
		x.want(n == 0, "zero Set_: NumAddresses %d", n)
	}
	x.want(mustPanic(func() { f.ZeroMSet().Insert(c.A.make(f)) }), "Insert(%v) in a zero Set_ doesn't panic", c.A)
	x.want(mustPanic(func() { f.ZeroMSet().Remove(c.A.make(f)) }), "Remove(%v) in a zero Set_ doesn't panic", c.A)
	x.want(mustPanic(func() { f.ZeroMSet().Insert(Arg{}) }), "Insert(nil) in a zero Set_ doesn't panic")
	x.want(mustPanic(func() { f.ZeroMSet().Remove(Arg{}) }), "Remove(nil) in a zero Set_ doesn't panic")

	// tables
	n := newNorm(x, f)
	key := func() Key { return c.K.make(f) }
	zt := zeroMTable[int](f)
	for _, w := range []struct {
		what string
		f    func()
	}{
		{"Insert", func() { zt.Insert(key(), 1) }},
		{"Update", func() { zt.Update(key(), 1) }},
		{"InsertOrUpdate", func() { zt.InsertOrUpdate(key(), 1) }},
		{"GetOrInsert", func() { zt.GetOrInsert(key(), 1) }},
		{"Remove", func() { zt.Remove(key()) }},
	} {
		x.want(mustPanic(w.f), "%s(%v) in a zero Table_ doesn't panic", w.what, c.K)
	}
	rd := func(what string, r reader[int]) {
		v, ok := r.Get(key())
		x.want(v == 0 && !ok, "%s: Get(%v) is %v, %v", what, c.K, v, ok)
		_, ok, _ = r.LongestMatch(key())
		x.want(!ok, "%s: LongestMatch(%v) found something", what, c.K)
		x.want(r.NumEntries() == 0, "%s: NumEntries is %d", what, r.NumEntries())
	}
	rd("zero Table_", zt)
	for i, t := range []TabV[int]{zeroTable[int](f), zt.Table(), newMTable[int](f).Table(), zeroTable[int](f).Aggregate(), zeroTable[int](f).Map(func(p Pfx, v int) int { x.Fail("mapper called with %v", p); return v })} {
		what := fmt.Sprintf("empty Table %d", i)
		rd(what, t)
		x.want(t.Walk(func(p Pfx, v int) bool { x.Fail("%s: Walk calls back with %v", what, p); return true }), "%s: Walk", what)
		none := func(p Pfx, v int) bool { x.Fail("%s: Diff calls back with %v", what, p); return true }
		x.want(t.Diff(zeroTable[int](f), nil, none, none, none), "%s: Diff", what)
		// it can be made mutable and works
		m := Tab[int]{}
		mt := MTabV[int](normMTab[int]{t.Mut(), n})
		for _, op := range c.Ops {
			op.apply(x, f, n, mt, m)
		}
		wantTable(x, what+" made mutable", mt.Table(), m)
		rd(what, t)
		b := t.Build(func(mt MTabV[int]) bool { mt.Insert(key(), 7); return true })
		n.saw(c.K.P)
		wantTable[int](x, what+" Build", normTab[int]{b, n}, Tab[int]{c.K.P.net(bits): 7})
		x.want(t.Diff(mt.Table().(normTab[int]).TabV, nil, none, nil, nil), "%s: Diff", what)
		if len(m) > 0 {
			cnt := 0
			t.Diff(mt.Table().(normTab[int]).TabV, nil, nil, func(p Pfx, v int) bool { cnt++; return true }, nil)
			x.want(cnt == len(m), "%s: Diff with %d entries calls back %d times", what, len(m), cnt)
		}
	}

	// nil keys are 0/0
	m := Tab[int]{}
	mt, m := buildTable(x, f, n, "new", c.Ops)
	for _, r := range []reader[int]{mt, mt.Table()} {
		wantGet(x, "with a nil key", r, f, KeySpec{K: "nil"}, m)
		wantMatch(x, "with a nil key", r, f, KeySpec{K: "nil"}, m)
	}
	for _, o := range []string{"insert", "update", "goi", "iou", "remove", "update", "remove", "iou", "goi", "insert", "remove", "goi"} {
		op := TabOp{Op: o, K: KeySpec{K: "nil"}, V: 9}
		op.apply(x, f, n, mt, m)
		wantTable(x, o+" with a nil key", mt.Table(), m)
	}
	x.LabelIf(len(sm) > 0, "set with addresses")
	x.LabelIf(len(am) == 0, "empty argument")
	x.LabelIf(len(m) > 1, "table with entries")
	x.NonTrivial(len(sm) > 0 && len(m) > 1)
}
