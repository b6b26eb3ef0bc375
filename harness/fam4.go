package main

// fam6.go is generated from this file by gen.sh. What differs between the
// packages is in conv4.go and conv6.go.

import (
	"net"

	"gopkg.in/addrs.v1/ipv4"
)

type fam4 struct{}

func p4(p Pfx) ipv4.Prefix {
	m, err := ipv4.MaskFromLength(p.N)
	if err != nil {
		panic(checkFailed{"MaskFromLength: " + err.Error()})
	}
	return ipv4.PrefixFromAddressMask(a4(p.A), m)
}
func pm4(p ipv4.Prefix) Pfx { return Pfx{u4(p.Address()), p.Length()} }
func r4(v Iv) ipv4.Range {
	r, empty := ipv4.RangeFromAddresses(a4(v.Lo), a4(v.Hi))
	if empty {
		panic(checkFailed{"RangeFromAddresses(" + v.String() + ") is empty"})
	}
	return r
}
func rm4(r ipv4.Range) Iv { return Iv{u4(r.First()), u4(r.Last())} }
func si4(a Arg) ipv4.SetI {
	if a.v == nil {
		return nil
	}
	return a.v.(ipv4.SetI)
}
func pi4(k Key) ipv4.PrefixI {
	if k.v == nil {
		return nil
	}
	return k.v.(ipv4.PrefixI)
}

type setFunc4 func() ipv4.Set

func (f setFunc4) Set() ipv4.Set { return f() }

type prefixFunc4 func() ipv4.Prefix

func (f prefixFunc4) Prefix() ipv4.Prefix { return f() }

func (fam4) Name() string   { return "v4" }
func (fam4) Addr(a U) AddrV { return addr4{a4(a)} }
func (fam4) Pfx(p Pfx) PfxV { return pfx4{p4(p)} }
func (fam4) Range(v Iv) RangeV {
	return rng4{r4(v)}
}
func (fam4) Mask(length int) (MaskV, error) {
	m, err := ipv4.MaskFromLength(length)
	return mask4{m}, err
}
func (fam4) MaskNet(n net.IPMask) (MaskV, error) {
	m, err := ipv4.MaskFromNetIPMask(n)
	return mask4{m}, err
}
func (fam4) ZeroAddr() AddrV   { return addr4{} }
func (fam4) ZeroPfx() PfxV     { return pfx4{} }
func (fam4) ZeroRange() RangeV { return rng4{} }
func (fam4) ZeroMask() MaskV   { return mask4{} }
func (fam4) RangeFromAddresses(first, last U) (RangeV, bool) {
	r, empty := ipv4.RangeFromAddresses(a4(first), a4(last))
	return rng4{r}, empty
}
func (fam4) AddrNet(ip net.IP) (AddrV, error) {
	a, err := ipv4.AddressFromNetIP(ip)
	return addr4{a}, err
}
func (fam4) AddrSlice(b []byte) (AddrV, error) {
	a, err := ipv4.AddressFromSlice(b)
	return addr4{a}, err
}
func (fam4) AddrParse(s string) (AddrV, error) {
	a, err := ipv4.AddressFromString(s)
	return addr4{a}, err
}
func (fam4) PfxParse(s string) (PfxV, error) {
	p, err := ipv4.PrefixFromString(s)
	return pfx4{p}, err
}
func (fam4) PfxNet(n *net.IPNet) (PfxV, error) {
	p, err := ipv4.PrefixFromNetIPNet(n)
	return pfx4{p}, err
}
func (fam4) PfxFromAddrMask(a AddrV, m MaskV) PfxV {
	return pfx4{ipv4.PrefixFromAddressMask(a.(addr4).a, m.(mask4).m)}
}
func (fam4) ArgAddr(a U) Arg     { return Arg{a4(a)} }
func (fam4) ArgPfx(p Pfx) Arg    { return Arg{p4(p)} }
func (fam4) ArgRange(v Iv) Arg   { return Arg{r4(v)} }
func (fam4) ArgSet(s SetV) Arg   { return Arg{s.(set4).s} }
func (fam4) ArgMSet(s MSetV) Arg { return Arg{s.(mset4).s} }
func (fam4) ArgFunc(f func() SetV) Arg {
	return Arg{setFunc4(func() ipv4.Set { return f().(set4).s })}
}
func (fam4) ArgOf(v any) Arg {
	switch t := v.(type) {
	case addr4:
		return Arg{t.a}
	case pfx4:
		return Arg{t.p}
	case rng4:
		return Arg{t.r}
	case set4:
		return Arg{t.s}
	case mset4:
		return Arg{t.s}
	}
	panic("bad argument")
}
func (fam4) SetOf(a Arg) SetV     { return set4{si4(a).Set()} }
func (fam4) ArgPfxSet(p Pfx) SetV { return set4{p4(p).Set()} }
func (fam4) KeyAddr(a U) Key      { return Key{a4(a)} }
func (fam4) KeyPfx(p Pfx) Key     { return Key{p4(p)} }
func (fam4) KeyFunc(f func() Pfx) Key {
	return Key{prefixFunc4(func() ipv4.Prefix { return p4(f()) })}
}
func (fam4) ZeroSet() SetV   { return set4{} }
func (fam4) ZeroMSet() MSetV { return mset4{} }
func (fam4) NewMSet() MSetV  { return mset4{ipv4.NewSet_()} }

// ---- Address

type addr4 struct{ a ipv4.Address }

func (w addr4) Raw() any        { return w.a }
func (w addr4) U() U            { return u4(w.a) }
func (w addr4) NumBits() int    { return w.a.NumBits() }
func (w addr4) Prefix() PfxV    { return pfx4{w.a.Prefix()} }
func (w addr4) Set() SetV       { return set4{w.a.Set()} }
func (w addr4) String() string  { return w.a.String() }
func (w addr4) ToNetIP() net.IP { return w.a.ToNetIP() }

// ---- Mask

type mask4 struct{ m ipv4.Mask }

func (w mask4) Raw() any                { return w.m }
func (w mask4) Length() int             { return w.m.Length() }
func (w mask4) String() string          { return w.m.String() }
func (w mask4) ToNetIPMask() net.IPMask { return w.m.ToNetIPMask() }

// ---- Prefix

type pfx4 struct{ p ipv4.Prefix }

func (w pfx4) Raw() any            { return w.p }
func (w pfx4) Pfx() Pfx            { return pm4(w.p) }
func (w pfx4) Address() AddrV      { return addr4{w.p.Address()} }
func (w pfx4) Contains(a Arg) bool { return w.p.Contains(si4(a)) }
func (w pfx4) Halves() (PfxV, PfxV) {
	a, b := w.p.Halves()
	return pfx4{a}, pfx4{b}
}
func (w pfx4) Host() PfxV                           { return pfx4{w.p.Host()} }
func (w pfx4) Length() int                          { return w.p.Length() }
func (w pfx4) Mask() MaskV                          { return mask4{w.p.Mask()} }
func (w pfx4) Network() PfxV                        { return pfx4{w.p.Network()} }
func (w pfx4) NumPrefixes(n uint32) (uint64, error) { return w.p.NumPrefixes(n) }
func (w pfx4) Prefix() PfxV                         { return pfx4{w.p.Prefix()} }
func (w pfx4) Range() RangeV                        { return rng4{w.p.Range()} }
func (w pfx4) Set() SetV                            { return set4{w.p.Set()} }
func (w pfx4) String() string                       { return w.p.String() }
func (w pfx4) ToNetIPNet() *net.IPNet               { return w.p.ToNetIPNet() }

// ---- Range

type rng4 struct{ r ipv4.Range }

func rngs4(l []ipv4.Range) (out []RangeV) {
	for _, r := range l {
		out = append(out, rng4{r})
	}
	return out
}

func (w rng4) Raw() any                             { return w.r }
func (w rng4) Iv() Iv                               { return rm4(w.r) }
func (w rng4) Contains(a Arg) bool                  { return w.r.Contains(si4(a)) }
func (w rng4) Minus(o RangeV) []RangeV              { return rngs4(w.r.Minus(o.(rng4).r)) }
func (w rng4) Plus(o RangeV) []RangeV               { return rngs4(w.r.Plus(o.(rng4).r)) }
func (w rng4) NumPrefixes(n uint32) (uint64, error) { return w.r.NumPrefixes(n) }
func (w rng4) Set() SetV                            { return set4{w.r.Set()} }
func (w rng4) String() string                       { return w.r.String() }

// ---- Set

type set4 struct{ s ipv4.Set }

func (w set4) Raw() any                             { return w.s }
func (w set4) Union(a Arg) SetV                     { return set4{w.s.Union(si4(a))} }
func (w set4) Intersection(a Arg) SetV              { return set4{w.s.Intersection(si4(a))} }
func (w set4) Difference(a Arg) SetV                { return set4{w.s.Difference(si4(a))} }
func (w set4) Contains(a Arg) bool                  { return w.s.Contains(si4(a)) }
func (w set4) Equal(o SetV) bool                    { return w.s.Equal(o.(set4).s) }
func (w set4) IsEmpty() bool                        { return w.s.IsEmpty() }
func (w set4) NumPrefixes(n uint32) (uint64, error) { return w.s.NumPrefixes(n) }
func (w set4) WalkPrefixes(f func(Pfx) bool) bool {
	return w.s.WalkPrefixes(func(p ipv4.Prefix) bool { return f(pm4(p)) })
}
func (w set4) WalkRanges(f func(Iv) bool) bool {
	return w.s.WalkRanges(func(r ipv4.Range) bool { return f(rm4(r)) })
}
func (w set4) FindAvailable(a Arg, n uint32) (Pfx, error) {
	p, err := w.s.FindAvailablePrefix(si4(a), n)
	return pm4(p), err
}
func (w set4) String() string { return w.s.String() }
func (w set4) Mut() MSetV     { return mset4{w.s.Set_()} }
func (w set4) Build(f func(MSetV) bool) SetV {
	return set4{w.s.Build(func(m ipv4.Set_) bool { return f(mset4{m}) })}
}
func (w set4) Set() SetV { return set4{w.s.Set()} }

// ---- Set_

type mset4 struct{ s ipv4.Set_ }

func (w mset4) Raw() any                { return w.s }
func (w mset4) Insert(a Arg)            { w.s.Insert(si4(a)) }
func (w mset4) Remove(a Arg)            { w.s.Remove(si4(a)) }
func (w mset4) Union(a Arg) SetV        { return set4{w.s.Union(si4(a))} }
func (w mset4) Intersection(a Arg) SetV { return set4{w.s.Intersection(si4(a))} }
func (w mset4) Difference(a Arg) SetV   { return set4{w.s.Difference(si4(a))} }
func (w mset4) Contains(a Arg) bool     { return w.s.Contains(si4(a)) }
func (w mset4) Equal(o MSetV) bool      { return w.s.Equal(o.(mset4).s) }
func (w mset4) IsEmpty() bool           { return w.s.IsEmpty() }
func (w mset4) Set() SetV               { return set4{w.s.Set()} }

// ---- Table

type tab4[T any] struct{ t ipv4.Table[T] }

func zeroTable4[T any]() TabV[T] { return tab4[T]{} }

func (w tab4[T]) Raw() any            { return w.t }
func (w tab4[T]) Get(k Key) (T, bool) { return w.t.Get(pi4(k)) }
func (w tab4[T]) LongestMatch(k Key) (T, bool, Pfx) {
	v, ok, p := w.t.LongestMatch(pi4(k))
	return v, ok, pm4(p)
}
func (w tab4[T]) NumEntries() int64 { return w.t.NumEntries() }
func (w tab4[T]) Walk(f func(Pfx, T) bool) bool {
	return w.t.Walk(func(p ipv4.Prefix, v T) bool { return f(pm4(p), v) })
}
func (w tab4[T]) Diff(o TabV[T], changed func(Pfx, T, T) bool, left, right, unchanged func(Pfx, T) bool) bool {
	one := func(f func(Pfx, T) bool) func(ipv4.Prefix, T) bool {
		if f == nil {
			return nil
		}
		return func(p ipv4.Prefix, v T) bool { return f(pm4(p), v) }
	}
	var ch func(ipv4.Prefix, T, T) bool
	if changed != nil {
		ch = func(p ipv4.Prefix, a, b T) bool { return changed(pm4(p), a, b) }
	}
	return w.t.Diff(o.(tab4[T]).t, ch, one(left), one(right), one(unchanged))
}
func (w tab4[T]) Map(f func(Pfx, T) T) TabV[T] {
	if f == nil {
		return tab4[T]{w.t.Map(nil)}
	}
	return tab4[T]{w.t.Map(func(p ipv4.Prefix, v T) T { return f(pm4(p), v) })}
}
func (w tab4[T]) Aggregate() TabV[T] { return tab4[T]{w.t.Aggregate()} }
func (w tab4[T]) Mut() MTabV[T]      { return mtab4[T]{w.t.Table_()} }
func (w tab4[T]) Build(f func(MTabV[T]) bool) TabV[T] {
	return tab4[T]{w.t.Build(func(m ipv4.Table_[T]) bool { return f(mtab4[T]{m}) })}
}

// ---- Table_

type mtab4[T any] struct{ t ipv4.Table_[T] }

func newMTable4[T comparable]() MTabV[T] { return mtab4[T]{ipv4.NewTable_[T]()} }
func newMTableCmp4[T any](cmp func(a, b T) bool) MTabV[T] {
	return mtab4[T]{ipv4.NewTableCustomCompare_[T](cmp)}
}
func zeroMTable4[T any]() MTabV[T] { return mtab4[T]{} }

func (w mtab4[T]) Get(k Key) (T, bool) { return w.t.Get(pi4(k)) }
func (w mtab4[T]) LongestMatch(k Key) (T, bool, Pfx) {
	v, ok, p := w.t.LongestMatch(pi4(k))
	return v, ok, pm4(p)
}
func (w mtab4[T]) NumEntries() int64         { return w.t.NumEntries() }
func (w mtab4[T]) Insert(k Key, v T) bool    { return w.t.Insert(pi4(k), v) }
func (w mtab4[T]) Update(k Key, v T) bool    { return w.t.Update(pi4(k), v) }
func (w mtab4[T]) InsertOrUpdate(k Key, v T) { w.t.InsertOrUpdate(pi4(k), v) }
func (w mtab4[T]) GetOrInsert(k Key, v T) T  { return w.t.GetOrInsert(pi4(k), v) }
func (w mtab4[T]) Remove(k Key) bool         { return w.t.Remove(pi4(k)) }
func (w mtab4[T]) Table() TabV[T]            { return tab4[T]{w.t.Table()} }
