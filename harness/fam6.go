package main

// Code generated by gen.sh from fam6.go. DO NOT EDIT.

import (
	"net"

	"gopkg.in/addrs.v1/ipv6"
)

type fam6 struct{}

func p6(p Pfx) ipv6.Prefix {
	m, err := ipv6.MaskFromLength(p.N)
	if err != nil {
		panic(checkFailed{"MaskFromLength: " + err.Error()})
	}
	return ipv6.PrefixFromAddressMask(a6(p.A), m)
}
func pm6(p ipv6.Prefix) Pfx { return Pfx{u6(p.Address()), p.Length()} }
func r6(v Iv) ipv6.Range {
	r, empty := ipv6.RangeFromAddresses(a6(v.Lo), a6(v.Hi))
	if empty {
		panic(checkFailed{"RangeFromAddresses(" + v.String() + ") is empty"})
	}
	return r
}
func rm6(r ipv6.Range) Iv { return Iv{u6(r.First()), u6(r.Last())} }
func si6(a Arg) ipv6.SetI {
	if a.v == nil {
		return nil
	}
	return a.v.(ipv6.SetI)
}
func pi6(k Key) ipv6.PrefixI {
	if k.v == nil {
		return nil
	}
	return k.v.(ipv6.PrefixI)
}

type setFunc6 func() ipv6.Set

func (f setFunc6) Set() ipv6.Set { return f() }

type prefixFunc6 func() ipv6.Prefix

func (f prefixFunc6) Prefix() ipv6.Prefix { return f() }

func (fam6) Name() string   { return "v6" }
func (fam6) Addr(a U) AddrV { return addr6{a6(a)} }
func (fam6) Pfx(p Pfx) PfxV { return pfx6{p6(p)} }
func (fam6) Range(v Iv) RangeV {
	return rng6{r6(v)}
}
func (fam6) Mask(length int) (MaskV, error) {
	m, err := ipv6.MaskFromLength(length)
	return mask6{m}, err
}
func (fam6) MaskNet(n net.IPMask) (MaskV, error) {
	m, err := ipv6.MaskFromNetIPMask(n)
	return mask6{m}, err
}
func (fam6) ZeroAddr() AddrV   { return addr6{} }
func (fam6) ZeroPfx() PfxV     { return pfx6{} }
func (fam6) ZeroRange() RangeV { return rng6{} }
func (fam6) ZeroMask() MaskV   { return mask6{} }
func (fam6) RangeFromAddresses(first, last U) (RangeV, bool) {
	r, empty := ipv6.RangeFromAddresses(a6(first), a6(last))
	return rng6{r}, empty
}
func (fam6) AddrNet(ip net.IP) (AddrV, error) {
	a, err := ipv6.AddressFromNetIP(ip)
	return addr6{a}, err
}
func (fam6) AddrSlice(b []byte) (AddrV, error) {
	a, err := ipv6.AddressFromSlice(b)
	return addr6{a}, err
}
func (fam6) AddrParse(s string) (AddrV, error) {
	a, err := ipv6.AddressFromString(s)
	return addr6{a}, err
}
func (fam6) PfxParse(s string) (PfxV, error) {
	p, err := ipv6.PrefixFromString(s)
	return pfx6{p}, err
}
func (fam6) PfxNet(n *net.IPNet) (PfxV, error) {
	p, err := ipv6.PrefixFromNetIPNet(n)
	return pfx6{p}, err
}
func (fam6) PfxFromAddrMask(a AddrV, m MaskV) PfxV {
	return pfx6{ipv6.PrefixFromAddressMask(a.(addr6).a, m.(mask6).m)}
}
func (fam6) ArgAddr(a U) Arg     { return Arg{a6(a)} }
func (fam6) ArgPfx(p Pfx) Arg    { return Arg{p6(p)} }
func (fam6) ArgRange(v Iv) Arg   { return Arg{r6(v)} }
func (fam6) ArgSet(s SetV) Arg   { return Arg{s.(set6).s} }
func (fam6) ArgMSet(s MSetV) Arg { return Arg{s.(mset6).s} }
func (fam6) ArgFunc(f func() SetV) Arg {
	return Arg{setFunc6(func() ipv6.Set { return f().(set6).s })}
}
func (fam6) ArgOf(v any) Arg {
	switch t := v.(type) {
	case addr6:
		return Arg{t.a}
	case pfx6:
		return Arg{t.p}
	case rng6:
		return Arg{t.r}
	case set6:
		return Arg{t.s}
	case mset6:
		return Arg{t.s}
	}
	panic("bad argument")
}
func (fam6) SetOf(a Arg) SetV     { return set6{si6(a).Set()} }
func (fam6) ArgPfxSet(p Pfx) SetV { return set6{p6(p).Set()} }
func (fam6) KeyAddr(a U) Key      { return Key{a6(a)} }
func (fam6) KeyPfx(p Pfx) Key     { return Key{p6(p)} }
func (fam6) KeyFunc(f func() Pfx) Key {
	return Key{prefixFunc6(func() ipv6.Prefix { return p6(f()) })}
}
func (fam6) ZeroSet() SetV   { return set6{} }
func (fam6) ZeroMSet() MSetV { return mset6{} }
func (fam6) NewMSet() MSetV  { return mset6{ipv6.NewSet_()} }

// ---- Address

type addr6 struct{ a ipv6.Address }

func (w addr6) Raw() any        { return w.a }
func (w addr6) U() U            { return u6(w.a) }
func (w addr6) NumBits() int    { return w.a.NumBits() }
func (w addr6) Prefix() PfxV    { return pfx6{w.a.Prefix()} }
func (w addr6) Set() SetV       { return set6{w.a.Set()} }
func (w addr6) String() string  { return w.a.String() }
func (w addr6) ToNetIP() net.IP { return w.a.ToNetIP() }

// ---- Mask

type mask6 struct{ m ipv6.Mask }

func (w mask6) Raw() any                { return w.m }
func (w mask6) Length() int             { return w.m.Length() }
func (w mask6) String() string          { return w.m.String() }
func (w mask6) ToNetIPMask() net.IPMask { return w.m.ToNetIPMask() }

// ---- Prefix

type pfx6 struct{ p ipv6.Prefix }

func (w pfx6) Raw() any            { return w.p }
func (w pfx6) Pfx() Pfx            { return pm6(w.p) }
func (w pfx6) Address() AddrV      { return addr6{w.p.Address()} }
func (w pfx6) Contains(a Arg) bool { return w.p.Contains(si6(a)) }
func (w pfx6) Halves() (PfxV, PfxV) {
	a, b := w.p.Halves()
	return pfx6{a}, pfx6{b}
}
func (w pfx6) Host() PfxV                           { return pfx6{w.p.Host()} }
func (w pfx6) Length() int                          { return w.p.Length() }
func (w pfx6) Mask() MaskV                          { return mask6{w.p.Mask()} }
func (w pfx6) Network() PfxV                        { return pfx6{w.p.Network()} }
func (w pfx6) NumPrefixes(n uint32) (uint64, error) { return w.p.NumPrefixes(n) }
func (w pfx6) Prefix() PfxV                         { return pfx6{w.p.Prefix()} }
func (w pfx6) Range() RangeV                        { return rng6{w.p.Range()} }
func (w pfx6) Set() SetV                            { return set6{w.p.Set()} }
func (w pfx6) String() string                       { return w.p.String() }
func (w pfx6) ToNetIPNet() *net.IPNet               { return w.p.ToNetIPNet() }

// ---- Range

type rng6 struct{ r ipv6.Range }

func rngs6(l []ipv6.Range) (out []RangeV) {
	for _, r := range l {
		out = append(out, rng6{r})
	}
	return out
}

func (w rng6) Raw() any                             { return w.r }
func (w rng6) Iv() Iv                               { return rm6(w.r) }
func (w rng6) Contains(a Arg) bool                  { return w.r.Contains(si6(a)) }
func (w rng6) Minus(o RangeV) []RangeV              { return rngs6(w.r.Minus(o.(rng6).r)) }
func (w rng6) Plus(o RangeV) []RangeV               { return rngs6(w.r.Plus(o.(rng6).r)) }
func (w rng6) NumPrefixes(n uint32) (uint64, error) { return w.r.NumPrefixes(n) }
func (w rng6) Set() SetV                            { return set6{w.r.Set()} }
func (w rng6) String() string                       { return w.r.String() }

// ---- Set

type set6 struct{ s ipv6.Set }

func (w set6) Raw() any                             { return w.s }
func (w set6) Union(a Arg) SetV                     { return set6{w.s.Union(si6(a))} }
func (w set6) Intersection(a Arg) SetV              { return set6{w.s.Intersection(si6(a))} }
func (w set6) Difference(a Arg) SetV                { return set6{w.s.Difference(si6(a))} }
func (w set6) Contains(a Arg) bool                  { return w.s.Contains(si6(a)) }
func (w set6) Equal(o SetV) bool                    { return w.s.Equal(o.(set6).s) }
func (w set6) IsEmpty() bool                        { return w.s.IsEmpty() }
func (w set6) NumPrefixes(n uint32) (uint64, error) { return w.s.NumPrefixes(n) }
func (w set6) WalkPrefixes(f func(Pfx) bool) bool {
	return w.s.WalkPrefixes(func(p ipv6.Prefix) bool { return f(pm6(p)) })
}
func (w set6) WalkRanges(f func(Iv) bool) bool {
	return w.s.WalkRanges(func(r ipv6.Range) bool { return f(rm6(r)) })
}
func (w set6) FindAvailable(a Arg, n uint32) (Pfx, error) {
	p, err := w.s.FindAvailablePrefix(si6(a), n)
	return pm6(p), err
}
func (w set6) String() string { return w.s.String() }
func (w set6) Mut() MSetV     { return mset6{w.s.Set_()} }
func (w set6) Build(f func(MSetV) bool) SetV {
	return set6{w.s.Build(func(m ipv6.Set_) bool { return f(mset6{m}) })}
}
func (w set6) Set() SetV { return set6{w.s.Set()} }

// ---- Set_

type mset6 struct{ s ipv6.Set_ }

func (w mset6) Raw() any                { return w.s }
func (w mset6) Insert(a Arg)            { w.s.Insert(si6(a)) }
func (w mset6) Remove(a Arg)            { w.s.Remove(si6(a)) }
func (w mset6) Union(a Arg) SetV        { return set6{w.s.Union(si6(a))} }
func (w mset6) Intersection(a Arg) SetV { return set6{w.s.Intersection(si6(a))} }
func (w mset6) Difference(a Arg) SetV   { return set6{w.s.Difference(si6(a))} }
func (w mset6) Contains(a Arg) bool     { return w.s.Contains(si6(a)) }
func (w mset6) Equal(o MSetV) bool      { return w.s.Equal(o.(mset6).s) }
func (w mset6) IsEmpty() bool           { return w.s.IsEmpty() }
func (w mset6) Set() SetV               { return set6{w.s.Set()} }

// ---- Table

type tab6[T any] struct{ t ipv6.Table[T] }

func zeroTable6[T any]() TabV[T] { return tab6[T]{} }

func (w tab6[T]) Raw() any            { return w.t }
func (w tab6[T]) Get(k Key) (T, bool) { return w.t.Get(pi6(k)) }
func (w tab6[T]) LongestMatch(k Key) (T, bool, Pfx) {
	v, ok, p := w.t.LongestMatch(pi6(k))
	return v, ok, pm6(p)
}
func (w tab6[T]) NumEntries() int64 { return w.t.NumEntries() }
func (w tab6[T]) Walk(f func(Pfx, T) bool) bool {
	return w.t.Walk(func(p ipv6.Prefix, v T) bool { return f(pm6(p), v) })
}
func (w tab6[T]) Diff(o TabV[T], changed func(Pfx, T, T) bool, left, right, unchanged func(Pfx, T) bool) bool {
	one := func(f func(Pfx, T) bool) func(ipv6.Prefix, T) bool {
		if f == nil {
			return nil
		}
		return func(p ipv6.Prefix, v T) bool { return f(pm6(p), v) }
	}
	var ch func(ipv6.Prefix, T, T) bool
	if changed != nil {
		ch = func(p ipv6.Prefix, a, b T) bool { return changed(pm6(p), a, b) }
	}
	return w.t.Diff(o.(tab6[T]).t, ch, one(left), one(right), one(unchanged))
}
func (w tab6[T]) Map(f func(Pfx, T) T) TabV[T] {
	if f == nil {
		return tab6[T]{w.t.Map(nil)}
	}
	return tab6[T]{w.t.Map(func(p ipv6.Prefix, v T) T { return f(pm6(p), v) })}
}
func (w tab6[T]) Aggregate() TabV[T] { return tab6[T]{w.t.Aggregate()} }
func (w tab6[T]) Mut() MTabV[T]      { return mtab6[T]{w.t.Table_()} }
func (w tab6[T]) Build(f func(MTabV[T]) bool) TabV[T] {
	return tab6[T]{w.t.Build(func(m ipv6.Table_[T]) bool { return f(mtab6[T]{m}) })}
}

// ---- Table_

type mtab6[T any] struct{ t ipv6.Table_[T] }

func newMTable6[T comparable]() MTabV[T] { return mtab6[T]{ipv6.NewTable_[T]()} }
func newMTableCmp6[T any](cmp func(a, b T) bool) MTabV[T] {
	return mtab6[T]{ipv6.NewTableCustomCompare_[T](cmp)}
}
func zeroMTable6[T any]() MTabV[T] { return mtab6[T]{} }

func (w mtab6[T]) Get(k Key) (T, bool) { return w.t.Get(pi6(k)) }
func (w mtab6[T]) LongestMatch(k Key) (T, bool, Pfx) {
	v, ok, p := w.t.LongestMatch(pi6(k))
	return v, ok, pm6(p)
}
func (w mtab6[T]) NumEntries() int64         { return w.t.NumEntries() }
func (w mtab6[T]) Insert(k Key, v T) bool    { return w.t.Insert(pi6(k), v) }
func (w mtab6[T]) Update(k Key, v T) bool    { return w.t.Update(pi6(k), v) }
func (w mtab6[T]) InsertOrUpdate(k Key, v T) { w.t.InsertOrUpdate(pi6(k), v) }
func (w mtab6[T]) GetOrInsert(k Key, v T) T  { return w.t.GetOrInsert(pi6(k), v) }
func (w mtab6[T]) Remove(k Key) bool         { return w.t.Remove(pi6(k)) }
func (w mtab6[T]) Table() TabV[T]            { return tab6[T]{w.t.Table()} }
