package main

// Code generated by gen.sh from plain6.go. DO NOT EDIT.

import (
	"unsafe"

	"gopkg.in/addrs.v1/ipv6"
)

var sink6 struct {
	a, b  ipv6.Address
	m     ipv6.Mask
	p, q  ipv6.Prefix
	r     ipv6.Range
	n     int
	c     uint64
	ok    bool
	u, v  U
	err   error
	addrs map[ipv6.Address]int
	pfxs  map[ipv6.Prefix]int
	masks map[ipv6.Mask]int
	rngs  map[ipv6.Range]int
}

func sizes6() (addr, mask, prefix, rng uintptr) {
	return unsafe.Sizeof(ipv6.Address{}), unsafe.Sizeof(ipv6.Mask{}), unsafe.Sizeof(ipv6.Prefix{}), unsafe.Sizeof(ipv6.Range{})
}

// plain6 has everything that makes a value from others or asks one for its
// parts, and a check that the values it is called on are still the same.
func plain6(x *X, c plainCase) []plainOp {
	s := &sink6
	a, b := a6(c.A.A), a6(c.B)
	p := p6(c.A)
	m := p.Mask()
	r, empty := ipv6.RangeFromAddresses(a, b)
	if empty {
		r, _ = ipv6.RangeFromAddresses(b, a)
	}
	a0, b0, p0, m0, r0 := a, b, p, m, r
	lo, hi := r.First(), r.Last()
	s.addrs = map[ipv6.Address]int{a: 1, b: 2}
	s.pfxs = map[ipv6.Prefix]int{p: 1}
	s.masks = map[ipv6.Mask]int{m: 1}
	s.rngs = map[ipv6.Range]int{r: 1}
	n := uint32(c.A.N)
	ops := []plainOp{
		{"an Address from integers", func() { s.a = a6(c.A.A) }},
		{"an Address from parts", func() { s.a = ap6(c.A.A) }},
		{"Address to integers", func() { s.u = u6(a) }},
		{"Address.NumBits", func() { s.n = a.NumBits() }},
		{"Address.Prefix", func() { s.p = a.Prefix() }},
		{"MaskFromLength", func() { s.m, s.err = ipv6.MaskFromLength(c.A.N) }},
		{"a Mask from integers", func() { s.m, s.err = mu6(netMask(c.bits(), c.A.N)) }},
		{"a Mask from parts", func() { s.m, s.err = mp6(netMask(c.bits(), c.A.N)) }},
		{"Mask.Length", func() { s.n = m.Length() }},
		{"Mask to integers", func() { s.u = mi6(m) }},
		{"PrefixFromAddressMask", func() { s.p = ipv6.PrefixFromAddressMask(a, m) }},
		{"Prefix.Address", func() { s.a = p.Address() }},
		{"Prefix.Prefix", func() { s.p = p.Prefix() }},
		{"Prefix.Length", func() { s.n = p.Length() }},
		{"Prefix.Mask", func() { s.m = p.Mask() }},
		{"Prefix.Network", func() { s.p = p.Network() }},
		{"Prefix.Host", func() { s.p = p.Host() }},
		{"Prefix to integers", func() { s.u, s.v = pi2i6(p) }},
		{"Prefix.Range", func() { s.r = p.Range() }},
		{"Prefix.NumPrefixes", func() { s.c, s.err = p.NumPrefixes(n) }},
		{"RangeFromAddresses", func() { s.r, s.ok = ipv6.RangeFromAddresses(lo, hi) }},
		{"RangeFromAddresses, which is empty", func() { s.r, s.ok = ipv6.RangeFromAddresses(hi, lo) }},
		{"Range.First", func() { s.a = r.First() }},
		{"Range.Last", func() { s.b = r.Last() }},
		{"comparison with ==", func() { s.ok = a == b && p == s.p && m == s.m && r == s.r }},
		{"values as keys of a map", func() { s.n = s.addrs[a] + s.pfxs[p] + s.masks[m] + s.rngs[r] }},
		{"changing the value of a key of a map", func() { s.addrs[a]++; s.pfxs[p]++; s.masks[m]++; s.rngs[r]++ }},
		{"", func() {
			if a != a0 || b != b0 || p != p0 || m != m0 || r != r0 {
				x.Fail("a value changed: %v %v %v %v %v became %v %v %v %v %v", a0, b0, p0, m0, r0, a, b, p, m, r)
			}
		}},
	}
	if c.A.N < c.bits() {
		ops = append(ops, plainOp{"Prefix.Halves", func() { s.p, s.q = p.Halves() }})
	}
	return append(ops, more6(p)...)
}
