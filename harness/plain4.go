package main

// plain6.go is generated from this file by gen.sh

import (
	"unsafe"

	"gopkg.in/addrs.v1/ipv4"
)

var sink4 struct {
	a, b  ipv4.Address
	m     ipv4.Mask
	p, q  ipv4.Prefix
	r     ipv4.Range
	n     int
	c     uint64
	ok    bool
	u, v  U
	err   error
	addrs map[ipv4.Address]int
	pfxs  map[ipv4.Prefix]int
	masks map[ipv4.Mask]int
	rngs  map[ipv4.Range]int
}

func sizes4() (addr, mask, prefix, rng uintptr) {
	return unsafe.Sizeof(ipv4.Address{}), unsafe.Sizeof(ipv4.Mask{}), unsafe.Sizeof(ipv4.Prefix{}), unsafe.Sizeof(ipv4.Range{})
}

// plain4 has everything that makes a value from others or asks one for its
// parts, and a check that the values it is called on are still the same.
func plain4(x *X, c plainCase) []plainOp {
	s := &sink4
	a, b := a4(c.A.A), a4(c.B)
	p := p4(c.A)
	m := p.Mask()
	r, empty := ipv4.RangeFromAddresses(a, b)
	if empty {
		r, _ = ipv4.RangeFromAddresses(b, a)
	}
	a0, b0, p0, m0, r0 := a, b, p, m, r
	lo, hi := r.First(), r.Last()
	s.addrs = map[ipv4.Address]int{a: 1, b: 2}
	s.pfxs = map[ipv4.Prefix]int{p: 1}
	s.masks = map[ipv4.Mask]int{m: 1}
	s.rngs = map[ipv4.Range]int{r: 1}
	n := uint32(c.A.N)
	ops := []plainOp{
		{"an Address from integers", func() { s.a = a4(c.A.A) }},
		{"an Address from parts", func() { s.a = ap4(c.A.A) }},
		{"Address to integers", func() { s.u = u4(a) }},
		{"Address.NumBits", func() { s.n = a.NumBits() }},
		{"Address.Prefix", func() { s.p = a.Prefix() }},
		{"MaskFromLength", func() { s.m, s.err = ipv4.MaskFromLength(c.A.N) }},
		{"a Mask from integers", func() { s.m, s.err = mu4(netMask(c.bits(), c.A.N)) }},
		{"a Mask from parts", func() { s.m, s.err = mp4(netMask(c.bits(), c.A.N)) }},
		{"Mask.Length", func() { s.n = m.Length() }},
		{"Mask to integers", func() { s.u = mi4(m) }},
		{"PrefixFromAddressMask", func() { s.p = ipv4.PrefixFromAddressMask(a, m) }},
		{"Prefix.Address", func() { s.a = p.Address() }},
		{"Prefix.Prefix", func() { s.p = p.Prefix() }},
		{"Prefix.Length", func() { s.n = p.Length() }},
		{"Prefix.Mask", func() { s.m = p.Mask() }},
		{"Prefix.Network", func() { s.p = p.Network() }},
		{"Prefix.Host", func() { s.p = p.Host() }},
		{"Prefix to integers", func() { s.u, s.v = pi2i4(p) }},
		{"Prefix.Range", func() { s.r = p.Range() }},
		{"Prefix.NumPrefixes", func() { s.c, s.err = p.NumPrefixes(n) }},
		{"RangeFromAddresses", func() { s.r, s.ok = ipv4.RangeFromAddresses(lo, hi) }},
		{"RangeFromAddresses, which is empty", func() { s.r, s.ok = ipv4.RangeFromAddresses(hi, lo) }},
		{"Range.First", func() { s.a = r.First() }},
		{"Range.Last", func() { s.b = r.Last() }},
		{"comparison with ==", func() { s.ok = a == b && p == s.p && m == s.m && r == s.r }},
		{"values as keys of a map", func() { s.n = s.addrs[a] + s.pfxs[p] + s.masks[m] + s.rngs[r] }},
		{"changing the value of a key of a map", func() { s.addrs[a]++; s.pfxs[p]++; s.masks[m]++; s.rngs[r]++ }},
		{"", func() {
			if a != a0 || b != b0 || p != p0 || m != m0 || r != r0 {
				x.Fail("a value changed: %v %v %v %v %v became %v %v %v %v %v", a0, b0, p0, m0, r0, a, b, p, m, r)
			}
		}},
	}
	if c.A.N < c.bits() {
		ops = append(ops, plainOp{"Prefix.Halves", func() { s.p, s.q = p.Halves() }})
	}
	return append(ops, more4(p)...)
}
