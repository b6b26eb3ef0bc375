package main

import "gopkg.in/addrs.v1/ipv6"

func (fam6) Bits() int { return 128 }

func a6(a U) ipv6.Address { return ipv6.AddressFromUint64(a.H, a.L) }
func u6(a ipv6.Address) U {
	h, l := a.Uint64()
	return U{h, l}
}

func parts(u U) (p [8]uint16) {
	for i := range p {
		p[i] = uint16(u.shr(112 - 16*i).L)
	}
	return p
}

func (fam6) MaskUint(u U) (MaskV, error) {
	m, err := ipv6.MaskFromUint64(u.H, u.L)
	return mask6{m}, err
}
func (fam6) MaskFromParts(u U) (MaskV, error) {
	p := parts(u)
	m, err := ipv6.MaskFromUint16(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7])
	return mask6{m}, err
}
func (fam6) AddrFromParts(u U) AddrV {
	p := parts(u)
	return addr6{ipv6.AddressFromUint16(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7])}
}
func (w mask6) U() U {
	h, l := w.m.Uint64()
	return U{h, l}
}
func (w pfx6) Broadcast() (PfxV, bool)     { return nil, false }
func (w pfx6) NumAddresses() (int64, bool) { return 0, false }
func (w pfx6) Uint() (addr, mask U) {
	ah, al, mh, ml := w.p.Uint64()
	return U{ah, al}, U{mh, ml}
}
func (w rng6) NumAddresses() (int64, bool)               { return 0, false }
func (w set6) NumAddresses() (int64, bool)               { return 0, false }
func (w mset6) NumAddresses() (int64, bool)              { return 0, false }
func (w set6) WalkAddresses(f func(U) bool) (bool, bool) { return false, false }
