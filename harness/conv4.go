package main

import "gopkg.in/addrs.v1/ipv4"

func (fam4) Bits() int { return 32 }

func a4(a U) ipv4.Address { return ipv4.AddressFromUint32(uint32(a.L)) }
func u4(a ipv4.Address) U { return u64(uint64(a.Uint32())) }

func (fam4) MaskUint(u U) (MaskV, error) {
	m, err := ipv4.MaskFromUint32(uint32(u.L))
	return mask4{m}, err
}
func (fam4) MaskFromParts(u U) (MaskV, error) {
	m, err := ipv4.MaskFromBytes(byte(u.L>>24), byte(u.L>>16), byte(u.L>>8), byte(u.L))
	return mask4{m}, err
}
func (fam4) AddrFromParts(u U) AddrV {
	return addr4{ipv4.AddressFromBytes(byte(u.L>>24), byte(u.L>>16), byte(u.L>>8), byte(u.L))}
}
func (w mask4) U() U { return u64(uint64(w.m.Uint32())) }
func (w pfx4) Broadcast() (PfxV, bool) {
	return pfx4{w.p.Broadcast()}, true
}
func (w pfx4) NumAddresses() (int64, bool) { return w.p.NumAddresses(), true }
func (w pfx4) Uint() (addr, mask U) {
	a, m := w.p.Uint32()
	return u64(uint64(a)), u64(uint64(m))
}
func (w rng4) NumAddresses() (int64, bool)  { return w.r.NumAddresses(), true }
func (w set4) NumAddresses() (int64, bool)  { return w.s.NumAddresses(), true }
func (w mset4) NumAddresses() (int64, bool) { return w.s.NumAddresses(), true }
func (w set4) WalkAddresses(f func(U) bool) (bool, bool) {
	return w.s.WalkAddresses(func(a ipv4.Address) bool { return f(u4(a)) }), true
}
