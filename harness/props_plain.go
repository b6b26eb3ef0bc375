package main

import (
	"runtime"

	"gopkg.in/addrs.v1/ipv4"
	"gopkg.in/addrs.v1/ipv6"

	"pgregory.net/rapid"
)

// ---- C34: plain values

type plainCase struct {
	F string
	A Pfx
	B U
}

type plainOp struct {
	what string
	f    func()
}

func ap4(u U) ipv4.Address {
	return ipv4.AddressFromBytes(byte(u.L>>24), byte(u.L>>16), byte(u.L>>8), byte(u.L))
}
func mu4(u U) (ipv4.Mask, error) { return ipv4.MaskFromUint32(uint32(u.L)) }
func mp4(u U) (ipv4.Mask, error) {
	return ipv4.MaskFromBytes(byte(u.L>>24), byte(u.L>>16), byte(u.L>>8), byte(u.L))
}
func mi4(m ipv4.Mask) U { return U{0, uint64(m.Uint32())} }
func pi2i4(p ipv4.Prefix) (U, U) {
	a, m := p.Uint32()
	return U{0, uint64(a)}, U{0, uint64(m)}
}
func more4(p ipv4.Prefix) []plainOp {
	return []plainOp{
		{"Prefix.Broadcast", func() { sink4.p = p.Broadcast() }},
		{"Prefix.NumAddresses", func() { sink4.c = uint64(p.NumAddresses()) }},
	}
}

func ap6(u U) ipv6.Address {
	p := parts(u)
	return ipv6.AddressFromUint16(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7])
}
func mu6(u U) (ipv6.Mask, error) { return ipv6.MaskFromUint64(u.H, u.L) }
func mp6(u U) (ipv6.Mask, error) {
	p := parts(u)
	return ipv6.MaskFromUint16(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7])
}
func mi6(m ipv6.Mask) U {
	h, l := m.Uint64()
	return U{h, l}
}
func pi2i6(p ipv6.Prefix) (U, U) {
	ah, al, mh, ml := p.Uint64()
	return U{ah, al}, U{mh, ml}
}
func more6(p ipv6.Prefix) []plainOp { return nil }

func netMask(bits, n int) U { return ones(bits).xor(ones(bits - n)) }

func (c plainCase) bits() int { return fams[c.F].Bits() }

func genC34(t *rapid.T) plainCase {
	c := plainCase{F: genFam(t)}
	c.A = genPfx(t, c.F)
	c.B = genU(t, c.F)
	return c
}

// mallocs is how many objects f allocates if nothing else does meanwhile
func mallocs(enough uint64, f func()) uint64 {
	var a, b runtime.MemStats
	best := ^uint64(0)
	for i := 0; i < 6; i++ {
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		if d := b.Mallocs - a.Mallocs; d < best {
			best = d
		}
		if best < enough {
			break
		}
	}
	return best
}

func runC34(x *X, c plainCase) {
	bits := fams[c.F].Bits()
	var addr, mask, prefix, rng uintptr
	var ops []plainOp
	if bits == 32 {
		addr, mask, prefix, rng = sizes4()
		ops = plain4(x, c)
	} else {
		addr, mask, prefix, rng = sizes6()
		ops = plain6(x, c)
	}
	size := uintptr(bits / 8)
	x.want(addr == size, "an Address has %d bytes", addr)
	x.want(mask == size, "a Mask has %d bytes", mask)
	x.want(prefix <= size+8, "a Prefix has %d bytes", prefix)
	x.want(rng <= 2*size, "a Range has %d bytes", rng)
	const rep = 20
	if mallocs(rep, func() {
		for i := 0; i < rep; i++ {
			for j := range ops {
				ops[j].f()
			}
		}
	}) >= rep {
		for _, op := range ops {
			if n := mallocs(rep, func() {
				for i := 0; i < rep; i++ {
					op.f()
				}
			}); n >= rep {
				x.Fail("%s allocates memory for %v and %v: %d objects in %d calls", op.what, c.A, c.B, n, rep)
			}
		}
	}
	x.LabelIf(c.A.N == bits, "full length")
	x.NonTrivial(c.A.A != U{} && c.A.N > 0)
}
