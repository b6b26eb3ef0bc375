package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

// U is the model's own 128 bit unsigned integer. IPv4 addresses are the values
// below 1<<32. It is independent from the arithmetic in the code under test.
type U struct{ H, L uint64 }

func u64(x uint64) U { return U{0, x} }

func (a U) cmp(b U) int {
	switch {
	case a.H < b.H:
		return -1
	case a.H > b.H:
		return 1
	case a.L < b.L:
		return -1
	case a.L > b.L:
		return 1
	}
	return 0
}
func (a U) lt(b U) bool { return a.cmp(b) < 0 }
func (a U) le(b U) bool { return a.cmp(b) <= 0 }
func (a U) and(b U) U   { return U{a.H & b.H, a.L & b.L} }
func (a U) or(b U) U    { return U{a.H | b.H, a.L | b.L} }
func (a U) xor(b U) U   { return U{a.H ^ b.H, a.L ^ b.L} }
func (a U) not() U      { return U{^a.H, ^a.L} }
func (a U) add(b U) U {
	l, c := bits.Add64(a.L, b.L, 0)
	h, _ := bits.Add64(a.H, b.H, c)
	return U{h, l}
}
func (a U) sub(b U) U {
	l, c := bits.Sub64(a.L, b.L, 0)
	h, _ := bits.Sub64(a.H, b.H, c)
	return U{h, l}
}
func (a U) inc() U { return a.add(u64(1)) }
func (a U) dec() U { return a.sub(u64(1)) }
func (a U) shl(n int) U {
	switch {
	case n >= 128:
		return U{}
	case n >= 64:
		return U{a.L << uint(n-64), 0}
	case n == 0:
		return a
	}
	return U{a.H<<uint(n) | a.L>>uint(64-n), a.L << uint(n)}
}
func (a U) shr(n int) U {
	switch {
	case n >= 128:
		return U{}
	case n >= 64:
		return U{0, a.H >> uint(n-64)}
	case n == 0:
		return a
	}
	return U{a.H >> uint(n), a.L>>uint(n) | a.H<<uint(64-n)}
}
func (a U) big() *big.Int {
	x := new(big.Int).SetUint64(a.H)
	x.Lsh(x, 64)
	return x.Or(x, new(big.Int).SetUint64(a.L))
}

func (a U) String() string {
	if a.H == 0 {
		return fmt.Sprintf("0x%x", a.L)
	}
	return fmt.Sprintf("0x%x%016x", a.H, a.L)
}
func (a U) MarshalText() ([]byte, error) { return []byte(a.String()), nil }
func (a *U) UnmarshalText(b []byte) error {
	s := strings.TrimPrefix(string(b), "0x")
	x, ok := new(big.Int).SetString(s, 16)
	if !ok || x.BitLen() > 128 || x.Sign() < 0 {
		return fmt.Errorf("bad address %q", b)
	}
	a.L = new(big.Int).And(x, new(big.Int).SetUint64(^uint64(0))).Uint64()
	a.H = new(big.Int).Rsh(x, 64).Uint64()
	return nil
}

// ones returns a value with the n low order bits set
func ones(n int) U {
	if n >= 128 {
		return U{^uint64(0), ^uint64(0)}
	}
	return u64(1).shl(n).dec()
}

// Pfx is the model of a prefix, including any host bits.
type Pfx struct {
	A U
	N int
}

func (p Pfx) String() string { return fmt.Sprintf("%s/%d", p.A, p.N) }
func (p Pfx) MarshalText() ([]byte, error) {
	return []byte(p.String()), nil
}
func (p *Pfx) UnmarshalText(b []byte) error {
	a, n, ok := strings.Cut(string(b), "/")
	if !ok {
		return fmt.Errorf("bad prefix %q", b)
	}
	if err := p.A.UnmarshalText([]byte(a)); err != nil {
		return err
	}
	_, err := fmt.Sscanf(n, "%d", &p.N)
	return err
}

// hostMask returns the host bits of a prefix of length n in an address of the
// given number of bits.
func hostMask(bits, n int) U { return ones(bits - n) }

// net returns the prefix with host bits cleared
func (p Pfx) net(bits int) Pfx { return Pfx{p.A.and(hostMask(bits, p.N).not()), p.N} }
func (p Pfx) first(bits int) U { return p.A.and(hostMask(bits, p.N).not()) }
func (p Pfx) last(bits int) U  { return p.A.or(hostMask(bits, p.N)) }
func (p Pfx) iv(bits int) Iv   { return Iv{p.first(bits), p.last(bits)} }
func (p Pfx) less(q Pfx) bool  { c := p.A.cmp(q.A); return c < 0 || c == 0 && p.N < q.N }
func (p Pfx) contains(bits int, q Pfx) bool {
	return p.N <= q.N && p.first(bits).le(q.first(bits)) && q.last(bits).le(p.last(bits))
}

// Iv is a closed interval of addresses.
type Iv struct{ Lo, Hi U }

func (v Iv) String() string { return fmt.Sprintf("[%s,%s]", v.Lo, v.Hi) }

func fmtInt(i int) string { return fmt.Sprint(i) }
