package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// ri draws an integer in [lo,hi]
func ri(t *rapid.T, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "i") }

// chance is true about n times out of 16
func chance(t *rapid.T, n int) bool {
	return rapid.Uint64().Draw(t, "c")*0x9e3779b97f4a7c15>>60 < uint64(n)
}

func oneOf[T any](t *rapid.T, l ...T) T { return l[ri(t, 0, len(l)-1)] }

// slice draws a list with a geometric length above one of several minimums.
func slice[T any](t *rapid.T, mins []int, gen func(t *rapid.T) T) []T {
	min := oneOf(t, mins...)
	return rapid.SliceOfN(rapid.Custom(gen), min, -1).Draw(t, "list")
}

// Space is a small window of the address space in which cases collide often. It
// is moved to any place of the address space and scaled up by a power of two.
type Space struct {
	F    string
	Base U
	Off  int  // position of the lowest bit of the window
	W    int  // bits in the window
	Fine bool `json:"-"` // draw mostly small pieces
}

func (s Space) fam() Fam  { return fams[s.F] }
func (s Space) bits() int { return fams[s.F].Bits() }
func (s Space) max() U    { return ones(s.bits()) }

// at returns the ith unit of the window
func (s Space) at(i int) U { return s.Base.or(u64(uint64(i)).shl(s.Off)) }

func (s Space) String() string { return fmt.Sprintf("%s %s+%d bits at %d", s.F, s.Base, s.W, s.Off) }

func rand128(t *rapid.T) U {
	a := rapid.Uint64().Draw(t, "h")
	b := rapid.Uint64().Draw(t, "l")
	switch ri(t, 0, 3) {
	case 0:
		return U{a, b}
	case 1:
		return U{splitmix(a), splitmix(b)}
	case 2:
		return U{splitmix(a), b}
	default: // long runs of the same bit
		return ones(128).shl(int(a % 129)).xor(ones(128).shl(int(b % 129)))
	}
}

// known are blocks with a meaning in their family, which some code may treat
// in a way of its own
var known = map[string][]Pfx{
	"v4": {
		{U{0, 10 << 24}, 8}, {U{0, 127 << 24}, 8}, {U{0, 127<<24 | 1}, 32}, {U{0, 0xa9fe0000}, 16},
		{U{0, 0xac100000}, 12}, {U{0, 0xc0a80000}, 16}, {U{0, 0x64400000}, 10}, {U{0, 0xc0000200}, 24},
		{U{0, 0xe0000000}, 4}, {U{0, 0xf0000000}, 4}, {U{}, 8}, {U{0, 0xc0586300}, 24},
	},
	"v6": {
		{U{0, 0xffff << 32}, 96}, {U{}, 96}, {U{0, 1}, 128}, {U{0x64ff9b << 32, 0}, 96},
		{U{0xfe80 << 48, 0}, 10}, {U{0xfc00 << 48, 0}, 7}, {U{0xff00 << 48, 0}, 8}, {U{0xff02 << 48, 0}, 16},
		{U{0x20010db8 << 32, 0}, 32}, {U{0x2002 << 48, 0}, 16}, {U{0x2000 << 48, 0}, 3}, {U{0, 0xffff0000 << 16}, 96},
		{U{0x20010000 << 32, 0}, 32}, {U{0x0100 << 48, 0}, 64},
	},
}

// inKnown draws an address in one of these
func inKnown(t *rapid.T, fam string) U {
	bits := fams[fam].Bits()
	p := oneOf(t, known[fam]...)
	h := ones(bits - p.N)
	switch ri(t, 0, 4) {
	case 0:
		return p.A
	case 1:
		return p.A.or(h)
	case 2:
		return p.A.or(u64(1).and(h))
	case 3:
		return p.A.or(u64(rapid.Uint64().Draw(t, "l")).and(h))
	}
	return p.A.or(rand128(t).and(h))
}

func genFam(t *rapid.T) string { return oneOf(t, "v4", "v6") }

func genSpace(t *rapid.T, maxW int) Space { return genSpaceFam(t, genFam(t), maxW) }

func genSpaceFam(t *rapid.T, fam string, maxW int) Space {
	s := Space{F: fam, W: ri(t, 1, maxW), Fine: chance(t, 9)}
	if chance(t, 8) && maxW >= 3 {
		s.W = ri(t, 3, maxW)
	} else if chance(t, 8) {
		s.W = maxW - ri(t, 0, 1)
	}
	if s.W < 1 {
		s.W = 1
	}
	bits := s.bits()
	switch ri(t, 0, 4) {
	case 0:
		s.Off = 0
	case 1:
		s.Off = bits - s.W
	case 2: // crosses a byte or word boundary
		mid := 64
		if bits == 32 {
			mid = oneOf(t, 8, 16, 24)
		} else if chance(t, 3) {
			mid = oneOf(t, 32, 96, 48, 120)
		}
		s.Off = mid - ri(t, 0, s.W)
	default:
		s.Off = ri(t, 0, bits-s.W)
	}
	var b U
	switch ri(t, 0, 4) {
	case 0:
	case 1:
		b = ones(128)
	case 2:
		b = inKnown(t, fam)
		if p := oneOf(t, known[fam]...); chance(t, 6) && p.N > 0 { // around the whole block
			b = p.A
			s.Off = min(bits-s.W, max(0, bits-p.N-ri(t, 0, s.W)))
		}
	default:
		b = rand128(t)
	}
	s.Base = b.and(ones(bits)).and(ones(s.Off + s.W).not())
	return s
}

// low draws host bits below the window
func (s Space) low(t *rapid.T) U {
	if s.Off == 0 {
		return U{}
	}
	switch ri(t, 0, 7) {
	case 0, 1, 2:
		return ones(s.Off)
	case 3:
		return u64(1)
	case 4:
		return rand128(t).and(ones(s.Off))
	case 5:
		return ones(s.Off).dec()
	}
	return U{}
}

func (s Space) unit(t *rapid.T) U { return s.at(ri(t, 0, 1<<s.W-1)) }

func (s Space) addr(t *rapid.T) U {
	if chance(t, 1) {
		return s.wild(t)
	}
	return s.unit(t).or(s.low(t))
}

// wild is an address anywhere
func (s Space) wild(t *rapid.T) U {
	switch ri(t, 0, 4) {
	case 0:
		return U{}
	case 1:
		return s.max()
	case 2:
		return inKnown(t, s.F)
	case 3: // next to the window
		e := s.Base.or(ones(s.Off + s.W))
		if chance(t, 8) {
			return e.inc().and(s.max())
		}
		return s.Base.dec().and(s.max())
	}
	return rand128(t).and(s.max())
}

func (s Space) length(t *rapid.T) int {
	bits := s.bits()
	top := bits - s.Off
	if s.Fine && chance(t, 15) {
		return top - ri(t, 0, min(2, s.W))
	}
	switch {
	case !chance(t, 3):
		return ri(t, top-s.W, top)
	case !chance(t, 8):
		l := []int{0, 1, bits - 1, bits, bits / 2, bits/2 - 1, bits/2 + 1, 31, 32, 33 % (bits + 1)}
		n := oneOf(t, l...)
		if n > bits {
			n = bits
		}
		return n
	}
	return ri(t, 0, bits)
}

// pfx draws a prefix, sometimes with host bits set
func (s Space) pfx(t *rapid.T) Pfx {
	p := Pfx{s.addr(t), s.length(t)}
	if !chance(t, 5) {
		p = p.net(s.bits())
	}
	return p
}

func (s Space) iv(t *rapid.T) Iv {
	a, b := s.unit(t), s.unit(t).or(ones(s.Off))
	if s.Fine && chance(t, 15) {
		i := ri(t, 0, 1<<s.W-1)
		a, b = s.at(i), s.at(min(i+ri(t, 0, 2), 1<<s.W-1)).or(ones(s.Off))
	}
	n := 3
	if s.Fine {
		n = 1
	}
	if chance(t, n) {
		a = s.addr(t)
	}
	if chance(t, n) {
		b = s.addr(t)
	}
	if b.lt(a) {
		a, b = b, a
	}
	return Iv{a, b}
}

// ---- keys

// KeySpec says how a prefix is passed as a PrefixI
type KeySpec struct {
	K string // pfx, addr, nil, func
	P Pfx
}

func (s Space) key(t *rapid.T) KeySpec {
	k := KeySpec{K: "pfx", P: s.pfx(t)}
	switch ri(t, 0, 19) {
	case 1:
		k.K = "func"
	case 2, 3:
		k.K, k.P.N = "addr", s.bits()
	case 4:
		if chance(t, 6) {
			k.K, k.P = "nil", Pfx{}
		}
	}
	return k
}

func (k KeySpec) make(f Fam) Key {
	switch k.K {
	case "addr":
		return f.KeyAddr(k.P.A)
	case "nil":
		return Key{}
	case "func":
		return f.KeyFunc(func() Pfx { return k.P })
	}
	return f.KeyPfx(k.P)
}

// ---- sets

// ArgSpec says how a set of addresses is passed as a SetI
type ArgSpec struct {
	K string // nil, addr, pfx, range, set, mset, func, zset, zmset
	A U      `json:",omitempty"`
	P Pfx    `json:",omitempty"`
	R Iv     `json:",omitempty"`
	L []Iv   `json:",omitempty"` // the contents of set, mset and func
}

func (s Space) arg(t *rapid.T) ArgSpec {
	switch ri(t, 0, 11) {
	case 0, 1, 2:
		return ArgSpec{K: "pfx", P: s.pfx(t)}
	case 3, 4:
		return ArgSpec{K: "range", R: s.iv(t)}
	case 5:
		return ArgSpec{K: "addr", A: s.addr(t)}
	case 6:
		return ArgSpec{K: oneOf(t, "nil", "zset", "zmset")}
	case 7:
		return ArgSpec{K: "func", L: s.ivs(t)}
	case 8, 9:
		return ArgSpec{K: "mset", L: s.ivs(t)}
	}
	return ArgSpec{K: "set", L: s.ivs(t)}
}

func (s Space) ivs(t *rapid.T) []Iv {
	return slice(t, []int{0, 0, 2, 5}, func(t *rapid.T) Iv { return s.iv(t) })
}

func (a ArgSpec) model(bits int) Ivs {
	switch a.K {
	case "addr":
		return Ivs{{a.A, a.A}}
	case "pfx":
		return Ivs{a.P.iv(bits)}
	case "range":
		return Ivs{a.R}
	case "set", "mset", "func":
		return normIvs(a.L)
	}
	return nil
}

func (a ArgSpec) make(f Fam) Arg {
	switch a.K {
	case "nil":
		return Arg{}
	case "addr":
		return f.ArgAddr(a.A)
	case "pfx":
		return f.ArgPfx(a.P)
	case "range":
		return f.ArgRange(a.R)
	case "set":
		return f.ArgSet(buildSet(f, a.L).Set())
	case "mset":
		return f.ArgMSet(buildSet(f, a.L))
	case "func":
		return f.ArgFunc(func() SetV { return buildSet(f, a.L).Set() })
	case "zset":
		return f.ArgSet(f.ZeroSet())
	case "zmset":
		return f.ArgMSet(f.ZeroMSet())
	}
	panic("bad ArgSpec " + a.K)
}

// buildSet makes a set out of ranges, in the order given
func buildSet(f Fam, l []Iv) MSetV {
	s := f.NewMSet()
	for _, v := range l {
		s.Insert(f.ArgRange(v))
	}
	return s
}

// ---- reading results

func prefixesOf(s SetV) []Pfx {
	var l []Pfx
	s.WalkPrefixes(func(p Pfx) bool {
		l = append(l, p)
		return len(l) < 200000
	})
	return l
}

// contents are the addresses in a set, however it splits them in prefixes
func contents(x *X, f Fam, s SetV) Ivs {
	l := prefixesOf(s)
	ivs := make([]Iv, 0, len(l))
	for _, p := range l {
		ivs = append(ivs, p.iv(f.Bits()))
	}
	return normIvs(ivs)
}

func wantSet(x *X, f Fam, what string, s SetV, want Ivs) {
	got := contents(x, f, s)
	if !got.eq(want) {
		x.Fail("%s: got addresses %v, want %v", what, got, want)
	}
}

func pfxsEq(a, b []Pfx) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type entry[T any] struct {
	P Pfx
	V T
}

func entriesOf[T any](t TabV[T]) []entry[T] {
	var l []entry[T]
	t.Walk(func(p Pfx, v T) bool {
		l = append(l, entry[T]{p, v})
		return len(l) < 1000000
	})
	return l
}

// wantTable compares the contents of the table by walking it
func wantTable[T comparable](x *X, what string, t TabV[T], want Tab[T]) {
	l := entriesOf(t)
	seen := map[Pfx]bool{}
	for _, e := range l {
		w, ok := want[e.P]
		if !ok {
			x.Fail("%s: has entry %v which it should not have", what, e)
		}
		if w != e.V {
			x.Fail("%s: entry %v should have value %v", what, e, w)
		}
		if seen[e.P] {
			x.Fail("%s: entry %v appears twice", what, e)
		}
		seen[e.P] = true
	}
	if len(l) != len(want) {
		for p, v := range want {
			if !seen[p] {
				x.Fail("%s: entry %v:%v is missing", what, p, v)
			}
		}
	}
	if n := t.NumEntries(); n != int64(len(want)) {
		x.Fail("%s: NumEntries is %d, want %d", what, n, len(want))
	}
}
