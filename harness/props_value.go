package main

import (
	"bytes"
	"fmt"
	"net"
	"net/netip"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// genU draws any address of a family
func genU(t *rapid.T, fam string) U {
	bits := fams[fam].Bits()
	switch ri(t, 0, 8) {
	case 0:
		return U{}
	case 1:
		return ones(bits)
	case 6:
		return inKnown(t, fam)
	case 2:
		return u64(1).shl(ri(t, 0, bits-1))
	case 3:
		if bits == 128 { // IPv4-mapped and its neighbours
			return u64(0xffff<<32 | uint64(rapid.Uint32().Draw(t, "v4"))).xor(u64(1).shl(ri(t, 0, 127)).and(u64(uint64(ri(t, 0, 1))).sub(u64(1))))
		}
	case 4:
		return ones(ri(t, 0, bits))
	case 5:
		return ones(bits).xor(ones(ri(t, 0, bits)))
	}
	return rand128(t).and(ones(bits))
}

func genPfx(t *rapid.T, fam string) Pfx {
	bits := fams[fam].Bits()
	p := Pfx{genU(t, fam), ri(t, 0, bits)}
	switch ri(t, 0, 5) {
	case 0:
		p.N = oneOf(t, 0, 1, bits-1, bits, bits/2, 31, 32)
	case 1:
		return p.net(bits)
	}
	return p
}

func netipOf(bits int, a U) netip.Addr {
	if bits == 32 {
		return netip.AddrFrom4([4]byte{byte(a.L >> 24), byte(a.L >> 16), byte(a.L >> 8), byte(a.L)})
	}
	return netip.AddrFrom16([16]byte(bytesOf(bits, a)))
}

func bytesOf(bits int, a U) []byte {
	b := make([]byte, bits/8)
	for i := range b {
		b[i] = byte(a.shr(bits - 8 - 8*i).L)
	}
	return b
}

func uOf(b []byte) U {
	var a U
	for _, x := range b {
		a = a.shl(8).or(u64(uint64(x)))
	}
	return a
}

func strOf(bits int, a U) string    { return netipOf(bits, a).String() }
func pfxStr(bits int, p Pfx) string { return fmt.Sprintf("%s/%d", strOf(bits, p.A), p.N) }
func maskU(bits, n int) U           { return ones(bits).xor(ones(bits - n)) }
func (x *X) want(ok bool, f string, a ...any) {
	if !ok {
		x.Fail(f, a...)
	}
}

// ---- C19 Range

type c19Case struct {
	S          Space
	A, B, C, D U
}

func genC19(t *rapid.T) c19Case {
	c := c19Case{S: genSpace(t, 5)}
	draw := func() U {
		if chance(t, 2) {
			return genU(t, c.S.F)
		}
		return c.S.addr(t)
	}
	c.A, c.B, c.C, c.D = draw(), draw(), draw(), draw()
	switch ri(t, 0, 5) { // next to each other or the same edges
	case 0:
		c.C = c.B.inc().and(c.S.max())
	case 1:
		c.D = c.A.dec().and(c.S.max())
	case 2:
		c.C = c.A
	case 3:
		c.D = c.B
	}
	return c
}

// ivsSorted sorts ranges by their first address without merging
func sortedRanges(l []RangeV) []Iv {
	var out []Iv
	for _, r := range l {
		out = append(out, r.Iv())
	}
	if len(out) == 2 && out[1].Lo.lt(out[0].Lo) {
		out[0], out[1] = out[1], out[0]
	}
	return out
}

func runC19(x *X, c c19Case) {
	f := c.S.fam()
	bits := f.Bits()
	mk := func(a, b U) (RangeV, Iv, bool) {
		r, empty := f.RangeFromAddresses(a, b)
		x.want(empty == b.lt(a), "RangeFromAddresses(%v, %v) empty is %v", a, b, empty)
		if empty {
			return nil, Iv{}, false
		}
		v := Iv{a, b}
		x.want(r.Iv() == v, "RangeFromAddresses(%v, %v) is %v", a, b, r.Iv())
		want := "[" + strOf(bits, a) + "," + strOf(bits, b) + "]"
		x.want(r.String() == want, "String is %q, want %q", r.String(), want)
		s := r.Set()
		ivs := Ivs{v}
		wantSet(x, f, "Range.Set", s, ivs)
		x.want(pfxsEq(prefixesOf(s), ivs.prefixes(bits)), "the set of %v has prefixes %v, want %v", v, prefixesOf(s), ivs.prefixes(bits))
		x.want(r.Contains(f.ArgRange(v)), "%v doesn't contain itself", v)
		return r, v, true
	}
	if c.B.lt(c.A) {
		mk(c.A, c.B)
		c.A, c.B = c.B, c.A
	}
	if c.D.lt(c.C) {
		mk(c.C, c.D)
		c.C, c.D = c.D, c.C
	}
	r, rv, _ := mk(c.A, c.B)
	q, qv, _ := mk(c.C, c.D)
	pair := func(r, q RangeV, rv, qv Iv) {
		plus := r.Plus(q)
		var got []Iv
		for _, p := range plus {
			got = append(got, p.Iv())
		}
		want := normIvs([]Iv{rv, qv})
		x.want(Ivs(got).eq(want), "%v Plus %v is %v, want %v", rv, qv, got, want)
		minus := sortedRanges(r.Minus(q))
		wantM := Ivs{rv}.minus(Ivs{qv})
		x.want(Ivs(minus).eq(wantM), "%v Minus %v is %v, want %v", rv, qv, minus, wantM)
		x.want(r.Contains(f.ArgRange(qv)) == (rv.Lo.le(qv.Lo) && qv.Hi.le(rv.Hi)), "%v Contains %v is %v", rv, qv, r.Contains(f.ArgRange(qv)))
		x.LabelIf(len(want) == 1, "one range together")
		x.LabelIf(len(wantM) == 2, "split in two")
		x.LabelIf(len(wantM) == 0, "nothing left")
		x.LabelIf(len(want) == 1 && Ivs{rv}.intersect(Ivs{qv}) == nil, "adjacent")
	}
	pair(r, q, rv, qv)
	pair(q, r, qv, rv)
	pair(r, r, rv, rv)
	// nothing is changed by arithmetic
	x.want(r.Iv() == rv && q.Iv() == qv, "a range was changed")
	x.NonTrivial(rv != qv)
}

// rangeQuad enumerates two ranges in a small place
type rangeQuad struct {
	F          string
	Base       U
	Off        int
	A, B, C, D int
}

func fixedRanges(tier string, emit func(rangeQuad)) {
	n := 6
	if tier == "thorough" {
		n = 16
	}
	var places []rangeQuad
	for _, f := range []string{"v4", "v6"} {
		bits := fams[f].Bits()
		w := 3
		if n > 8 {
			w = 4
		}
		for _, off := range []int{0, bits/2 - 1, bits - w} {
			places = append(places, rangeQuad{F: f, Off: off}, rangeQuad{F: f, Off: off, Base: ones(bits).xor(ones(off + w))})
		}
	}
	for a := 0; a < n; a++ {
		for b := a; b < n; b++ {
			for c := 0; c < n; c++ {
				for d := c; d < n; d++ {
					for _, p := range places {
						// The top of the window is used too
						k := 0
						if p.Base != (U{}) {
							k = 8 - n
							if n > 8 {
								k = 16 - n
							}
						}
						p.A, p.B, p.C, p.D = a+k, b+k, c+k, d+k
						emit(p)
					}
				}
			}
		}
	}
}

func runRangeQuad(x *X, c rangeQuad) {
	at := func(i int, hi bool) U {
		a := c.Base.or(u64(uint64(i)).shl(c.Off))
		if hi {
			a = a.or(ones(c.Off))
		}
		return a
	}
	runC19(x, c19Case{Space{F: c.F}, at(c.A, false), at(c.B, true), at(c.C, false), at(c.D, true)})
}

// ---- C20 Prefix

type c20Case struct {
	F    string
	P, Q Pfx
}

func genC20(t *rapid.T) c20Case {
	s := genSpace(t, 5)
	c := c20Case{F: s.F, P: genPfx(t, s.F), Q: genPfx(t, s.F)}
	switch ri(t, 0, 3) {
	case 0:
		c.P, c.Q = s.pfx(t), s.pfx(t)
	case 1: // related to the other
		c.Q = Pfx{c.P.A.xor(u64(1).shl(ri(t, 0, s.bits()-1))), min(s.bits(), max(0, c.P.N+ri(t, -2, 2)))}
	}
	return c
}

func runC20(x *X, c c20Case) {
	f := fams[c.F]
	bits := f.Bits()
	P := c.P
	p := f.Pfx(P)
	is := func(what string, got PfxV, want Pfx) {
		if got.Pfx() != want {
			x.Fail("%s of %v is %v, want %v", what, P, got.Pfx(), want)
		}
	}
	is("the prefix", p, P)
	is("Prefix", p.Prefix(), P)
	is("Network", p.Network(), P.net(bits))
	is("Network of Network", p.Network().Network(), P.net(bits))
	is("Host", p.Host(), Pfx{P.A.and(hostMask(bits, P.N)), P.N})
	x.want(p.Address().U() == P.A, "Address of %v is %v", P, p.Address().U())
	x.want(p.Length() == P.N, "Length of %v is %v", P, p.Length())
	x.want(p.Mask().Length() == P.N && p.Mask().U() == maskU(bits, P.N), "Mask of %v is %v", P, p.Mask().U())
	if b, ok := p.Broadcast(); ok {
		is("Broadcast", b, Pfx{P.last(bits), P.N})
	}
	if n, ok := p.NumAddresses(); ok {
		x.want(n == 1<<(32-P.N), "NumAddresses of %v is %d", P, n)
	}
	a, m := p.Uint()
	x.want(a == P.A && m == maskU(bits, P.N), "integers of %v are %v, %v", P, a, m)
	x.want(p.Range().Iv() == P.iv(bits), "Range of %v is %v", P, p.Range().Iv())
	wantSet(x, f, "Set", p.Set(), Ivs{P.iv(bits)})
	if l := prefixesOf(p.Set()); len(l) != 1 || l[0] != P.net(bits) {
		x.Fail("the set of %v has prefixes %v", P, l)
	}
	mk, err := f.Mask(P.N)
	x.want(err == nil, "Mask(%d): %v", P.N, err)
	is("PrefixFromAddressMask", f.PfxFromAddrMask(f.Addr(P.A), mk), P)
	is("PrefixFromAddressMask of the parts", f.PfxFromAddrMask(p.Address(), p.Mask()), P)
	is("Address.Prefix", f.Addr(P.A).Prefix(), Pfx{P.A, bits})
	x.want(f.Addr(P.A).NumBits() == bits, "NumBits is %d", f.Addr(P.A).NumBits())
	wantSet(x, f, "Address.Set", f.Addr(P.A).Set(), Ivs{{P.A, P.A}})
	if P.N < bits {
		l, r := p.Halves()
		net := P.net(bits)
		is("first half", l, Pfx{net.A, P.N + 1})
		is("second half", r, Pfx{net.A.or(u64(1).shl(bits - P.N - 1)), P.N + 1})
		u := l.Set().Union(f.ArgOf(r))
		x.want(u.Equal(p.Set()), "the halves of %v together are %v", P, u)
		x.want(l.Set().Intersection(f.ArgOf(r)).IsEmpty(), "the halves of %v overlap", P)
	}
	// parts put together again
	net, host := p.Network().Address().U(), p.Host().Address().U()
	x.want(net.or(host) == P.A && net.and(host) == U{}, "network %v and host %v of %v", net, host, P)
	want := P.contains(bits, c.Q)
	x.want(p.Contains(f.ArgPfx(c.Q)) == want, "%v Contains %v is %v", P, c.Q, !want)
	wantA := P.first(bits).le(c.Q.A) && c.Q.A.le(P.last(bits))
	x.want(p.Contains(f.ArgAddr(c.Q.A)) == wantA, "%v Contains address %v is %v", P, c.Q.A, !wantA)
	x.want(p.Contains(f.ArgAddr(P.A)) && p.Contains(f.ArgPfx(P)), "%v doesn't contain itself", P)
	is("the prefix at the end", p, P)
	x.LabelIf(want, "contains the other")
	x.LabelIf(P.N == bits, "full length")
	x.LabelIf(P.N == 0, "length 0")
	x.LabelIf(P.net(bits) != P, "has host bits")
	x.NonTrivial(P.N > 0 && P.N < bits && P.net(bits) != P)
}

// ---- C21 Mask

type c21Case struct {
	F   string
	Len int
	U   U
	B   []byte
}

func genC21(t *rapid.T) c21Case {
	c := c21Case{F: genFam(t)}
	bits := fams[c.F].Bits()
	c.Len = ri(t, -2, bits+2)
	if chance(t, 1) {
		c.Len = rapid.Int().Draw(t, "len")
	} else if chance(t, 2) { // the same in the lower bits
		c.Len += int(oneOf(t, int64(64), 128, 256, 1<<16, 1<<32, -64, -128, -256, -1<<16, -1<<32))
	}
	switch ri(t, 0, 3) {
	case 0:
		c.U = genU(t, c.F)
	case 1:
		c.U = maskU(bits, ri(t, 0, bits))
	default: // one bit off
		c.U = maskU(bits, ri(t, 0, bits)).xor(u64(1).shl(ri(t, 0, bits-1)))
	}
	n := oneOf(t, bits/8, bits/8, 4, 16, 0, 3, 5, 15, 17, 8)
	c.B = make([]byte, n)
	k := ri(t, 0, 8*n)
	for i := 0; i < k; i++ {
		c.B[i/8] |= 0x80 >> (i % 8)
	}
	if chance(t, 5) && n > 0 {
		c.B[ri(t, 0, n-1)] ^= 1 << ri(t, 0, 7)
	}
	return c
}

// maskLen is the length of a contiguous mask, or -1
func maskLen(bits int, u U) int {
	for n := 0; n <= bits; n++ {
		if maskU(bits, n) == u {
			return n
		}
	}
	return -1
}

func checkMask(x *X, f Fam, what string, m MaskV, n int) {
	bits := f.Bits()
	x.want(m.Length() == n, "%s: Length is %d, want %d", what, m.Length(), n)
	x.want(m.U() == maskU(bits, n), "%s: bits are %v, want length %d", what, m.U(), n)
	x.want(m.String() == strOf(bits, maskU(bits, n)), "%s: String is %q, want %q", what, m.String(), strOf(bits, maskU(bits, n)))
	nm := m.ToNetIPMask()
	x.want(bytes.Equal(nm, bytesOf(bits, maskU(bits, n))), "%s: ToNetIPMask is %v, want length %d", what, nm, n)
	back, err := f.MaskNet(nm)
	x.want(err == nil && back.Raw() == m.Raw(), "%s: %v back from %v, %v", what, back, nm, err)
	same, err := f.Mask(n)
	x.want(err == nil && same.Raw() == m.Raw(), "%s: not equal to the mask of length %d", what, n)
	for i := range nm {
		nm[i] ^= 0xff
	}
	x.want(m.Length() == n, "%s: changed through ToNetIPMask", what)
}

func runC21(x *X, c c21Case) {
	f := fams[c.F]
	bits := f.Bits()
	m, err := f.Mask(c.Len)
	ok := 0 <= c.Len && c.Len <= bits
	x.want((err == nil) == ok, "MaskFromLength(%d): %v", c.Len, err)
	if ok {
		checkMask(x, f, "MaskFromLength", m, c.Len)
	}
	n := maskLen(bits, c.U)
	m, err = f.MaskUint(c.U)
	x.want((err == nil) == (n >= 0), "mask from integer %v: %v", c.U, err)
	if err == nil {
		checkMask(x, f, "mask from integer", m, n)
	}
	m, err = f.MaskFromParts(c.U)
	x.want((err == nil) == (n >= 0), "mask from parts %v: %v", c.U, err)
	if err == nil {
		checkMask(x, f, "mask from parts", m, n)
	}
	x.LabelIf(n < 0, "not contiguous")
	x.LabelIf(!ok, "length out of range")
	bn := -1
	if len(c.B) == bits/8 {
		bn = maskLen(bits, uOf(c.B))
	}
	keep := append([]byte(nil), c.B...)
	m, err = f.MaskNet(net.IPMask(c.B))
	x.want((err == nil) == (bn >= 0), "MaskFromNetIPMask(%v): %v", c.B, err)
	if err == nil {
		checkMask(x, f, "MaskFromNetIPMask", m, bn)
		c.B[0] ^= 0xff
		checkMask(x, f, "MaskFromNetIPMask after the slice changed", m, bn)
		c.B[0] ^= 0xff
	}
	x.want(bytes.Equal(c.B, keep), "the slice was changed")
	x.LabelIf(bn < 0, "bad IPMask")
	checkMask(x, f, "zero Mask", f.ZeroMask(), 0)
	x.NonTrivial(n >= 0 || bn >= 0)
}

func fixedMasks(tier string, emit func(c21Case)) {
	for _, f := range []string{"v4", "v6"} {
		bits := fams[f].Bits()
		for n := 0; n <= bits; n++ {
			m := maskU(bits, n)
			emit(c21Case{f, n, m, bytesOf(bits, m)})
			for i := 0; i < bits; i++ {
				u := m.xor(u64(1).shl(i))
				emit(c21Case{f, -n, u, bytesOf(bits, u)})
			}
		}
	}
}

// ---- C22 round trips

type c22Case struct {
	F string
	P Pfx
}

func genC22(t *rapid.T) c22Case {
	c := c22Case{F: genFam(t)}
	c.P = genPfx(t, c.F)
	return c
}

func runC22(x *X, c c22Case) {
	f := fams[c.F]
	bits := f.Bits()
	A := c.P.A
	a := f.Addr(A)
	raw := a.Raw()
	same := func(what string, b AddrV, err error) {
		if err != nil || b.Raw() != raw || b.U() != A {
			x.Fail("%s of %v: %v, %v", what, A, b, err)
		}
	}
	// text
	want := strOf(bits, A)
	x.want(a.String() == want, "String of %v is %q, want %q", A, a.String(), want)
	b, err := f.AddrParse(a.String())
	same("parsed String", b, err)
	b, err = f.AddrParse(netipOf(bits, A).StringExpanded())
	same("parsed long form", b, err)
	b, err = f.AddrParse(strings.ToUpper(want))
	same("parsed upper case", b, err)
	// bytes
	bs := bytesOf(bits, A)
	b, err = f.AddrSlice(bs)
	same("AddressFromSlice", b, err)
	nb, err2 := f.AddrNet(net.IP(bs))
	same("AddressFromNetIP", nb, err2)
	for i := range bs {
		bs[i] ^= 0xa5
	}
	same("AddressFromSlice after the slice changed", b, err)
	same("AddressFromNetIP after the slice changed", nb, err2)
	same("parts", f.AddrFromParts(A), nil)
	// net.IP
	ip := a.ToNetIP()
	x.want(ip.Equal(net.IP(bytesOf(bits, A))) && len(ip) == bits/8, "ToNetIP of %v is %v", A, []byte(ip))
	b, err = f.AddrNet(ip)
	same("AddressFromNetIP of ToNetIP", b, err)
	ip2 := a.ToNetIP()
	for i := range ip {
		ip[i] ^= 0xff
	}
	x.want(ip2.Equal(net.IP(bytesOf(bits, A))) && a.U() == A, "%v changed through ToNetIP", A)
	b, err = f.AddrNet(ip2)
	same("ToNetIP again", b, err)

	// prefixes
	p := f.Pfx(c.P)
	praw := p.Raw()
	psame := func(what string, q PfxV, err error) {
		if err != nil || q.Raw() != praw || q.Pfx() != c.P {
			x.Fail("%s of %v: %v, %v", what, c.P, q, err)
		}
	}
	pwant := pfxStr(bits, c.P)
	x.want(p.String() == pwant, "String of %v is %q, want %q", c.P, p.String(), pwant)
	q, err := f.PfxParse(p.String())
	psame("parsed String", q, err)
	q, err = f.PfxParse(netipOf(bits, A).StringExpanded() + "/" + strconv.Itoa(c.P.N))
	psame("parsed long form", q, err)
	n := p.ToNetIPNet()
	on, ob := n.Mask.Size()
	x.want(on == c.P.N && ob == bits && n.IP.Equal(net.IP(bytesOf(bits, A))), "ToNetIPNet of %v is %v", c.P, n)
	q, err = f.PfxNet(n)
	psame("PrefixFromNetIPNet of ToNetIPNet", q, err)
	n.IP[len(n.IP)-1] ^= 0xff
	n.Mask[0] ^= 0xff
	psame("PrefixFromNetIPNet after the IPNet changed", q, err)
	psame("the prefix after its IPNet changed", p, nil)
	n = p.ToNetIPNet()
	on, ob = n.Mask.Size()
	x.want(on == c.P.N && ob == bits && n.IP.Equal(net.IP(bytesOf(bits, A))), "ToNetIPNet of %v after the first one changed is %v", c.P, n)
	q, err = f.PfxNet(&net.IPNet{IP: bytesOf(bits, A), Mask: bytesOf(bits, maskU(bits, c.P.N))})
	psame("PrefixFromNetIPNet", q, err)
	// masks
	mb := bytesOf(bits, maskU(bits, c.P.N))
	m1 := p.Mask().ToNetIPMask()
	m2 := p.Mask().ToNetIPMask()
	x.want(bytes.Equal(m1, mb) && bytes.Equal(m2, mb), "ToNetIPMask of the mask of %v is %v, then %v", c.P, m1, m2)
	in := bytesOf(bits, maskU(bits, c.P.N))
	m, err := f.MaskNet(in)
	for i := range m1 {
		m1[i] ^= 0xa5
		in[i] ^= 0x5a
	}
	m3 := p.Mask().ToNetIPMask()
	x.want(bytes.Equal(m2, mb) && bytes.Equal(m3, mb), "ToNetIPMask of the mask of %v is shared, it is %v, then %v", c.P, m2, m3)
	x.want(err == nil && m.Raw() == p.Mask().Raw() && bytes.Equal(m.ToNetIPMask(), mb), "MaskFromNetIPMask of %v: %v, %v", mb, m, err)
	// The text of masks is the text of an address
	ma, err := f.AddrParse(p.Mask().String())
	x.want(err == nil && ma.U() == maskU(bits, c.P.N), "String of the mask of %v is %q", c.P, p.Mask().String())
	x.LabelIf(bits == 128 && A.H == 0 && A.L>>32 == 0xffff, "IPv4-mapped")
	x.LabelIf(strings.Contains(want, "::"), "shortened")
	x.LabelIf(c.P.net(bits) != c.P, "host bits")
	x.NonTrivial(A != U{} && c.P.N > 0)
}

// ---- C23 parsing anything

type c23Case struct {
	S string
	B []byte // any slice
	M []byte // any mask
}

const c23Alphabet = "0123456789abcdefABCDEF.:/%-+ xg"

func genC23(t *rapid.T) c23Case {
	c := c23Case{}
	fam := genFam(t)
	bits := fams[fam].Bits()
	num := func() string {
		switch ri(t, 0, 7) {
		case 0:
			return strconv.Itoa(ri(t, 0, 300))
		case 1:
			return oneOf(t, "256", "255", "00", "01", "-1", "+1", "", "1e1", "0x1", "4294967296", "65536", "99999999999999999999")
		}
		return strconv.Itoa(ri(t, 0, 255))
	}
	hex := func() string {
		if chance(t, 2) {
			return oneOf(t, "", "12345", "00000", "fffff", "G", "-1", "0x1")
		}
		return strconv.FormatUint(uint64(ri(t, 0, 0xffff)), 16)
	}
	length := func() string {
		switch ri(t, 0, 9) {
		case 0:
			return oneOf(t, "", "-1", "+1", "01", "032", "33", "129", "1000", "999999999999", "0x10", "1.0", "255.255.255.0", "ffff::", " 8", "8 ", "16777216", "4294967296", "18446744073709551616")
		}
		return strconv.Itoa(ri(t, 0, bits))
	}
	switch ri(t, 0, 9) {
	case 0:
		c.S = rapid.String().Draw(t, "s")
	case 1:
		c.S = rapid.StringOfN(rapid.SampledFrom([]rune(c23Alphabet)), 0, 24, -1).Draw(t, "s")
	case 2, 3: // dotted
		n := oneOf(t, 4, 4, 4, 4, 3, 5, 1)
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, num())
		}
		c.S = strings.Join(l, ".")
	case 4, 5: // colons
		n := oneOf(t, 8, 8, 8, 7, 9, 3, 1)
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, hex())
		}
		if n < 8 || chance(t, 2) {
			l[ri(t, 0, n-1)] = oneOf(t, ":", "", ":1", "1:")
		}
		if chance(t, 2) {
			l[n-1] = "1.2.3." + num()
		}
		c.S = strings.Join(l, ":")
	default:
		c.S = strOf(bits, genU(t, fam))
		if chance(t, 3) {
			c.S = netipOf(bits, genU(t, fam)).StringExpanded()
		}
	}
	if chance(t, 9) {
		c.S += "/" + length()
	}
	for i := ri(t, -6, 3); i > 0 && len(c.S) > 0; i-- { // mutate
		j := ri(t, 0, len(c.S)-1)
		r := string(c23Alphabet[ri(t, 0, len(c23Alphabet)-1)])
		switch ri(t, 0, 3) {
		case 0:
			c.S = c.S[:j] + c.S[j+1:]
		case 1:
			c.S = c.S[:j] + r + c.S[j:]
		case 2:
			c.S = c.S[:j] + r + c.S[j+1:]
		case 3:
			c.S = oneOf(t, " ", "", "\x00", "::") + c.S + oneOf(t, "", " ", "\n", "%eth0", "/", "::")
		}
	}
	bl := func() []byte {
		n := oneOf(t, 4, 16, 4, 16, 0, 1, 3, 5, 8, 15, 17, 20)
		if chance(t, 1) {
			return nil
		}
		if n == 16 && chance(t, 4) {
			return bytesOf(128, genU(t, "v6"))
		}
		b := rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "b")
		return b
	}
	c.B, c.M = bl(), bl()
	if chance(t, 5) {
		n := oneOf(t, 4, 16, 16)
		c.B, c.M = rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "b"), make([]byte, n)
		if n == 16 && chance(t, 5) {
			c.B, c.M = bytesOf(128, u64(0xffff<<32|uint64(rapid.Uint32().Draw(t, "v4")))), make([]byte, oneOf(t, 4, 16))
		}
	}
	if chance(t, 10) && len(c.M) > 0 { // mostly contiguous
		n := ri(t, 0, 8*len(c.M))
		for i := range c.M {
			c.M[i] = 0
		}
		for i := 0; i < n; i++ {
			c.M[i/8] |= 0x80 >> (i % 8)
		}
	}
	return c
}

// parseRef is what an address in text means. Zones aren't supported.
func parseRef(s string) (fam string, a U, ok bool) {
	n, err := netip.ParseAddr(s)
	if err != nil || n.Zone() != "" {
		return "", U{}, false
	}
	if n.Is4() {
		b := n.As4()
		return "v4", uOf(b[:]), true
	}
	b := n.As16()
	return "v6", uOf(b[:]), true
}

// parsePfxRef is what a prefix in text means. unsure means that it may be
// accepted with that meaning or not.
func parsePfxRef(s string) (fam string, p Pfx, ok, unsure bool) {
	a, l, found := strings.Cut(s, "/")
	if !found {
		return
	}
	fam, u, ok := parseRef(a)
	if !ok || l == "" {
		return "", Pfx{}, false, false
	}
	for _, r := range l {
		if r < '0' || r > '9' {
			return "", Pfx{}, false, false
		}
	}
	unsure = l[0] == '0' && len(l) > 1
	l = strings.TrimLeft(l, "0")
	if l == "" {
		l = "0"
	}
	n, err := strconv.Atoi(l)
	if err != nil || n > fams[fam].Bits() {
		return "", Pfx{}, false, false
	}
	return fam, Pfx{u, n}, true, unsure
}

func mapped(a U) bool { return a.H == 0 && a.L>>32 == 0xffff }

func runC23(x *X, c c23Case) {
	fam, a, ok := parseRef(c.S)
	pfam, p, pok, unsure := parsePfxRef(c.S)
	for _, f := range []Fam{fam4{}, fam6{}} {
		bits := f.Bits()
		got, err := f.AddrParse(c.S)
		mine := ok && fam == f.Name()
		switch {
		case bits == 32 && ok && fam == "v6" && mapped(a):
			// ipv4 may accept it as the IPv4 address
			if err == nil && got.U() != a.and(ones(32)) {
				x.Fail("%s: AddressFromString(%q) is %v", f.Name(), c.S, got.U())
			}
		case mine != (err == nil):
			x.Fail("%s: AddressFromString(%q): %v, should be accepted: %v", f.Name(), c.S, err, mine)
		case mine && got.U() != a:
			x.Fail("%s: AddressFromString(%q) is %v, want %v", f.Name(), c.S, got.U(), a)
		}
		gp, err := f.PfxParse(c.S)
		mine = pok && pfam == f.Name()
		switch {
		case bits == 32 && pok && pfam == "v6" && mapped(p.A):
			if err == nil && (gp.Pfx().A != p.A.and(ones(32)) || gp.Pfx().N != p.N-96) {
				x.Fail("%s: PrefixFromString(%q) is %v", f.Name(), c.S, gp.Pfx())
			}
		case mine != (err == nil) && !(mine && unsure):
			x.Fail("%s: PrefixFromString(%q): %v, should be accepted: %v", f.Name(), c.S, err, mine)
		case mine && err == nil && gp.Pfx() != p:
			x.Fail("%s: PrefixFromString(%q) is %v, want %v", f.Name(), c.S, gp.Pfx(), p)
		}

		// slices
		keepB, keepM := append([]byte(nil), c.B...), append([]byte(nil), c.M...)
		got, err = f.AddrSlice(c.B)
		mine = len(c.B) == bits/8
		x.want(mine == (err == nil), "%s: AddressFromSlice(%v): %v", f.Name(), c.B, err)
		x.want(!mine || got.U() == uOf(c.B), "%s: AddressFromSlice(%v) is %v", f.Name(), c.B, got)
		got, err = f.AddrNet(net.IP(c.B))
		u := uOf(c.B)
		switch {
		case bits == 32 && len(c.B) == 16 && mapped(u):
			// net.IP doesn't distinguish this from IPv4
			mine, u = true, u.and(ones(32))
		}
		x.want(mine == (err == nil), "%s: AddressFromNetIP(%v): %v", f.Name(), c.B, err)
		x.want(!mine || got.U() == u, "%s: AddressFromNetIP(%v) is %v", f.Name(), c.B, got)
		mn := -1
		if len(c.M) == bits/8 {
			mn = maskLen(bits, uOf(c.M))
		}
		m, err := f.MaskNet(net.IPMask(c.M))
		x.want((mn >= 0) == (err == nil), "%s: MaskFromNetIPMask(%v): %v", f.Name(), c.M, err)
		x.want(mn < 0 || m.Length() == mn, "%s: MaskFromNetIPMask(%v) is %v", f.Name(), c.M, m)
		gp, err = f.PfxNet(&net.IPNet{IP: c.B, Mask: c.M})
		mine = mine && mn >= 0
		x.want(err != nil || mine, "%s: PrefixFromNetIPNet(%v, %v) is accepted", f.Name(), c.B, c.M)
		x.want(err == nil || !mine, "%s: PrefixFromNetIPNet(%v, %v): %v", f.Name(), c.B, c.M, err)
		x.want(!mine || gp.Pfx() == Pfx{u, mn}, "%s: PrefixFromNetIPNet(%v, %v) is %v", f.Name(), c.B, c.M, gp)
		_, err = f.PfxNet(nil)
		x.want(err != nil, "%s: PrefixFromNetIPNet(nil) is accepted", f.Name())
		x.want(bytes.Equal(c.B, keepB) && bytes.Equal(c.M, keepM), "a slice was changed")
		x.LabelIf(mine, "IPNet accepted")
		x.LabelIf(mine && len(c.B) == 16 && mapped(uOf(c.B)), "IPNet with a mapped address accepted")
	}
	x.LabelIf(ok, "address")
	x.LabelIf(pok, "prefix")
	x.LabelIf(!ok && !pok, "neither")
	x.NonTrivial(len(c.S) > 1)
}

// ---- C28 values

type c28Case struct {
	F          string
	A, B       Pfx
	WayA, WayB int
}

func genC28(t *rapid.T) c28Case {
	c := c28Case{F: genFam(t), WayA: ri(t, 0, 9), WayB: ri(t, 0, 9)}
	c.A = genPfx(t, c.F)
	bits := fams[c.F].Bits()
	switch ri(t, 0, 5) {
	case 0:
		c.B = genPfx(t, c.F)
	case 1:
		c.B = Pfx{c.A.A, min(bits, c.A.N+1)}
	case 2:
		c.B = Pfx{c.A.A.xor(u64(1).shl(ri(t, 0, bits-1))), c.A.N}
	default:
		c.B = c.A
	}
	return c
}

func must[T any](x *X, v T, err error) T {
	if err != nil {
		x.Fail("%v", err)
	}
	return v
}

func makeAddr(x *X, f Fam, a U, way int) AddrV {
	bits := f.Bits()
	var r AddrV
	var err error
	switch way {
	case 0:
		r, err = f.AddrParse(strOf(bits, a))
	case 1:
		r, err = f.AddrSlice(bytesOf(bits, a))
	case 2:
		r, err = f.AddrNet(bytesOf(bits, a))
	case 3:
		r = f.AddrFromParts(a)
	case 4:
		r = f.Pfx(Pfx{a, 7}).Address()
	case 5:
		r, err = f.AddrNet(f.Addr(a).ToNetIP())
	case 6:
		r = f.Addr(a).Prefix().Address()
	default:
		r = f.Addr(a)
	}
	return must(x, r, err)
}

func makeMask(x *X, f Fam, n int, way int) MaskV {
	bits := f.Bits()
	var r MaskV
	var err error
	switch way {
	case 0:
		r, err = f.MaskUint(maskU(bits, n))
	case 1:
		r, err = f.MaskFromParts(maskU(bits, n))
	case 2:
		r, err = f.MaskNet(net.CIDRMask(n, bits))
	case 3, 4:
		r = f.Pfx(Pfx{ones(bits), n}).Mask()
	default:
		r, err = f.Mask(n)
	}
	return must(x, r, err)
}

func makePfx(x *X, f Fam, p Pfx, way int) PfxV {
	bits := f.Bits()
	var r PfxV
	var err error
	switch way {
	case 0:
		r, err = f.PfxParse(pfxStr(bits, p))
	case 1:
		r, err = f.PfxNet(&net.IPNet{IP: bytesOf(bits, p.A), Mask: net.CIDRMask(p.N, bits)})
	case 2:
		r, err = f.PfxNet(f.Pfx(p).ToNetIPNet())
	case 3:
		r = f.Pfx(p).Prefix()
	case 4: // half of a bigger one
		if p.N > 0 && p.net(bits) == p {
			a, b := f.Pfx(Pfx{p.A, p.N - 1}).Halves()
			if p.A.shr(bits-p.N).L&1 == 1 {
				a = b
			}
			return a
		}
		r = f.Pfx(p)
	case 5:
		if p.net(bits) == p {
			r = f.Pfx(Pfx{p.last(bits), p.N}).Network()
		} else {
			r = f.Pfx(p)
		}
	case 6:
		if p.net(bits) == p {
			f.Pfx(p).Set().WalkPrefixes(func(q Pfx) bool { r = f.Pfx(q); return true })
		} else {
			r = f.Pfx(p)
		}
	case 7:
		if p.N == bits {
			r = f.Addr(p.A).Prefix()
		} else {
			r = f.Pfx(p)
		}
	default:
		r = f.PfxFromAddrMask(makeAddr(x, f, p.A, way%3), makeMask(x, f, p.N, way%4))
	}
	return must(x, r, err)
}

func makeRange(x *X, f Fam, p Pfx, way int) RangeV {
	bits := f.Bits()
	v := p.iv(bits)
	switch way {
	case 0, 1:
		return f.Pfx(p).Range()
	case 2: // put together
		if p.N < bits {
			a, b := f.Pfx(p.net(bits)).Halves()
			if l := b.Range().Plus(a.Range()); len(l) == 1 {
				return l[0]
			}
			x.Fail("the halves of %v aren't adjacent", p)
		}
	case 3: // what's left
		if p.N > 0 {
			big := f.Pfx(Pfx{p.A, p.N - 1}).Range()
			sib := f.Pfx(Pfx{p.A.xor(u64(1).shl(bits - p.N)), p.N}).Range()
			if l := big.Minus(sib); len(l) == 1 {
				return l[0]
			}
			x.Fail("%v without a half isn't one range", Pfx{p.A, p.N - 1})
		}
	case 4: // from a walk
		var got []Iv
		f.Pfx(p).Set().WalkRanges(func(v Iv) bool { got = append(got, v); return true })
		if len(got) != 1 {
			x.Fail("WalkRanges of the set of %v: %v", p, got)
		}
		return f.Range(got[0])
	}
	return f.Range(v)
}

func runC28(x *X, c c28Case) {
	f := fams[c.F]
	bits := f.Bits()
	check := func(what string, a, b any, equal bool) {
		x.want((a == b) == equal, "%s: %v == %v is %v", what, a, b, a == b)
		m := map[any]int{a: 1}
		m[b] = 2
		want := 2
		if equal {
			want = 1
		}
		x.want(len(m) == want && m[b] == 2, "%s: map with keys %v and %v has %d entries", what, a, b, len(m))
	}
	A, B := c.A, c.B
	check("Address", makeAddr(x, f, A.A, c.WayA).Raw(), makeAddr(x, f, B.A, c.WayB).Raw(), A.A == B.A)
	check("Mask", makeMask(x, f, A.N, c.WayA).Raw(), makeMask(x, f, B.N, c.WayB).Raw(), A.N == B.N)
	check("Prefix", makePfx(x, f, A, c.WayA).Raw(), makePfx(x, f, B, c.WayB).Raw(), A == B)
	check("Range", makeRange(x, f, A, c.WayA).Raw(), makeRange(x, f, B, c.WayB).Raw(), A.iv(bits) == B.iv(bits))
	check("zero Address", makeAddr(x, f, A.A, c.WayA).Raw(), f.ZeroAddr().Raw(), A.A == U{})
	check("zero Mask", makeMask(x, f, A.N, c.WayA).Raw(), f.ZeroMask().Raw(), A.N == 0)
	check("zero Prefix", makePfx(x, f, A, c.WayA).Raw(), f.ZeroPfx().Raw(), A == Pfx{})
	check("zero Range", makeRange(x, f, A, c.WayA).Raw(), f.ZeroRange().Raw(), A.iv(bits) == Iv{})
	x.LabelIf(A == B, "equal")
	x.LabelIf(A != B, "different")
	x.NonTrivial(c.WayA != c.WayB || A != B)
}
