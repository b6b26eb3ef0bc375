package main

import (
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// Ivs is the reference model of a set of addresses: sorted, disjoint and not
// adjacent closed intervals.
type Ivs []Iv

func (s Ivs) String() string {
	b := strings.Builder{}
	b.WriteString("{")
	for i, v := range s {
		if i > 0 {
			b.WriteString(" ")
		}
		if i == 20 {
			b.WriteString("...")
			break
		}
		b.WriteString(v.String())
	}
	b.WriteString("}")
	return b.String()
}

// normIvs sorts and merges any list of intervals
func normIvs(in []Iv) Ivs {
	l := append([]Iv(nil), in...)
	sort.Slice(l, func(i, j int) bool { return l[i].Lo.lt(l[j].Lo) })
	var out Ivs
	for _, v := range l {
		if n := len(out); n > 0 {
			last := &out[n-1]
			// Hi can be the maximum of 128 bits
			if v.Lo.le(last.Hi) || v.Lo == last.Hi.inc() && last.Hi.lt(v.Lo) {
				if last.Hi.lt(v.Hi) {
					last.Hi = v.Hi
				}
				continue
			}
		}
		out = append(out, v)
	}
	return out
}

func (s Ivs) union(o Ivs) Ivs { return normIvs(append(append([]Iv(nil), s...), o...)) }

func (s Ivs) intersect(o Ivs) Ivs {
	var out []Iv
	i, j := 0, 0
	for i < len(s) && j < len(o) {
		lo, hi := s[i].Lo, s[i].Hi
		if lo.lt(o[j].Lo) {
			lo = o[j].Lo
		}
		if o[j].Hi.lt(hi) {
			hi = o[j].Hi
		}
		if lo.le(hi) {
			out = append(out, Iv{lo, hi})
		}
		if s[i].Hi.lt(o[j].Hi) {
			i++
		} else {
			j++
		}
	}
	return out
}

func (s Ivs) minus(o Ivs) Ivs {
	var out []Iv
	j := 0
	for _, v := range s {
		lo := v.Lo
		done := false
		for j > 0 && v.Lo.le(o[j-1].Hi) {
			j--
		}
		for ; j < len(o) && o[j].Lo.le(v.Hi); j++ {
			if o[j].Hi.lt(lo) {
				continue
			}
			if lo.lt(o[j].Lo) {
				out = append(out, Iv{lo, o[j].Lo.dec()})
			}
			if v.Hi.le(o[j].Hi) {
				done = true
				break
			}
			lo = o[j].Hi.inc()
		}
		if !done && lo.le(v.Hi) {
			out = append(out, Iv{lo, v.Hi})
		}
	}
	return out
}

func (s Ivs) eq(o Ivs) bool {
	if len(s) != len(o) {
		return false
	}
	for i := range s {
		if s[i] != o[i] {
			return false
		}
	}
	return true
}

func (s Ivs) has(a U) bool {
	i := sort.Search(len(s), func(i int) bool { return a.le(s[i].Hi) })
	return i < len(s) && s[i].Lo.le(a)
}

// size is the number of addresses
func (s Ivs) size() *big.Int {
	n := new(big.Int)
	for _, v := range s {
		n.Add(n, v.Hi.big())
		n.Sub(n, v.Lo.big())
		n.Add(n, big.NewInt(1))
	}
	return n
}

// numPrefixes counts the aligned blocks of the given prefix length
func (s Ivs) numPrefixes(nbits, length int) *big.Int {
	n := new(big.Int)
	k := uint(nbits - length)
	one := big.NewInt(1)
	for _, v := range s {
		end := new(big.Int).Add(v.Hi.big(), one)
		end.Rsh(end, k)
		// round up
		start := new(big.Int).Add(v.Lo.big(), new(big.Int).Sub(new(big.Int).Lsh(one, k), one))
		start.Rsh(start, k)
		if d := end.Sub(end, start); d.Sign() > 0 {
			n.Add(n, d)
		}
	}
	return n
}

func trailingZeros(a U) int {
	if a.L != 0 {
		return bits.TrailingZeros64(a.L)
	}
	if a.H != 0 {
		return 64 + bits.TrailingZeros64(a.H)
	}
	return 128
}

// prefixes is the unique minimal list of prefixes that covers exactly the set
func (s Ivs) prefixes(nbits int) []Pfx {
	var out []Pfx
	for _, v := range s {
		lo := v.Lo
		for {
			k := trailingZeros(lo)
			if k > nbits {
				k = nbits
			}
			for k > 0 && v.Hi.lt(lo.or(ones(k))) {
				k--
			}
			out = append(out, Pfx{lo, nbits - k})
			end := lo.or(ones(k))
			if v.Hi.le(end) {
				break
			}
			lo = end.inc()
		}
	}
	return out
}

func (s Ivs) clone() Ivs { return append(Ivs(nil), s...) }

// ---- tables

// Tab is the reference model of a table. Keys have no host bits.
type Tab[T any] map[Pfx]T

func (t Tab[T]) keys() []Pfx {
	l := make([]Pfx, 0, len(t))
	for k := range t {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].less(l[j]) })
	return l
}

func (t Tab[T]) clone() Tab[T] {
	c := make(Tab[T], len(t))
	for k, v := range t {
		c[k] = v
	}
	return c
}

// lpm is the longest prefix match by scanning from the longest possible key
func (t Tab[T]) lpm(nbits int, q Pfx) (p Pfx, v T, ok bool) {
	for n := q.N; n >= 0; n-- {
		k := Pfx{q.A, n}.net(nbits)
		if v, ok := t[k]; ok {
			return k, v, true
		}
	}
	return Pfx{}, v, false
}

// parent finds the closest strictly shorter key which contains p
func (t Tab[T]) parent(nbits int, p Pfx) (Pfx, bool) {
	if p.N == 0 {
		return Pfx{}, false
	}
	k, _, ok := t.lpm(nbits, Pfx{p.A, p.N - 1})
	return k, ok
}

// boundaries returns the addresses which start a region with a constant longest
// match: the first address of every key and the one just after its last.
func (t Tab[T]) boundaries(nbits int, into map[U]bool) {
	into[U{}] = true
	for k := range t {
		into[k.first(nbits)] = true
		if l := k.last(nbits); l != ones(nbits) {
			into[l.inc()] = true
		}
	}
}

// nested reports whether some key contains another one
func (t Tab[T]) nested(nbits int) bool {
	for k := range t {
		if _, ok := t.parent(nbits, k); ok {
			return true
		}
	}
	return false
}

func sortedU(m map[U]bool) []U {
	l := make([]U, 0, len(m))
	for a := range m {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].lt(l[j]) })
	return l
}

// depth is the highest number of keys which contain each other
func (t Tab[T]) depth(nbits int) int {
	max := 0
	var open []Pfx
	for _, k := range t.keys() { // sorted, containing prefixes first
		for len(open) > 0 && !open[len(open)-1].contains(nbits, k) {
			open = open[:len(open)-1]
		}
		open = append(open, k)
		if len(open) > max {
			max = len(open)
		}
	}
	return max
}
