package main

// Everything in a small scope: all tables with any of the prefixes in a window
// of W bits (7 prefixes for 2 bits, 15 for 3), wherever the window is.

type scopeTab struct {
	F   string
	Off int // bits below the window
	Hi  U   // bits above it
	W   int
	M   int // bit mask, which prefixes are in the table
}

func (c scopeTab) prefixes() (l []Pfx) {
	bits := fams[c.F].Bits()
	for n := 0; n <= c.W; n++ {
		for i := 0; i < 1<<n; i++ {
			l = append(l, Pfx{c.Hi.or(u64(uint64(i)).shl(c.Off + c.W - n)), bits - c.Off - c.W + n})
		}
	}
	return l
}

func (c scopeTab) model() Tab[int] {
	m := Tab[int]{}
	for i, p := range c.prefixes() {
		if c.M>>i&1 == 1 {
			m[p] = i
		}
	}
	return m
}

// table has the entries inserted in an order which depends on the mask
func (c scopeTab) table(x *X, m Tab[int]) (MTabV[int], *norm) {
	f := fams[c.F]
	n := newNorm(x, f)
	t := MTabV[int](normMTab[int]{newMTable[int](f), n})
	l := m.keys()
	for i := range l {
		k := l[(i+c.M)%len(l)]
		if c.M&1 == 1 {
			k = l[len(l)-1-i]
		}
		if !t.Insert(f.KeyPfx(k), m[k]) {
			x.Fail("Insert(%v) returned false", k)
		}
	}
	return t, n
}

// keys are the prefixes in the window, without and with host bits, the ones
// which contain it and some outside
func (c scopeTab) keys() (l []Pfx) {
	bits := fams[c.F].Bits()
	for _, p := range c.prefixes() {
		l = append(l, p)
		if p.N < bits {
			l = append(l, Pfx{p.last(bits), p.N}, Pfx{p.last(bits), bits}, Pfx{p.A, bits})
		}
	}
	top := bits - c.Off - c.W
	if top > 0 {
		l = append(l, Pfx{c.Hi, top - 1}.net(bits), Pfx{c.Hi.xor(u64(1).shl(c.Off + c.W)), top}.net(bits), Pfx{c.Hi.xor(u64(1).shl(bits - 1)), top}.net(bits))
	}
	return l
}

func fixedScope(tier string, emit func(scopeTab)) {
	for _, f := range []string{"v4", "v6"} {
		bits := fams[f].Bits()
		for off := 0; off+2 <= bits; off++ {
			for m := 0; m < 1<<7; m++ {
				emit(scopeTab{f, off, U{}, 2, m})
				emit(scopeTab{f, off, ones(bits).xor(ones(off + 2)), 2, m})
			}
		}
		if tier != "thorough" {
			continue
		}
		for _, off := range []int{0, bits/2 - 2, bits - 3} {
			for m := 0; m < 1<<15; m++ {
				emit(scopeTab{f, off, ones(bits).xor(ones(off + 3)), 3, m})
			}
		}
	}
}

func wantEntries(x *X, what string, t TabV[int], m Tab[int]) {
	l := m.keys()
	i := 0
	if !t.Walk(func(p Pfx, v int) bool {
		if i >= len(l) || l[i] != p || m[p] != v {
			x.Fail("%s: entry %d of a walk is %v=%d, want %v", what, i, p, v, m)
		}
		i++
		return true
	}) || i != len(l) {
		x.Fail("%s: a walk visited %d of %d entries: %v", what, i, len(l), m)
	}
	if n := t.NumEntries(); n != int64(len(l)) {
		x.Fail("%s: NumEntries is %d, want %d", what, n, len(l))
	}
}

// runScopeC01 does each operation with each key to the table
func runScopeC01(x *X, c scopeTab) {
	f := fams[c.F]
	m := c.model()
	t, n := c.table(x, m)
	full := t.Table()
	wantEntries(x, "the table", full, m)
	for i, p := range c.keys() {
		for j, op := range []string{"insert", "update", "iou", "goi", "remove"} {
			w, wm := full.Mut(), m.clone()
			o := TabOp{Op: op, K: KeySpec{"pfx", p}, V: 100 + i}
			if j > 0 && i%3 == 0 {
				o.V = m[p.net(f.Bits())] // an equal value
			}
			o.apply(x, f, n, w, wm)
			wantEntries(x, op, w.Table(), wm)
		}
	}
	wantEntries(x, "the table at the end", full, m)
	x.NonTrivial(len(m) > 1)
}

// runScopeC02 looks up everything
func runScopeC02(x *X, c scopeTab) {
	f := fams[c.F]
	m := c.model()
	t, _ := c.table(x, m)
	full := t.Table()
	found := 0
	for _, p := range c.keys() {
		k := KeySpec{"pfx", p}
		wantGet(x, "Table", full, f, k, m)
		wantGet(x, "Table_", t, f, k, m)
		if wantMatch(x, "Table", full, f, k, m) {
			found++
		}
		wantMatch(x, "Table_", t, f, k, m)
	}
	x.NonTrivial(found > 0 && len(m) > 1)
}

// runScopeC03 stops everywhere
func runScopeC03(x *X, c scopeTab) {
	m := c.model()
	t, _ := c.table(x, m)
	full := t.Table()
	wantEntries(x, "the table", full, m)
	l := m.keys()
	for stop := 1; stop <= len(l); stop++ {
		i := 0
		fin := full.Walk(func(p Pfx, v int) bool {
			if i >= stop {
				x.Fail("Walk visited %v after the callback returned false for %v", p, l[stop-1])
			}
			if l[i] != p || m[p] != v {
				x.Fail("entry %d of a walk is %v=%d, want %v", i, p, v, m)
			}
			i++
			return i < stop
		})
		if fin || i != stop {
			x.Fail("Walk returned %v after %d calls, the callback returned false for call %d", fin, i, stop)
		}
	}
	x.NonTrivial(len(m) > 1)
}

// runScopeC09 maps in three ways
func runScopeC09(x *X, c scopeTab) {
	m := c.model()
	t, _ := c.table(x, m)
	full := t.Table()
	for _, change := range []func(v int) int{
		func(v int) int { return v },
		func(v int) int { return v + 10 },
		func(v int) int { return v &^ (c.M & 3) },
	} {
		want, left := Tab[int]{}, m.clone()
		for k, v := range m {
			want[k] = change(v)
		}
		got := full.Map(func(p Pfx, v int) int {
			if w, ok := left[p]; !ok || w != v {
				x.Fail("Map called the mapper with %v=%d, still to come were %v", p, v, left)
			}
			delete(left, p)
			return change(v)
		})
		if len(left) > 0 {
			x.Fail("Map didn't call the mapper for %v", left)
		}
		wantEntries(x, "mapped", got, want)
	}
	wantEntries(x, "the table at the end", full, m)
	x.NonTrivial(len(m) > 1)
}

// ---- pairs of such tables

type scopePair struct {
	F    string
	Off  int
	Hi   U
	A, B int
	V    int // which values differ
	Nil  int
	Sep  bool
}

func fixedScopePairs(tier string, emit func(scopePair)) {
	places := []scopePair{
		{F: "v4", Off: 30}, {F: "v4", Off: 0, Hi: ones(32).xor(ones(2))},
		{F: "v6", Off: 63, Hi: U{4, 0}}, {F: "v6", Off: 126},
	}
	for a := 0; a < 128; a++ {
		for b := 0; b < 128; b++ {
			for i, p := range places {
				if tier != "thorough" && (a*7+b)%4 != i {
					continue
				}
				p.A, p.B = a, b
				p.V = (a*37 ^ b*11) & 127
				p.Sep = (a*3+b)%2 == 0
				emit(p)
				if tier == "thorough" {
					for _, v := range []int{0, 127, 0x55, 0x0f, 0x71} {
						p.V = v
						p.Sep = !p.Sep
						p.Nil = (a + b + v) % 16
						emit(p)
					}
				}
			}
		}
	}
}

func runScopePair(x *X, c scopePair) {
	f := fams[c.F]
	at := scopeTab{c.F, c.Off, c.Hi, 2, c.A}
	lm := at.model()
	lt, n := at.table(x, lm)
	at.M = c.B
	rm := at.model()
	for i, p := range at.prefixes() {
		if _, ok := rm[p]; ok && c.V>>i&1 == 1 {
			rm[p] += 10
		}
	}
	rt := lt.Table().Mut()
	if c.Sep {
		rt = normMTab[int]{newMTable[int](f), n}
	}
	for _, k := range lm.keys() {
		if _, ok := rm[k]; !ok {
			rt.Remove(f.KeyPfx(k))
		}
	}
	for _, k := range rm.keys() {
		rt.InsertOrUpdate(f.KeyPfx(k), rm[k])
	}
	checkDiff(x, f, lt.Table(), rt.Table(), lm, rm, 0, c.Nil, []int{0, 1, 2, 4, 7})
	x.NonTrivial(len(lm) > 0 && len(rm) > 0)
}

// ---- sets of any of 8 blocks

// scopeArgs is every prefix, range and address of blocks in the window, and a
// few around it
func (c setPair) scopeArgs() (l []ArgSpec) {
	bits := fams[c.F].Bits()
	at := func(i int) U { return c.Base.or(u64(uint64(i)).shl(c.Off)) }
	for n := 0; n <= 3; n++ {
		for i := 0; i < 1<<n; i++ {
			p := Pfx{at(i << (3 - n)), bits - c.Off - 3 + n}
			l = append(l, ArgSpec{K: "pfx", P: p})
			if n == 3 {
				l = append(l, ArgSpec{K: "pfx", P: Pfx{p.last(bits), p.N}}, ArgSpec{K: "addr", A: p.last(bits)}, ArgSpec{K: "addr", A: p.A})
			}
		}
	}
	for i := 0; i < 8; i++ {
		for j := i; j < 8; j++ {
			l = append(l, ArgSpec{K: "range", R: Iv{at(i), at(j).or(ones(c.Off))}})
			if c.Off > 0 {
				l = append(l, ArgSpec{K: "range", R: Iv{at(i).inc(), at(j).or(ones(c.Off))}}, ArgSpec{K: "range", R: Iv{at(i), at(j).or(ones(c.Off)).dec()}})
			}
		}
	}
	l = append(l, ArgSpec{K: "pfx", P: Pfx{}}, ArgSpec{K: "range", R: Iv{U{}, at(3)}}, ArgSpec{K: "range", R: Iv{at(4), ones(bits)}})
	return l
}

func fixedScopeSets(tier string, emit func(setPair)) {
	for _, f := range []string{"v4", "v6"} {
		bits := fams[f].Bits()
		for off := 0; off+3 <= bits; off++ {
			if tier != "thorough" && off%9 != 0 && off != 1 && off+3 != bits && (off < bits/2-3 || off > bits/2+1) {
				continue
			}
			for a := 0; a < 256; a++ {
				emit(setPair{f, U{}, off, a, 0})
				emit(setPair{f, ones(bits).xor(ones(off + 3)), off, a, 0})
			}
		}
	}
}

// runScopeC13 inserts and removes everything
func runScopeC13(x *X, c setPair) {
	f := fams[c.F]
	bits := f.Bits()
	m := c.set(c.A)
	s := buildSet(f, m).Set()
	for _, a := range c.scopeArgs() {
		am := a.model(bits)
		w := s.Mut()
		w.Insert(a.make(f))
		wantSet(x, f, "after an insertion", w.Set(), m.union(am))
		w = s.Mut()
		w.Remove(a.make(f))
		wantSet(x, f, "after a removal", w.Set(), m.minus(am))
	}
	wantSet(x, f, "the set at the end", s, m)
	x.NonTrivial(len(m) > 1)
}

// runScopeC16 counts prefixes of all lengths in a set
func runScopeC16(x *X, c setPair) {
	f := fams[c.F]
	bits := f.Bits()
	m := c.set(c.A)
	w := buildSet(f, m)
	s := w.Set()
	for n := 0; n <= bits+1; n++ {
		got, err := s.NumPrefixes(uint32(n))
		if n > bits {
			if err == nil && (len(m) > 0 || got != 0) {
				x.Fail("NumPrefixes(%d) of %v returned %d", n, m, got)
			}
			continue
		}
		want := m.numPrefixes(bits, n)
		if !want.IsUint64() {
			if err == nil {
				x.Fail("NumPrefixes(%d) of %v returned %d, want an error, there are %v", n, m, got, want)
			}
			continue
		}
		if err != nil || got != want.Uint64() {
			x.Fail("NumPrefixes(%d) of %v is %d, %v; want %v", n, m, got, err, want)
		}
	}
	if n, ok := s.NumAddresses(); ok && n != m.size().Int64() {
		x.Fail("NumAddresses of %v is %d", m, n)
	}
	if n, ok := w.NumAddresses(); ok && n != m.size().Int64() {
		x.Fail("NumAddresses of %v is %d", m, n)
	}
	x.NonTrivial(len(m) > 1)
}

// runScopeC17 asks whether one set contains the other
func runScopeC17(x *X, c setPair) {
	f := fams[c.F]
	am, bm := c.set(c.A), c.set(c.B)
	wa := buildSet(f, am)
	a, b := wa.Set(), buildSet(f, bm)
	want := len(bm.minus(am)) == 0
	if a.Contains(f.ArgSet(b.Set())) != want || wa.Contains(f.ArgMSet(b)) != want {
		x.Fail("%v: Contains(%v) isn't %v", am, bm, want)
	}
	if a.IsEmpty() != (len(am) == 0) || wa.IsEmpty() != (len(am) == 0) {
		x.Fail("IsEmpty of %v is wrong", am)
	}
	if c.B == 0 {
		for _, q := range c.scopeArgs() {
			qm := q.model(f.Bits())
			want := len(qm.minus(am)) == 0
			if a.Contains(q.make(f)) != want || wa.Contains(q.make(f)) != want {
				x.Fail("%v: Contains(%v) isn't %v", am, q, want)
			}
		}
	}
	x.NonTrivial(len(am) > 0 && len(bm) > 0)
}

// runScopeC18 finds a prefix of all lengths around the window in one set with
// the other reserved
func runScopeC18(x *X, c setPair) {
	f := fams[c.F]
	bits := f.Bits()
	am, bm := c.set(c.A), c.set(c.B)
	a, b := buildSet(f, am).Set(), buildSet(f, bm).Set()
	found := false
	for n := max(0, bits-c.Off-4); n <= min(bits, bits-c.Off+1); n++ {
		got, err := a.FindAvailable(f.ArgSet(b), uint32(n))
		if checkAvailable(x, f, am, bm, uint32(n), got, err) {
			found = true
		}
	}
	x.NonTrivial(found && len(bm) > 0)
}
