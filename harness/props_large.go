package main

// ---- C01, tables with many entries

// largeTab is a table with N entries at multiples of Mul (odd), in a field of
// Bits bits at Off, under every prefix of Base which is longer than Chain.
type largeTab struct {
	F         string
	N         int
	Off, Bits int
	Mul       int
	Base      U
	Chain     int // number of entries on the path to the field
}

func (c largeTab) key(bits, i int) Pfx {
	j := i * c.Mul & (1<<c.Bits - 1)
	return Pfx{c.Base.or(u64(uint64(j)).shl(c.Off)), bits - c.Off}
}

func fixedLarge(tier string, emit func(largeTab)) {
	n := []int{70000}
	if tier == "thorough" {
		n = []int{255, 257, 32770, 70000, 140000, 270000}
	}
	for _, n := range n {
		w := 20
		emit(largeTab{"v4", n, 0, w, 0x9e37, U{0, 10 << 24}, 8})
		emit(largeTab{"v6", n, 64 - w/2, w, 0x9e37, U{0x20010db8 << 32, 0}, 33})
		emit(largeTab{"v6", n, 0, w, 1, ones(128).xor(ones(w)), 108})
		emit(largeTab{"v4", n, 12, w, 1, U{}, 0})
	}
}

func runLarge(x *X, c largeTab) {
	f := fams[c.F]
	bits := f.Bits()
	t := newMTable[int](f)
	total := 0
	for i := 0; i < c.Chain; i++ {
		p := Pfx{c.Base, i}.net(bits)
		if !t.Insert(f.KeyPfx(p), -1-i) {
			x.Fail("Insert(%v) returned false", p)
		}
		total++
	}
	count := func(when string, i int) {
		if n := t.NumEntries(); n != int64(total) {
			x.Fail("NumEntries is %d %s %d, want %d", n, when, i, total)
		}
	}
	lookup := func(r reader[int], i int, want bool, v int) {
		k := c.key(bits, i)
		got, ok := r.Get(f.KeyPfx(k))
		if ok != want || ok && got != v {
			x.Fail("Get(%v) with %d entries = %v, %v; want %v, %v", k, total, got, ok, v, want)
		}
		p := k
		if !want {
			p, v, want = Pfx{c.Base, c.Chain - 1}.net(bits), -c.Chain, c.Chain > 0
		}
		got, ok, gp := r.LongestMatch(f.KeyPfx(Pfx{k.last(bits), bits}))
		if ok != want || ok && (got != v || gp != p) {
			x.Fail("LongestMatch(%v) with %d entries = %v, %v, %v; want %v, %v, %v", k.last(bits), total, got, ok, gp, v, want, p)
		}
	}
	for i := 0; i < c.N; i++ {
		if !t.Insert(f.KeyPfx(c.key(bits, i)), i) {
			x.Fail("Insert(%v) returned false, there is no such entry", c.key(bits, i))
		}
		total++
		if i&(i+1) == 0 || i&(i-1) == 0 || i%8191 == 0 {
			count("after insertion", i)
			lookup(t, i, true, i)
			lookup(t, i+1, false, 0)
		}
	}
	full := t.Table()
	want := total
	for i := 0; i < c.N; i += 997 {
		lookup(full, i, true, i)
	}
	if t.Insert(f.KeyPfx(c.key(bits, c.N/2)), 5) {
		x.Fail("inserted twice")
	}
	for i := 0; i < c.N; i++ {
		k := f.KeyPfx(c.key(bits, i))
		switch i % 4 {
		case 0:
			if !t.Remove(k) {
				x.Fail("Remove(%v) returned false", c.key(bits, i))
			}
			total--
		case 1:
			if !t.Update(k, i+1) {
				x.Fail("Update(%v) returned false", c.key(bits, i))
			}
		}
		if i&(i+1) == 0 || i%8191 == 0 {
			count("after change", i)
		}
	}
	for i := 0; i < c.N; i += 499 {
		v := i
		if i%4 == 1 {
			v = i + 1
		}
		lookup(t, i, i%4 != 0, v)
	}
	n := 0
	last := Pfx{}
	walk := func(p Pfx, v int) bool {
		if n > 0 && !last.less(p) {
			x.Fail("walk: %v comes after %v", p, last)
		}
		last = p
		n++
		return true
	}
	if !t.Table().Walk(walk) || n != total {
		x.Fail("a walk visits %d entries, there are %d", n, total)
	}
	total, n = want, 0
	if !full.Walk(walk) || n != total {
		x.Fail("a walk of the snapshot visits %d entries, there are %d", n, total)
	}
	if n := full.NumEntries(); n != int64(want) {
		x.Fail("the snapshot has %d entries, want %d", n, want)
	}
	for i := 0; i < c.N; i += 997 {
		lookup(full, i, true, i)
	}
	x.Label("more than 1000 entries")
	x.NonTrivial(true)
}

// ---- other properties with many entries or addresses: the same checks as for
// drawn cases, of a few histories

// largePlaces are windows with room for 2^20 keys, at the end of the address
// space, across the words of an IPv6 address, and in the middle
var largePlaces = []Space{
	{F: "v4", Off: 0, W: 20, Base: U{0, 10 << 24}},
	{F: "v4", Off: 12, W: 20},
	{F: "v6", Off: 54, W: 20, Base: U{0x20010db8 << 32, 0}},
	{F: "v6", Off: 108, W: 20},
	{F: "v6", Off: 0, W: 20, Base: ones(128).xor(ones(20))},
}

func largeSizes(tier string) []int {
	if tier == "thorough" {
		return []int{257, 4097, 33000, 70000, 140000}
	}
	return []int{70000}
}

// largeTables emits histories: a chain of nested entries, many below it (some of
// them halves of each other), and some of those changed or removed.
func largeTables(tier string, emit func(s Space, ops, more []TabOp)) {
	for i, n := range largeSizes(tier) {
		for j, s := range largePlaces {
			bits := s.bits()
			key := func(k, l int) KeySpec { return KeySpec{"pfx", Pfx{s.at(k), l}} }
			top := bits - s.Off
			ops := []TabOp{
				{Op: "chain", K: key(5, top-s.W), N: top - s.W + 1, St: 1, V: 9},
				{Op: "fill", K: key(0, top), N: n, St: []int{7919, 1, 3}[(i+j)%3], V: i},
				{Op: "fill", K: key(0, top-1), N: n / 8, St: 1, V: 2},
				{Op: "chain", K: key(n/2, bits), N: bits - 3, St: 1, V: 3},
			}
			more := []TabOp{
				{Op: "drain", K: key(n/16*4, top), N: n / 64, St: 1},
				{Op: "iou", K: key(1, top), V: 7},
				{Op: "iou", K: key(n-1, top), V: 8},
				{Op: "remove", K: key(n/2, top)},
				{Op: "fill", K: key(n/32*32, top-2), N: 8, St: 1, V: 2},
				{Op: "unchain", K: key(n/2, top), N: 20, St: 3},
			}
			emit(s, ops, more)
		}
	}
}

func largeKeys(s Space, n int) (l []KeySpec) {
	for i := 0; i < 2000; i++ {
		a := s.at(i * 7907 % n)
		l = append(l, KeySpec{"addr", Pfx{a, s.bits()}}, KeySpec{"pfx", Pfx{a, s.bits() - s.Off - i%5}})
	}
	return l
}

func fixedLargeC02(tier string, emit func(c02Case)) {
	largeTables(tier, func(s Space, ops, more []TabOp) {
		emit(c02Case{S: s, Init: "new", Ops: append(ops, more...), Q: largeKeys(s, 1<<s.W)})
	})
}

func fixedLargeC03(tier string, emit func(c03Case)) {
	largeTables(tier, func(s Space, ops, more []TabOp) {
		emit(c03Case{S: s, Init: "new", Ops: append(ops, more...), Stop: []int{1, 256, 32768, 65536, 69999}})
	})
}

func fixedLargeC05(tier string, emit func(c05Case)) {
	largeTables(tier, func(s Space, ops, more []TabOp) {
		c := c05Case{S: s, Init: "new", Base: ops, Left: more[:3], Right: more[2:], Stop: []int{1, 65536}}
		emit(c)
		c.Sep, c.Nil = true, 8
		emit(c)
	})
}

func fixedLargeAgg(tier string, emit func(aggCase)) {
	largeTables(tier, func(s Space, ops, more []TabOp) {
		emit(aggCase{S: s, Init: "new", Ops: append(ops, more...)})
		emit(aggCase{S: s, Init: "cmp", Ops: ops, Mod: 2})
	})
}

func fixedLargeC09(tier string, emit func(c09Case)) {
	largeTables(tier, func(s Space, ops, more []TabOp) {
		emit(c09Case{S: s, Init: "new", Ops: append(ops, more...), Fn: 3})
		emit(c09Case{S: s, Init: "new", Ops: ops, Fn: 4, Sel: []Pfx{{s.at(3), s.bits() - s.Off}}})
	})
}

// largeSets emits histories of sets: every other block of many, some blocks and
// a large hole removed, some added in between.
func largeSets(tier string, emit func(s Space, ops, more []setOp)) {
	for i, n := range largeSizes(tier) {
		for j, s := range largePlaces {
			top := s.bits() - s.Off
			pfx := func(k, l int) ArgSpec { return ArgSpec{K: "pfx", P: Pfx{s.at(k), l}} }
			ops := []setOp{
				{Op: "insert", Arg: pfx(1, top), N: n, St: 2 + (i+j)%2},
				{Op: "insert", Arg: pfx(n, top-1), N: n / 100, St: 3},
			}
			more := []setOp{
				{Op: "remove", Arg: ArgSpec{K: "range", R: Iv{s.at(n / 2), s.at(n/2 + n/50)}}},
				{Op: "insert", Arg: ArgSpec{K: "range", R: Iv{s.at(n / 3), s.at(n/3 + n/70)}}},
				{Op: "remove", Arg: pfx(1, top), N: n / 90, St: 4},
				{Op: "insert", Arg: ArgSpec{K: "addr", A: s.at(8)}},
			}
			emit(s, ops, more)
		}
	}
}

func fixedLargeC11(tier string, emit func(c11Case)) {
	largeSets(tier, func(s Space, ops, more []setOp) {
		lit := func(ops []setOp) ArgSpec {
			var m Ivs
			for _, o := range ops {
				m = o.model(s.bits(), m)
			}
			return ArgSpec{K: "set", L: m}
		}
		emit(c11Case{S: s, Steps: []c11Step{
			{Op: "lit", Arg: lit(ops)},
			{Op: "diff", Arg: lit(more)},
			{Op: "inter", Arg: ArgSpec{K: "range", R: Iv{s.at(1000), s.at(100000)}}},
			{Op: "union", I: 0, J: 32, As: "set"},
			{Op: "diff", I: 5, J: 4, As: "mset"},
		}})
	})
}

func fixedLargeC12(tier string, emit func(c12Case)) {
	i := 0
	largeSets(tier, func(s Space, ops, more []setOp) {
		i++
		emit(c12Case{S: s, Ops: append(ops, more...), Order: i % 4, Way: i % 6, Other: []Iv{{s.at(5), s.at(5)}}})
	})
}

func fixedLargeC13(tier string, emit func(c13Case)) {
	largeSets(tier, func(s Space, ops, more []setOp) {
		emit(c13Case{S: s, Ops: append(append(ops, more...), setOp{Op: "insert", Self: 3}, setOp{Op: "remove", Self: 4})})
	})
}

func fixedLargeC15(tier string, emit func(c15Case)) {
	largeSets(tier, func(s Space, ops, more []setOp) {
		emit(c15Case{S: s, Ops: append(ops, more...), Stop: []int{1, 32768, 65535, 65536}})
	})
}

func fixedLargeC16(tier string, emit func(c16Case)) {
	largeSets(tier, func(s Space, ops, more []setOp) {
		emit(c16Case{S: s, Ops: append(ops, more...), P: Pfx{s.Base, 8}, R: Iv{s.at(1), s.at(99999)}, N: []uint32{uint32(s.bits())}})
	})
}

func fixedLargeC17(tier string, emit func(c17Case)) {
	largeSets(tier, func(s Space, ops, more []setOp) {
		c := c17Case{S: s, Ops: append(ops, more...), P: Pfx{s.Base, 8}, R: Iv{s.at(1), s.at(99999)}}
		for i := 0; i < 60; i++ {
			k := i * 7907 & (1<<s.W - 1)
			c.Q = append(c.Q, ArgSpec{K: "addr", A: s.at(k)}, ArgSpec{K: "pfx", P: Pfx{s.at(k), s.bits() - s.Off - i%3}})
		}
		emit(c)
	})
}

func fixedLargeC18(tier string, emit func(c18Case)) {
	largeSets(tier, func(s Space, ops, more []setOp) {
		top := uint32(s.bits() - s.Off)
		n := []uint32{top - 2, top - 1, top, uint32(s.bits()), 3}
		emit(c18Case{S: s, Have: ops, Res: more, N: n})
		emit(c18Case{S: s, Have: []setOp{{Op: "insert", Arg: ArgSpec{K: "pfx", P: Pfx{s.Base, int(top) - s.W}}}}, Res: ops, N: n})
	})
}

// c29Large allocates every block of a pool, frees some and allocates again.
type c29Large struct {
	S     Space
	Pool  int // the pool has 2^Pool blocks
	N     int // blocks which are allocated one by one
	Every int // one of these many is freed
	Extra int // allocations in what was freed
}

func fixedLargeC29(tier string, emit func(c29Large)) {
	for _, n := range largeSizes(tier) {
		for j, s := range largePlaces {
			emit(c29Large{s, 18, n, 2 + j%2, 2000})
		}
	}
}

func runLargeC29(x *X, c c29Large) {
	f := c.S.fam()
	bits := f.Bits()
	top := bits - c.S.Off
	pool := f.ArgPfxSet(Pfx{c.S.Base, top - c.Pool})
	reserved := f.NewMSet()
	held := make([]bool, 1<<c.Pool)
	count := 0
	// free tells if the aligned block of 2^k blocks at i is free
	free := func(i, k int) bool {
		if i < 0 || i>>k<<k != i || i+1<<k > len(held) {
			return false
		}
		for _, h := range held[i : i+1<<k] {
			if h {
				return false
			}
		}
		return true
	}
	// alloc allocates 2^k blocks
	alloc := func(k int) (int, error) {
		p, err := pool.FindAvailable(f.ArgMSet(reserved), uint32(top-k))
		if err != nil {
			return 0, err
		}
		d := p.A.sub(c.S.Base)
		i := int(d.shr(c.S.Off).L)
		if p.N != top-k || p.A.lt(c.S.Base) || d.shr(c.S.Off+c.Pool) != (U{}) || u64(uint64(i)).shl(c.S.Off) != d || !free(i, k) {
			x.Fail("FindAvailablePrefix(%d) returned %v with %d blocks reserved", top-k, p, count)
		}
		reserved.Insert(f.ArgPfx(p))
		for j := i; j < i+1<<k; j++ {
			held[j] = true
		}
		count += 1 << k
		return i, nil
	}
	for n := 0; n < c.N; n++ {
		if _, err := alloc(0); err != nil {
			x.Fail("allocation %d: %v", n, err)
		}
	}
	// what is held is in one place, as blocks are taken from the smallest free one
	for i := 1; i < len(held); i += c.Every {
		if held[i] {
			reserved.Remove(f.ArgPfx(Pfx{c.S.at(i), top}))
			held[i] = false
			count--
		}
	}
	for _, k := range []int{0, 1, c.Pool - 1, 2, c.Pool} {
		want := false
		for i := 0; i < len(held) && !want; i += 1 << k {
			want = free(i, k)
		}
		if _, err := alloc(k); (err == nil) != want {
			x.Fail("allocating 2^%d blocks with %d reserved: %v, want room %v", k, count, err, want)
		}
	}
	single := 0
	for i, h := range held {
		if !h && held[i^1] {
			single++
		}
	}
	for n := 0; n < c.Extra && n < single; n++ {
		i, err := alloc(0)
		if err != nil {
			x.Fail("allocation %d of what was freed: %v", n, err)
		}
		if !held[i^1] {
			x.Fail("block %d was taken from a larger free prefix, %d single blocks are free", i, single-n)
		}
	}
	var want []Iv
	for i := 0; i < len(held); i++ {
		if held[i] {
			want = append(want, Iv{c.S.at(i), c.S.at(i + 1).sub(u64(1))})
		}
	}
	wantSet(x, f, "reserved", reserved.Set(), normIvs(want))
	x.NonTrivial(true)
}
