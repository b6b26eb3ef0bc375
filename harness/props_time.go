package main

import (
	"runtime"
	"syscall"
	"time"
	"unsafe"
)

// atLeast is how long f takes: the time that passed or the processor time of
// the thread, whichever is less. A machine which is busy with something else
// has little influence on the latter.
func atLeast(f func()) time.Duration {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	cpu, ok := threadTime()
	t := time.Now()
	f()
	d := time.Since(t)
	if end, is := threadTime(); ok && is && end-cpu < d {
		d = end - cpu
	}
	return d
}

// threadTime is the processor time of the current thread
func threadTime() (time.Duration, bool) {
	const threadClock = 3
	var ts syscall.Timespec
	_, _, e := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, threadClock, uintptr(unsafe.Pointer(&ts)), 0)
	return time.Duration(ts.Nano()), e == 0
}

// ---- C06, time

// timeCase is a table or set with N entries. Whatever should follow the
// changes instead of the size takes a small fraction of the time that it takes
// to visit all entries once: about a thousandth of it where N is 60,000.
type timeCase struct {
	F    string
	Kind string
	N    int
	Len  int
	Nest bool
	St   int
}

func fixedTime(tier string, emit func(timeCase)) {
	n := 60000
	if tier == "thorough" {
		n = 300000
	}
	for _, f := range []string{"v4", "v6"} {
		bits := fams[f].Bits()
		for _, l := range []int{bits, bits - 7} {
			emit(timeCase{f, "table", n, l, false, 1})
			emit(timeCase{f, "table", n, l, true, 7919})
			emit(timeCase{f, "set", n, l, false, 1})
			emit(timeCase{f, "set", n, l, false, 7919})
		}
	}
}

func (c timeCase) key(bits, i int) Pfx {
	p := Pfx{u64(uint64(i)).shl(bits - c.Len).or(u64(5).shl(bits - 4)), c.Len}
	if c.Nest && i%7 == 0 {
		p.N -= 5
	}
	return p.net(bits)
}

// fast fails if f never takes less than a tenth of the time limit. A machine
// which is busy with something else only makes single tries slow.
func fast(x *X, c timeCase, whole time.Duration, what string, f func()) {
	limit := whole / 10
	best := time.Duration(1 << 62)
	for i := 0; i < 60; i++ {
		if i == 5 {
			runtime.GC()
		}
		if d := atLeast(f); d < best {
			best = d
		}
		if best <= limit {
			return
		}
	}
	x.Fail("%s takes at least %v with %d entries; visiting every entry takes %v", what, best, c.N, whole)
}

// longest is how long f takes, the shortest of a few
func howLong(f func()) time.Duration {
	best := time.Duration(1 << 62)
	for i := 0; i < 5; i++ {
		s := time.Now()
		f()
		if d := time.Since(s); d < best {
			best = d
		}
	}
	return best
}

func runTime(x *X, c timeCase) {
	x.Label(c.Kind)
	x.NonTrivial(true)
	f := fams[c.F]
	for _, n := range []int{4000, c.N} {
		c.N = n // a small one first, in case that it's very slow
		if c.Kind == "set" {
			c.set(x, f)
		} else {
			c.table(x, f)
		}
	}
}

func (c timeCase) table(x *X, f Fam) {
	bits := f.Bits()
	t := newMTable[int](f)
	for j := 0; j < c.N; j++ {
		i := j * c.St % c.N
		t.InsertOrUpdate(f.KeyPfx(c.key(bits, 2*i)), i)
	}
	full := t.Table()
	count := 0
	whole := howLong(func() {
		count = 0
		full.Walk(func(Pfx, int) bool { count++; return true })
	})
	if count == 0 {
		x.Fail("nothing was visited")
	}
	var keepT TabV[int]
	var keepM MTabV[int]
	fast(x, c, whole, "Table_.Table", func() { keepT = t.Table() })
	fast(x, c, whole, "Table.Table_", func() { keepM = full.Mut() })
	fast(x, c, whole, "Build", func() { keepT = full.Build(func(MTabV[int]) bool { return true }) })
	fast(x, c, whole, "Build with a change", func() {
		keepT = full.Build(func(m MTabV[int]) bool { m.InsertOrUpdate(f.KeyPfx(c.key(bits, 0)), -1); return true })
	})
	for _, i := range []int{0, c.N/2&^1 + 1, 2*c.N - 2} {
		k := c.key(bits, i)
		a := f.KeyPfx(k)
		fast(x, c, whole, "Insert", func() { full.Mut().Insert(a, -1) })
		fast(x, c, whole, "Update", func() { full.Mut().Update(a, -1) })
		fast(x, c, whole, "InsertOrUpdate", func() { full.Mut().InsertOrUpdate(a, -1) })
		fast(x, c, whole, "GetOrInsert", func() { full.Mut().GetOrInsert(a, -1) })
		fast(x, c, whole, "Remove", func() { full.Mut().Remove(a) })
		fast(x, c, whole, "Get", func() { full.Get(a) })
		fast(x, c, whole, "LongestMatch", func() { full.LongestMatch(f.KeyPfx(Pfx{k.A, bits})) })
		fast(x, c, whole, "Table_.Get", func() { t.Get(a) })
		fast(x, c, whole, "Table_.LongestMatch", func() { t.LongestMatch(f.KeyPfx(Pfx{k.A, bits})) })
		fast(x, c, whole, "a Walk which stops at once", func() { full.Walk(func(Pfx, int) bool { return false }) })
	}
	// diffs
	some := func(Pfx, int) bool { return true }
	ch := func(Pfx, int, int) bool { return true }
	diff := func(what string, l, r TabV[int]) {
		fast(x, c, whole, what, func() { l.Diff(r, ch, some, some, nil) })
		fast(x, c, whole, what+" (other side)", func() { r.Diff(l, ch, some, some, nil) })
		fast(x, c, whole, what+" (no handlers)", func() { l.Diff(r, nil, nil, nil, nil) })
	}
	diff("Diff of identical tables", full, t.Table())
	work := full.Mut()
	for i, j := range []int{0, 1, c.N/3&^1 + 1, c.N / 2 &^ 1, 2*c.N - 2} {
		a := f.KeyPfx(c.key(bits, j))
		if i%2 == 0 {
			work.InsertOrUpdate(a, -1)
		} else {
			work.Remove(a)
		}
		diff("Diff after changes", full, work.Table())
	}
	work.InsertOrUpdate(f.KeyPfx(Pfx{U{}, 0}), 1)
	diff("Diff after the default route was added", full, work.Table())
	same := full.Map(func(_ Pfx, v int) int { return v })
	diff("Diff after Map to the same values", full, same)
	at := c.key(bits, c.N/2&^1)
	one := full.Map(func(p Pfx, v int) int {
		if p == at {
			return -5
		}
		return v
	})
	diff("Diff after Map which changed one value", full, one)
	runtime.KeepAlive(keepT)
	runtime.KeepAlive(keepM)
}

func (c timeCase) set(x *X, f Fam) {
	bits := f.Bits()
	s := f.NewMSet()
	for j := 0; j < c.N; j++ {
		i := j * c.St % c.N
		s.Insert(f.ArgPfx(c.key(bits, 2*i)))
	}
	full := s.Set()
	count := 0
	whole := howLong(func() {
		count = 0
		full.WalkPrefixes(func(Pfx) bool { count++; return true })
	})
	if count == 0 {
		x.Fail("nothing was visited")
	}
	var keepS SetV
	var keepM MSetV
	fast(x, c, whole, "Set_.Set", func() { keepS = s.Set() })
	fast(x, c, whole, "Set.Set_", func() { keepM = full.Mut() })
	fast(x, c, whole, "Set.Set", func() { keepS = full.Set() })
	fast(x, c, whole, "Build", func() { keepS = full.Build(func(MSetV) bool { return true }) })
	for _, i := range []int{0, 1, c.N/2&^1 + 1, c.N / 2 &^ 1, 2*c.N - 2} {
		a := f.ArgPfx(c.key(bits, i))
		fast(x, c, whole, "Insert", func() { full.Mut().Insert(a) })
		fast(x, c, whole, "Remove", func() { full.Mut().Remove(a) })
		fast(x, c, whole, "Union", func() { full.Union(a) })
		fast(x, c, whole, "Difference", func() { full.Difference(a) })
		fast(x, c, whole, "Build with a change", func() {
			keepS = full.Build(func(m MSetV) bool { m.Remove(a); return true })
		})
	}
	fast(x, c, whole, "a walk which stops at once", func() { full.WalkPrefixes(func(Pfx) bool { return false }) })
	fast(x, c, whole, "a walk of ranges which stops at once", func() { full.WalkRanges(func(Iv) bool { return false }) })
	runtime.KeepAlive(keepS)
	runtime.KeepAlive(keepM)
}
