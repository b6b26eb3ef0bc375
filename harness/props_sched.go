package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Schedules are controlled in these parts: there is a call in front of every
// statement of the packages (see tools/yield), only one thread runs at a time,
// and the case says after how many statements which thread goes on. They are
// run by a program of their own, whose build uses an overlay.

// Preempt is where another thread goes on
type Preempt struct {
	Steps int // statements since the last one, or -1 for the end of an operation
	To    int // thread, not counting those which are done
}

type scheduler struct {
	cur   int
	alive []bool
	turn  []chan struct{}
	pre   []Preempt
	left  int // statements to the next preemption
	atEnd bool
	run   int // statements since another thread ran
	used  int // preemptions so far
	freed atomic.Bool
	free  chan struct{}
	steps atomic.Int64
}

// The limit is for code which waits for another thread in a loop
const schedQuantum = 20000

var (
	schedNow      atomic.Pointer[scheduler]
	schedMonitor  sync.Once
	schedBreakage atomic.Int64
)

func schedOpEnd() {
	if s := schedNow.Load(); s != nil {
		s.opEnd()
	}
}

func schedYield() {
	if s := schedNow.Load(); s != nil {
		s.yield()
	}
}

// pick returns the thread after n others, or -1 if all are done
func (s *scheduler) pick(from, n int) int {
	live := 0
	for _, a := range s.alive {
		if a {
			live++
		}
	}
	if live == 0 {
		return -1
	}
	for n %= live; ; from++ {
		if i := from % len(s.alive); s.alive[i] {
			if n == 0 {
				return i
			}
			n--
		}
	}
}

func (s *scheduler) arm() {
	s.left, s.atEnd = -1, false
	if len(s.pre) > 0 {
		s.left = s.pre[0].Steps
		s.atEnd = s.left < 0
	}
}

func (s *scheduler) yield() {
	if s.freed.Load() {
		return
	}
	s.steps.Add(1)
	s.run++
	if s.left == 0 {
		s.preempt()
		return
	}
	if s.left > 0 {
		s.left--
	}
	if s.run > schedQuantum {
		s.handOver(s.pick(s.cur+1, 0))
	}
}

// opEnd is called by a thread after an operation
func (s *scheduler) opEnd() {
	if !s.freed.Load() && s.atEnd {
		s.preempt()
	}
}

func (s *scheduler) preempt() {
	live := 0
	for _, a := range s.alive {
		if a {
			live++
		}
	}
	to := -1
	if live > 1 {
		to = s.pick(s.cur+1, s.pre[0].To%(live-1))
	}
	s.pre = s.pre[1:]
	s.used++
	s.arm()
	s.handOver(to)
}

func (s *scheduler) handOver(to int) {
	me := s.cur
	s.run = 0
	if to == me || to < 0 {
		return
	}
	s.cur = to
	s.wake(to)
	s.wait(me)
}

func (s *scheduler) wake(t int) {
	select {
	case s.turn[t] <- struct{}{}:
	default:
	}
}

func (s *scheduler) wait(me int) {
	select {
	case <-s.turn[me]:
	case <-s.free:
	}
}

func (s *scheduler) done(me int) {
	if s.freed.Load() {
		return
	}
	s.alive[me] = false
	s.run = 0
	if to := s.pick(me+1, 0); to >= 0 {
		s.cur = to
		s.wake(to)
	}
}

// monitor lets the threads run as they like if the one whose turn it is waits
// for another one, such as for a lock. What they do is checked in any case.
func monitor() {
	var last *scheduler
	steps, ticks := int64(0), 0
	for {
		time.Sleep(10 * time.Millisecond)
		s := schedNow.Load()
		if s == nil {
			last = nil
			continue
		}
		if n := s.steps.Load(); s != last || n != steps {
			last, steps, ticks = s, n, 0
			continue
		}
		if ticks++; ticks == 20 && !s.freed.Swap(true) {
			schedBreakage.Add(1)
			close(s.free)
		}
	}
}

// schedule runs threads in the order which is given by the preemptions. It
// returns how many preemptions and statements there were.
func schedule(first int, pre []Preempt, threads ...func()) (used, steps int, controlled bool) {
	schedMonitor.Do(func() { go monitor() })
	s := &scheduler{cur: first % len(threads), pre: pre, free: make(chan struct{})}
	s.arm()
	var wg sync.WaitGroup
	for range threads {
		s.alive = append(s.alive, true)
		s.turn = append(s.turn, make(chan struct{}, 1))
	}
	if schedBreakage.Load() > 20 {
		s.freed.Store(true)
		close(s.free)
	}
	wg.Add(len(threads))
	schedNow.Store(s)
	for i, f := range threads {
		go func() {
			defer wg.Done()
			s.wait(i)
			f()
			s.done(i)
		}()
	}
	s.wake(s.cur)
	wg.Wait()
	schedNow.Store(nil)
	return s.used, int(s.steps.Load()), !s.freed.Load()
}

// histOp is an operation of a thread and when it was
type histOp[S any] struct {
	thread     int
	write      bool
	start, end int64
	panicked   string
	what       string
	match      func(S) (S, bool) // the state after it, and if the result is right
}

// linearize looks for an order of the operations that explains all results
func linearize[S any](ops []*histOp[S], state S, final func(S) bool) bool {
	done := make([]bool, len(ops))
	var rec func(left int, state S) bool
	rec = func(left int, state S) bool {
		if left == 0 {
			return final(state)
		}
		min := int64(1 << 62)
		for i, op := range ops {
			if !done[i] && op.end < min {
				min = op.end
			}
		}
		for i, op := range ops {
			if done[i] || op.start > min {
				continue
			}
			next, ok := op.match(state)
			if !ok {
				continue
			}
			done[i] = true
			if rec(left-1, next) {
				return true
			}
			done[i] = false
		}
		return false
	}
	return rec(len(ops), state)
}

// record runs operations of a thread
type recorder[S any] struct {
	clock atomic.Int64
	mu    sync.Mutex
	ops   []*histOp[S]
	bad   string
}

func (r *recorder[S]) do(thread int, write bool, what string, f func() (string, func(S) (S, bool))) {
	op := &histOp[S]{thread: thread, write: write, what: what, start: r.clock.Add(1)}
	func() {
		defer func() {
			if e := recover(); e != nil {
				op.panicked = fmt.Sprint(e)
				if _, is := e.(runtime.Error); is || !write {
					r.fail(fmt.Sprintf("%s failed with %v\n%s", what, e, trimStack(string(debug.Stack()))))
				}
			}
		}()
		res, match := f()
		op.what += res
		op.match = match
	}()
	op.end = r.clock.Add(1)
	r.mu.Lock()
	r.ops = append(r.ops, op)
	r.mu.Unlock()
	schedOpEnd()
}

func (r *recorder[S]) fail(msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.bad == "" {
		r.bad = msg
	}
}

func (r *recorder[S]) String() string {
	var s strings.Builder
	for _, op := range r.ops {
		fmt.Fprintf(&s, "  thread %d, %d-%d: %s", op.thread, op.start, op.end, op.what)
		if op.panicked != "" {
			fmt.Fprintf(&s, " panic: %s", op.panicked)
		}
		s.WriteString("\n")
	}
	return s.String()
}

// check returns what's wrong with the history
func (r *recorder[S]) check(init S, final func(S) bool) (msg string, detected, overlap bool) {
	if r.bad != "" {
		return r.bad, false, false
	}
	var ok []*histOp[S]
	for _, op := range r.ops {
		with := false
		for _, o := range r.ops {
			if o != op && o.start < op.end && op.start < o.end {
				overlap = true
				with = with || o.write
			}
		}
		if op.panicked == "" {
			ok = append(ok, op)
			continue
		}
		detected = true
		if !with {
			return fmt.Sprintf("%s panicked without another write at the same time: %s", op.what, op.panicked), true, overlap
		}
	}
	if !linearize(ok, init, final) {
		return "no order of the operations explains what they returned and what's there at the end", detected, overlap
	}
	return "", detected, overlap
}

// ---- tables

// ways of readTable and readSet
const tableWays, setWays = 6, 8

type schedOp struct {
	W *TabOp   `json:",omitempty"`
	Q *KeySpec `json:",omitempty"` // read in one of the ways
	R int      `json:",omitempty"`
}

// schedCase is a schedule of threads with operations on one table
type schedCase struct {
	S    Space
	Base []TabOp `json:",omitempty"`
	Th   [][]schedOp
	Sch  Schedules
	// Stride is for cases which stand for many schedules: two preemptions are
	// at multiples of it
	Stride int `json:",omitempty"`
}

func few[T any](t *rapid.T, max int, gen func(t *rapid.T) T) []T {
	return rapid.SliceOfN(rapid.Custom(gen), 1, max).Draw(t, "few")
}

// Schedules are those which a case is run with
type Schedules struct {
	First int       // the thread which starts
	Pre   []Preempt `json:",omitempty"`
	Seed  uint64    // of further schedules
	Tries int
}

func genSchedules(t *rapid.T) Schedules {
	s := Schedules{First: ri(t, 0, 2), Seed: rapid.Uint64().Draw(t, "seed"), Tries: 16}
	max := oneOf(t, 5, 60, 60, 120, 400)
	s.Pre = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Preempt {
		if chance(t, 4) {
			return Preempt{-1, ri(t, 0, 1)}
		}
		return Preempt{ri(t, 0, oneOf(t, 3, max, max, max)), ri(t, 0, 1)}
	}), 1, 6).Draw(t, "pre")
	return s
}

// each calls f, which returns how many statements were executed
func (s Schedules) each(f func(first int, pre []Preempt) int) {
	steps := f(s.First, s.Pre)
	r := s.Seed
	n := func(n int) int {
		r = splitmix(r)
		return int(r >> 33 % uint64(n))
	}
	for i := 0; i < s.Tries; i++ {
		max := []int{20, 40, 60, 120, 300, steps/2 + 1, steps + 1}[n(7)]
		var pre []Preempt
		for j := 1 + n(5); j > 0; j-- {
			p := Preempt{n(max), n(2)}
			switch n(8) {
			case 0, 1, 2:
				p.Steps = -1
			case 3:
				p.Steps %= 4
			}
			pre = append(pre, p)
		}
		f(n(3), pre)
	}
}

func genSched(writers bool) func(t *rapid.T) schedCase {
	return func(t *rapid.T) schedCase {
		c := schedCase{S: genSpace(t, 3)}
		gop := genTabOp(c.S, 4, 0)
		c.Base = slice(t, []int{0, 1, 3, 8}, gop)
		var pool []KeySpec
		for _, op := range c.Base {
			pool = append(pool, op.K)
		}
		for i := ri(t, 1, 3); i > 0; i-- {
			pool = append(pool, c.S.key(t))
		}
		if chance(t, 6) { // everything is about one key
			pool = pool[len(pool)-1:]
		}
		var last *TabOp
		write := func(t *rapid.T) schedOp {
			op := gop(t)
			if !chance(t, 4) {
				op.K = pool[ri(t, 0, len(pool)-1)]
			}
			if last != nil && chance(t, 5) { // undo the last one
				op.K, op.Op = last.K, "remove"
				if last.Op == "remove" {
					op.Op = "insert"
				}
			}
			last = &op
			return schedOp{W: &op}
		}
		// sometimes all reads are the same
		same := -1
		if chance(t, 5) {
			same = ri(t, 0, tableWays+1)
		}
		read := func(t *rapid.T) schedOp {
			k := c.S.key(t)
			if same >= 0 {
				return schedOp{Q: &pool[0], R: same}
			}
			if !chance(t, 3) {
				k = pool[ri(t, 0, len(pool)-1)]
			}
			return schedOp{Q: &k, R: ri(t, 0, tableWays+1)}
		}
		mixed := func(t *rapid.T) schedOp {
			if chance(t, 4) {
				return read(t)
			}
			return write(t)
		}
		if writers {
			c.Th = append(c.Th, few(t, 3, mixed), few(t, 3, write))
			if chance(t, 4) {
				c.Th = append(c.Th, few(t, 2, mixed))
			}
		} else {
			c.Th = append(c.Th, few(t, 4, write), few(t, 3, read))
			if same >= 0 || chance(t, 4) {
				c.Th = append(c.Th, few(t, 3, read))
			}
		}
		c.Sch = genSchedules(t)
		return c
	}
}

type schedResult struct {
	msg                string
	used, runs, steps  int
	detected, overlap  bool
	controlled, broken bool
}

// runTableSched runs one schedule
func (c schedCase) run(x *X, f Fam, n *norm, first int, pre []Preempt) (res schedResult) {
	bits := f.Bits()
	t := newMTable[int](f)
	base := Tab[int]{}
	for _, op := range c.Base {
		op.apply(x, f, n, t, base)
	}
	r := &recorder[Tab[int]]{}
	var threads []func()
	for i, ops := range c.Th {
		threads = append(threads, func() {
			for _, op := range ops {
				if op.W != nil {
					w := *op.W
					r.do(i, true, fmt.Sprintf("%s(%v, %d)", w.Op, w.K, w.V), func() (string, func(Tab[int]) (Tab[int], bool)) {
						got := w.do(t, w.K.make(f))
						return fmt.Sprintf(" = %v", got), func(m Tab[int]) (Tab[int], bool) {
							m = m.clone()
							want := w.model(bits, m)
							return m, want == got
						}
					})
					continue
				}
				r.do(i, false, "read", func() (string, func(Tab[int]) (Tab[int], bool)) {
					if op.R >= tableWays {
						// a copy which is looked at when all is done
						snap := t.Table()
						if op.R > tableWays {
							snap = snap.Mut().Table()
						}
						var got Tab[int]
						return ": a copy", func(m Tab[int]) (Tab[int], bool) {
							if got == nil {
								got = Tab[int]{}
								for _, e := range entriesOf(snap) {
									got[e.P.net(bits)] = e.V
								}
							}
							return m, tabEq(got, m) && snap.NumEntries() == int64(len(m))
						}
					}
					what, match := readTable(f, t, *op.Q, op.R)
					return ": " + what, func(m Tab[int]) (Tab[int], bool) { return m, match(m) }
				})
			}
		})
	}
	res.used, res.steps, res.controlled = schedule(first, pre, threads...)
	got := Tab[int]{}
	for _, e := range entriesOf(t.Table()) {
		got[e.P.net(bits)] = e.V
	}
	if int64(len(got)) != t.NumEntries() {
		res.msg = fmt.Sprintf("NumEntries is %d with %d entries\n%s", t.NumEntries(), len(got), r)
		return res
	}
	res.msg, res.detected, res.overlap = r.check(base, func(m Tab[int]) bool { return tabEq(m, got) })
	if res.msg != "" {
		res.msg += fmt.Sprintf("\nbefore: %v\n%safter: %v", base, r, got)
	}
	return res
}

// add counts in another schedule
func (r *schedResult) add(x *X, first int, pre []Preempt, o schedResult) (steps int) {
	if o.msg != "" {
		x.Fail("thread %d starts, preemptions %v: %s", first, pre, o.msg)
	}
	r.overlap = r.overlap || o.overlap && o.controlled
	r.detected = r.detected || o.detected
	r.broken = r.broken || !o.controlled
	r.runs++
	return o.steps
}

func (r *schedResult) labels(x *X) {
	x.LabelIf(r.broken, "not controlled")
	x.LabelIf(r.detected, "concurrent writes detected")
	x.LabelIf(r.overlap, "operations overlap")
	x.NonTrivial(r.overlap)
}

func runSched(x *X, c schedCase) {
	f := c.S.fam()
	n := newNorm(x, f)
	var sum schedResult
	c.Sch.each(func(first int, pre []Preempt) int {
		return sum.add(x, first, pre, c.run(x, f, n, first, pre))
	})
	sum.labels(x)
}

// ---- sets

type schedSetOp struct {
	W *setOp   `json:",omitempty"`
	Q *ArgSpec `json:",omitempty"`
	R int      `json:",omitempty"`
}

type schedSetCase struct {
	S    Space
	Base []setOp `json:",omitempty"`
	Th   [][]schedSetOp
	Sch  Schedules
}

func genSchedSet(writers bool) func(t *rapid.T) schedSetCase {
	return func(t *rapid.T) schedSetCase {
		c := schedSetCase{S: genSpace(t, 3)}
		gop := genSetOp(c.S, 0)
		c.Base = slice(t, []int{0, 1, 2, 4}, gop)
		write := func(t *rapid.T) schedSetOp {
			op := gop(t)
			return schedSetOp{W: &op}
		}
		// sometimes all reads are the same
		same, one := -1, c.S.arg(t)
		if chance(t, 5) {
			same = ri(t, 0, setWays+1)
		}
		read := func(t *rapid.T) schedSetOp {
			a := c.S.arg(t)
			if same >= 0 {
				return schedSetOp{Q: &one, R: same}
			}
			return schedSetOp{Q: &a, R: ri(t, 0, setWays+1)}
		}
		mixed := func(t *rapid.T) schedSetOp {
			if chance(t, 4) {
				return read(t)
			}
			return write(t)
		}
		if writers {
			c.Th = append(c.Th, few(t, 3, mixed), few(t, 3, write))
			if chance(t, 4) {
				c.Th = append(c.Th, few(t, 2, mixed))
			}
		} else {
			c.Th = append(c.Th, few(t, 4, write), few(t, 3, read))
			if same >= 0 || chance(t, 4) {
				c.Th = append(c.Th, few(t, 3, read))
			}
		}
		c.Sch = genSchedules(t)
		return c
	}
}

func (c schedSetCase) run(x *X, f Fam, first int, pre []Preempt) (res schedResult) {
	bits := f.Bits()
	s := f.NewMSet()
	var base Ivs
	for _, op := range c.Base {
		op.apply(f, s)
		base = op.model(bits, base)
	}
	r := &recorder[Ivs]{}
	var threads []func()
	for i, ops := range c.Th {
		threads = append(threads, func() {
			for _, op := range ops {
				if op.W != nil {
					w := *op.W
					r.do(i, true, fmt.Sprintf("%v", w), func() (string, func(Ivs) (Ivs, bool)) {
						w.apply(f, s)
						return "", func(m Ivs) (Ivs, bool) { return w.model(bits, m), true }
					})
					continue
				}
				r.do(i, false, "read", func() (string, func(Ivs) (Ivs, bool)) {
					if op.R >= setWays {
						snap := s.Set()
						if op.R > setWays {
							snap = snap.Mut().Set()
						}
						var got Ivs
						seen := false
						return ": a copy", func(m Ivs) (Ivs, bool) {
							if !seen {
								got, seen = contents(x, f, snap), true
							}
							return m, got.eq(m)
						}
					}
					what, match := readSet(f, s, *op.Q, op.R)
					return ": " + what, func(m Ivs) (Ivs, bool) { return m, match(m) }
				})
			}
		})
	}
	res.used, res.steps, res.controlled = schedule(first, pre, threads...)
	got := contents(x, f, s.Set())
	res.msg, res.detected, res.overlap = r.check(base, func(m Ivs) bool { return m.eq(got) })
	if res.msg != "" {
		res.msg += fmt.Sprintf("\nbefore: %v\n%safter: %v", base, r, got)
	}
	return res
}

func runSchedSet(x *X, c schedSetCase) {
	f := c.S.fam()
	var sum schedResult
	c.Sch.each(func(first int, pre []Preempt) int {
		return sum.add(x, first, pre, c.run(x, f, first, pre))
	})
	sum.labels(x)
}

// ---- every schedule with up to two preemptions of two short threads

// fixedSchedPairs has all pairs of short threads over keys which are the same,
// nested or next to each other
func fixedSchedPairs(writers bool) func(tier string, emit func(schedCase)) {
	return func(tier string, emit func(schedCase)) {
		for _, fam := range []string{"v4", "v6"} {
			s := Space{F: fam, Off: 8, W: 2, Base: u64(0x0a000000)}
			bits := s.bits()
			top := Pfx{s.Base, bits - 10}
			low := Pfx{s.Base, bits - 9}
			key := func(p Pfx) KeySpec { return KeySpec{"pfx", p} }
			bases := [][]TabOp{
				nil,
				{{Op: "insert", K: key(low), V: 1}},
				{{Op: "insert", K: key(top), V: 1}, {Op: "insert", K: key(low), V: 2}},
				{{Op: "insert", K: key(Pfx{s.Base.add(u64(0x100)), bits - 8}), V: 3}, {Op: "insert", K: key(low), V: 1}},
			}
			var writes []schedOp
			for _, op := range []string{"insert", "iou", "goi", "update", "remove"} {
				for _, k := range []Pfx{low, top} {
					writes = append(writes, schedOp{W: &TabOp{Op: op, K: key(k), V: 5}})
				}
			}
			var other []schedOp
			if writers {
				for _, w := range writes {
					o := *w.W
					o.V = 6
					other = append(other, schedOp{W: &o})
				}
			} else {
				for way := 0; way <= tableWays; way++ {
					k := key(Pfx{s.Base, bits - 9})
					other = append(other, schedOp{Q: &k, R: way})
				}
			}
			stride := 4
			if tier == "thorough" {
				stride = 1
			}
			for _, base := range bases {
				for _, a := range writes {
					for _, b := range other {
						emit(schedCase{S: s, Base: base, Th: [][]schedOp{{a}, {b}}, Stride: stride})
						if writers || tier != "thorough" {
							continue
						}
						for _, a2 := range writes {
							emit(schedCase{S: s, Base: base, Th: [][]schedOp{{a, a2}, {b}}, Stride: 5})
						}
					}
				}
			}
		}
	}
}

// runSchedPairs runs all schedules with one preemption, and those with two which
// are at multiples of the stride
func runSchedPairs(x *X, c schedCase) {
	f := c.S.fam()
	n := newNorm(x, f)
	var sum schedResult
	for first := 0; first < 2; first++ {
		run := func(pre ...Preempt) int {
			res := c.run(x, f, n, first, pre)
			sum.add(x, first, pre, res)
			return res.used
		}
		for i := 0; run(Preempt{i, 0}) == 1; i++ {
			if i%c.Stride != 0 {
				continue
			}
			for j := i / c.Stride % c.Stride; run(Preempt{i, 0}, Preempt{j, 0}) == 2; j += c.Stride {
			}
		}
	}
	sum.labels(x)
	x.LabelIf(sum.runs > 1000, "more than 1000 schedules")
	x.LabelIf(sum.runs > 10000, "more than 10000 schedules")
}

// ---- schedules of a reader, a writer, and another reader which does the same

// eachTrio runs schedules in which the first reader is stopped at each of its
// statements, a write happens, the second reader reads once, and goes on when
// the first one has done a few more statements
func eachTrio(x *X, run func(first int, pre []Preempt) schedResult) {
	var sum schedResult
	at := func(pre ...Preempt) int {
		res := run(0, pre)
		sum.add(x, 0, pre, res)
		return res.used
	}
	for i := 0; i < 500; i++ {
		end := Preempt{-1, 0}
		used := at(Preempt{i, 0}, end, end)
		if used == 0 {
			break
		}
		for k := 0; k < 5 && at(Preempt{i, 0}, end, end, Preempt{k, 1}) == 4; k++ {
		}
	}
	sum.labels(x)
	x.LabelIf(sum.runs > 100, "more than 100 schedules")
}

func runTrio(x *X, c schedCase) {
	f := c.S.fam()
	n := newNorm(x, f)
	eachTrio(x, func(first int, pre []Preempt) schedResult { return c.run(x, f, n, first, pre) })
}

func runTrioSet(x *X, c schedSetCase) {
	f := c.S.fam()
	eachTrio(x, func(first int, pre []Preempt) schedResult { return c.run(x, f, first, pre) })
}

func fixedTrios(tier string, emit func(schedCase)) {
	for _, fam := range []string{"v4", "v6"} {
		s := Space{F: fam, Off: 8, W: 2, Base: u64(0x0a000000)}
		bits := s.bits()
		low, top := Pfx{s.Base, bits - 9}, Pfx{s.Base, bits - 10}
		key := func(p Pfx) KeySpec { return KeySpec{"pfx", p} }
		bases := [][]TabOp{
			{{Op: "insert", K: key(low), V: 1}},
			{{Op: "insert", K: key(top), V: 1}, {Op: "insert", K: key(Pfx{s.Base.add(u64(0x100)), bits - 8}), V: 3}},
		}
		writes := []TabOp{
			{Op: "iou", K: key(low), V: 5},
			{Op: "iou", K: key(top), V: 5},
			{Op: "remove", K: key(low)},
		}
		for _, base := range bases {
			for _, w := range writes {
				for way := 0; way <= tableWays+1; way++ {
					for _, k := range []KeySpec{key(low), key(Pfx{s.Base, bits})} {
						r := schedOp{Q: &k, R: way}
						emit(schedCase{S: s, Base: base, Th: [][]schedOp{{r}, {{W: &w}}, {r, r}}})
					}
				}
			}
		}
	}
}

func fixedTrioSets(tier string, emit func(schedSetCase)) {
	for _, fam := range []string{"v4", "v6"} {
		s := Space{F: fam, Off: 8, W: 2, Base: u64(0x0a000000)}
		bits := s.bits()
		low, top := Pfx{s.Base, bits - 9}, Pfx{s.Base, bits - 10}
		arg := func(p Pfx) ArgSpec { return ArgSpec{K: "pfx", P: p} }
		bases := [][]setOp{
			{{Op: "insert", Arg: arg(low)}},
			{{Op: "insert", Arg: arg(Pfx{s.Base, bits})}, {Op: "insert", Arg: arg(Pfx{s.Base.add(u64(0x100)), bits - 8})}},
		}
		writes := []setOp{
			{Op: "insert", Arg: arg(top)},
			{Op: "insert", Arg: arg(Pfx{s.Base.add(u64(0x200)), bits})},
			{Op: "remove", Arg: arg(low)},
		}
		for _, base := range bases {
			for _, w := range writes {
				for way := 0; way <= setWays+1; way++ {
					for _, a := range []ArgSpec{arg(low), arg(Pfx{s.Base, bits}), {K: "set", L: []Iv{{s.Base, s.Base.add(u64(0x1ff))}}}} {
						r := schedSetOp{Q: &a, R: way}
						emit(schedSetCase{S: s, Base: base, Th: [][]schedSetOp{{r}, {{W: &w}}, {r, r}}})
					}
				}
			}
		}
	}
}
