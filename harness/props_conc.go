package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"

	"pgregory.net/rapid"
)

// group runs functions at the same time and collects the first failure
type group struct {
	wg   sync.WaitGroup
	mu   sync.Mutex
	msg  string
	stop atomic.Bool
}

func (g *group) fail(format string, a ...any) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.msg == "" {
		g.msg = fmt.Sprintf(format, a...)
	}
	g.stop.Store(true)
}

func (g *group) run(f func()) {
	g.wg.Add(1)
	go func() {
		defer g.wg.Done()
		defer g.recover()
		f()
	}()
}

// recover is to be deferred
func (g *group) recover() {
	if r := recover(); r != nil {
		if c, ok := r.(checkFailed); ok {
			g.fail("%s", c.msg)
		} else {
			g.fail("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}
}

func (g *group) wait(x *X) {
	g.wg.Wait()
	if g.msg != "" {
		x.Fail("%s", g.msg)
	}
}

// history lets readers find which states they may have seen
type clock struct{ started, done atomic.Int64 }

// ---- C25, tables

type c25Case struct {
	S       Space
	Ops     []TabOp
	Repeat  int
	Queries []KeySpec
	Readers int
}

func genC25(t *rapid.T) c25Case {
	c := c25Case{S: genSpace(t, 5), Repeat: ri(t, 1, 12), Readers: ri(t, 2, 4)}
	c.Ops = slice(t, []int{4, 12, 30}, genTabOp(c.S, 4, 0))
	c.Queries = slice(t, []int{1, 4}, func(t *rapid.T) KeySpec { return c.S.key(t) })
	return c
}

// readTable reads a table in one of several ways. The functions says if the
// result is right for a state.
func readTable(f Fam, t MTabV[int], q KeySpec, way int) (what string, match func(m Tab[int]) bool) {
	bits := f.Bits()
	k := q.P.net(bits)
	walk := func(tab TabV[int]) (Tab[int], bool) {
		out := Tab[int]{}
		last, ordered := Pfx{}, true
		tab.Walk(func(p Pfx, v int) bool {
			p = p.net(bits)
			if len(out) > 0 && !last.less(p) {
				ordered = false
			}
			last = p
			out[p] = v
			return true
		})
		return out, ordered
	}
	eq := func(a, b Tab[int]) bool {
		if len(a) != len(b) {
			return false
		}
		for k, v := range a {
			if w, ok := b[k]; !ok || v != w {
				return false
			}
		}
		return true
	}
	switch way % 6 {
	case 0:
		v, ok := t.Get(q.make(f))
		return fmt.Sprintf("Get(%v) = %v, %v", q, v, ok), func(m Tab[int]) bool {
			w, wok := m[k]
			return ok == wok && (!ok || v == w)
		}
	case 1:
		v, ok, p := t.LongestMatch(q.make(f))
		return fmt.Sprintf("LongestMatch(%v) = %v, %v, %v", q, v, ok, p), func(m Tab[int]) bool {
			wp, w, wok := m.lpm(bits, q.P)
			return ok == wok && (!ok || v == w && wp == p.net(bits))
		}
	case 2:
		n := t.NumEntries()
		return fmt.Sprintf("NumEntries() = %d", n), func(m Tab[int]) bool { return n == int64(len(m)) }
	case 3:
		snap := t.Table()
		got, ordered := walk(snap)
		n := snap.NumEntries()
		v, ok := snap.Get(q.make(f))
		return fmt.Sprintf("Table() walks %v, NumEntries %d, Get(%v) = %v, %v", got, n, q, v, ok), func(m Tab[int]) bool {
			w, wok := m[k]
			return ordered && eq(got, m) && n == int64(len(m)) && ok == wok && (!ok || v == w)
		}
	case 4:
		// a clone is written to while the original is as well
		cl := t.Table().Mut()
		cl.InsertOrUpdate(q.make(f), 99)
		got, ordered := walk(cl.Table())
		return fmt.Sprintf("clone with %v walks %v", q, got), func(m Tab[int]) bool {
			m = m.clone()
			m[k] = 99
			return ordered && eq(got, m)
		}
	}
	a := t.Table()
	got, ordered := walk(a)
	same := 0
	fin := a.Diff(a.Map(func(p Pfx, v int) int { return v }), func(p Pfx, l, r int) bool { return false },
		func(p Pfx, l int) bool { return false }, func(p Pfx, l int) bool { return false },
		func(p Pfx, l int) bool { same++; return true })
	return fmt.Sprintf("Table() walks %v, %d the same in a mapped copy", got, same), func(m Tab[int]) bool {
		return ordered && eq(got, m) && fin && same == len(m)
	}
}

func runC25(x *X, c c25Case) {
	f := c.S.fam()
	n := newNorm(x, f)
	// all states
	var ops []TabOp
	for i := 0; i < c.Repeat; i++ {
		for _, op := range c.Ops {
			op.V += i
			ops = append(ops, op)
		}
	}
	model := Tab[int]{}
	dry := newMTable[int](f)
	states := []Tab[int]{{}}
	for _, op := range ops {
		op.apply(x, f, n, dry, model)
		states = append(states, model.clone())
	}
	t := newMTable[int](f)
	ck := &clock{}
	g := &group{}
	var overlap atomic.Int64
	for r := 0; r < c.Readers; r++ {
		r := r
		g.run(func() {
			type kept struct {
				snap TabV[int]
				n    int64
				lo   int64
				hi   int64
			}
			var keep []kept
			for i := r; !g.stop.Load(); i++ {
				q := c.Queries[i%len(c.Queries)]
				lo := ck.done.Load()
				what, match := readTable(f, t, q, i/len(c.Queries))
				var snap TabV[int]
				if i%7 == 0 && len(keep) < 8 {
					snap = t.Table()
				}
				hi := ck.started.Load()
				if hi > lo {
					overlap.Add(1)
				}
				ok := false
				for s := lo; s <= hi && !ok; s++ {
					ok = match(states[s])
				}
				if !ok {
					g.fail("a reader got %s which is none of the states %d to %d: %v ... %v", what, lo, hi, states[lo], states[hi])
					return
				}
				if snap != nil {
					keep = append(keep, kept{snap, snap.NumEntries(), lo, hi})
				}
				if lo == int64(len(ops)) && i > r+20 {
					break
				}
			}
			for _, k := range keep {
				ok := false
				got := Tab[int]{}
				for _, e := range entriesOf(k.snap) {
					got[e.P.net(f.Bits())] = e.V
				}
				for s := k.lo; s <= k.hi && !ok; s++ {
					ok = len(states[s]) == len(got)
					for p, v := range states[s] {
						w, has := got[p]
						ok = ok && has && v == w
					}
				}
				if !ok || k.n != int64(len(got)) || k.snap.NumEntries() != k.n {
					g.fail("a snapshot has %v at the end, NumEntries was %d, is %d", got, k.n, k.snap.NumEntries())
				}
			}
		})
	}
	g.run(func() {
		wx := &X{}
		m := Tab[int]{}
		for _, op := range ops {
			if g.stop.Load() {
				return
			}
			ck.started.Add(1)
			op.apply(wx, f, n, t, m)
			ck.done.Add(1)
			if len(m)&3 == 0 {
				runtime.Gosched()
			}
		}
	})
	g.wait(x)
	x.LabelIf(overlap.Load() > 0, "a read overlaps a write")
	x.LabelIf(overlap.Load() > 20, "more than 20 reads overlap a write")
	x.NonTrivial(overlap.Load() > 0)
}

// ---- C25, sets

type c25Set struct {
	S       Space
	Base    []setOp `json:",omitempty"` // before there are readers
	Ops     []setOp
	Repeat  int
	Queries []ArgSpec
	Readers int
}

func genC25Set(t *rapid.T) c25Set {
	c := c25Set{S: genSpace(t, 5), Repeat: ri(t, 1, 8), Readers: ri(t, 2, 4)}
	if chance(t, 3) {
		// reading takes longer
		c.Base = slice(t, []int{1, 2}, genSetOp(c.S, 300))
	}
	c.Ops = slice(t, []int{4, 12}, genSetOp(c.S, 0))
	c.Queries = slice(t, []int{1, 4}, func(t *rapid.T) ArgSpec { return c.S.arg(t) })
	return c
}

// between returns sets which are not among the states but larger than one and
// smaller than the next one
func between(states []Ivs) (out []Ivs) {
	for i := 1; i < len(states) && len(out) < 6; i++ {
		a, b := states[i-1], states[i]
		if len(b.minus(a)) == 0 {
			a, b = b, a
		}
		d := b.minus(a)
		if len(a.minus(b)) > 0 || len(d) == 0 {
			continue
		}
		if len(d) > 1 {
			d = d[:1]
		} else if d[0].Lo != d[0].Hi {
			d = Ivs{{d[0].Lo, d[0].Lo}}
		} else {
			continue
		}
		out = append(out, a.union(d))
	}
	return out
}

func readSet(f Fam, s MSetV, q ArgSpec, way int) (what string, match func(m Ivs) bool) {
	am := q.model(f.Bits())
	walk := func(s SetV) (l Ivs) {
		s.WalkRanges(func(v Iv) bool { l = append(l, v); return true })
		return l
	}
	switch way % 8 {
	case 0:
		got := s.Contains(q.make(f))
		return fmt.Sprintf("Contains(%v) = %v", q, got), func(m Ivs) bool { return got == (len(am.minus(m)) == 0) }
	case 1:
		got := s.IsEmpty()
		return fmt.Sprintf("IsEmpty() = %v", got), func(m Ivs) bool { return got == (len(m) == 0) }
	case 2:
		n, ok := s.NumAddresses()
		return fmt.Sprintf("NumAddresses() = %v", n), func(m Ivs) bool { return !ok || m.size().IsInt64() && m.size().Int64() == n }
	case 3:
		got := walk(s.Union(q.make(f)))
		return fmt.Sprintf("Union(%v) = %v", q, got), func(m Ivs) bool { return got.eq(m.union(am)) }
	case 4:
		got := walk(s.Intersection(q.make(f)))
		return fmt.Sprintf("Intersection(%v) = %v", q, got), func(m Ivs) bool { return got.eq(m.intersect(am)) }
	case 5:
		got := walk(s.Difference(q.make(f)))
		return fmt.Sprintf("Difference(%v) = %v", q, got), func(m Ivs) bool { return got.eq(m.minus(am)) }
	case 6:
		o := buildSet(f, am)
		got := s.Equal(o)
		return fmt.Sprintf("Equal(%v) = %v", am, got), func(m Ivs) bool { return got == m.eq(am) }
	}
	a := s.Set()
	got := walk(a)
	b := a.Mut()
	b.Remove(q.make(f))
	rest := walk(b.Set())
	return fmt.Sprintf("Set() = %v, without %v %v", got, q, rest), func(m Ivs) bool { return got.eq(m) && rest.eq(m.minus(am)) }
}

func runC25Set(x *X, c c25Set) {
	f := c.S.fam()
	var ops []setOp
	for i := 0; i < c.Repeat; i++ {
		ops = append(ops, c.Ops...)
	}
	s := f.NewMSet()
	states := []Ivs{nil}
	for _, op := range c.Base {
		op.apply(f, s)
		states[0] = op.model(f.Bits(), states[0])
	}
	for _, op := range ops {
		states = append(states, op.model(f.Bits(), states[len(states)-1]))
	}
	var never []MSetV // equal to none of the states
	for _, m := range between(states[:min(len(states), len(c.Ops)+1)]) {
		is := false
		for _, st := range states {
			is = is || st.eq(m)
		}
		if !is {
			never = append(never, buildSet(f, m))
		}
	}
	ck := &clock{}
	g := &group{}
	var overlap atomic.Int64
	for r := 0; r < c.Readers; r++ {
		r := r
		g.run(func() {
			for i := r; !g.stop.Load(); i++ {
				q := c.Queries[i%len(c.Queries)]
				if len(never) > 0 && i%3 == 2 {
					if o := never[i/3%len(never)]; s.Equal(o) || o.Equal(s) {
						g.fail("a reader got Equal with %v, the set never had these addresses", contents(x, f, o.Set()))
						return
					}
					i++
				}
				lo := ck.done.Load()
				what, match := readSet(f, s, q, i/len(c.Queries))
				hi := ck.started.Load()
				if hi > lo {
					overlap.Add(1)
				}
				ok := false
				for s := lo; s <= hi && !ok; s++ {
					ok = match(states[s])
				}
				if !ok {
					g.fail("a reader got %s which is none of the states %d to %d: %v ... %v", what, lo, hi, states[lo], states[hi])
					return
				}
				if lo == int64(len(ops)) && i > r+20 {
					break
				}
			}
		})
	}
	g.run(func() {
		for i, op := range ops {
			if g.stop.Load() {
				return
			}
			ck.started.Add(1)
			op.apply(f, s)
			ck.done.Add(1)
			if i&3 == 0 {
				runtime.Gosched()
			}
		}
	})
	g.wait(x)
	x.LabelIf(overlap.Load() > 0, "a read overlaps a write")
	x.NonTrivial(overlap.Load() > 0)
}

// ---- C25, reads at a known point in the middle of a write

type c25In struct {
	S     Space
	Ops   []TabOp
	Op    TabOp
	Sets  []setOp
	Arg   ArgSpec
	Rem   bool
	Q     []KeySpec
	QA    []ArgSpec
	AtCmp bool
}

func genC25In(t *rapid.T) c25In {
	s := genSpace(t, 5)
	c := c25In{S: s, Rem: rapid.Bool().Draw(t, "rem"), AtCmp: rapid.Bool().Draw(t, "cmp")}
	gop := genTabOp(s, 4, 0)
	c.Ops = slice(t, []int{1, 5, 15}, gop)
	c.Op = gop(t)
	c.Op.K.K = "pfx"
	c.Sets = slice(t, []int{1, 5}, genSetOp(s, 0))
	c.Arg = s.arg(t)
	c.Q = slice(t, []int{1, 3}, func(t *rapid.T) KeySpec { return s.key(t) })
	c.QA = slice(t, []int{1, 3}, func(t *rapid.T) ArgSpec { return s.arg(t) })
	return c
}

func runC25In(x *X, c c25In) {
	f := c.S.fam()
	bits := f.Bits()
	n := newNorm(x, f)
	var inside func()
	t := newMTableCmp(f, func(a, b int) bool {
		if inside != nil && c.AtCmp {
			inside()
		}
		return a == b
	})
	m := Tab[int]{}
	for _, op := range c.Ops {
		op.apply(x, f, n, t, m)
	}
	before := m.clone()
	after := m.clone()
	dry := newMTable[int](f)
	for _, k := range m.keys() {
		dry.Insert(f.KeyPfx(k), m[k])
	}
	c.Op.apply(x, f, n, dry, after)
	reads := 0
	check := func() {
		save := inside
		inside = nil
		defer func() { inside = save }()
		for i, q := range c.Q {
			for way := 0; way < 6; way++ {
				what, match := readTable(f, t, q, way)
				if !match(before) && !match(after) {
					x.Fail("in the middle of %v, read %d is %s; before %v, after %v", c.Op, i, what, before, after)
				}
				reads++
			}
		}
	}
	key := f.KeyFunc(func() Pfx {
		if !c.AtCmp {
			check()
		}
		return c.Op.K.P
	})
	inside = check
	switch c.Op.Op {
	case "insert":
		t.Insert(key, c.Op.V)
	case "update":
		t.Update(key, c.Op.V)
	case "iou":
		t.InsertOrUpdate(key, c.Op.V)
	case "goi":
		t.GetOrInsert(key, c.Op.V)
	case "remove":
		t.Remove(key)
	}
	inside = nil
	wantTable[int](x, "after "+c.Op.Op, normTab[int]{t.Table(), n}, after)

	// sets
	s := f.NewMSet()
	var sm Ivs
	for _, o := range c.Sets {
		o.apply(f, s)
		sm = o.model(bits, sm)
	}
	am := c.Arg.model(bits)
	sAfter := sm.union(am)
	if c.Rem {
		sAfter = sm.minus(am)
	}
	arg := f.ArgFunc(func() SetV {
		for i, q := range c.QA {
			for way := 0; way < 8; way++ {
				what, match := readSet(f, s, q, way)
				if !match(sm) && !match(sAfter) {
					x.Fail("in the middle of a write with %v, read %d is %s; before %v, after %v", c.Arg, i, what, sm, sAfter)
				}
				reads++
			}
		}
		return buildSet(f, am).Set()
	})
	if c.Rem {
		s.Remove(arg)
	} else {
		s.Insert(arg)
	}
	wantSet(x, f, "Set_ after the write", s.Set(), sAfter)
	x.LabelIf(reads > 0, "reads in the middle of a write")
	x.NonTrivial(reads > 0 && len(before) > 0)
}

// ---- C26, writes in the middle of a write

type c26Case struct {
	S     Space
	Base  []TabOp
	Op    TabOp
	In    []TabOp // what another writer does in the middle
	AtCmp int     // at which call to the comparator, or 0 for when the key is read
}

func genC26(t *rapid.T) c26Case {
	s := genSpace(t, 4)
	c := c26Case{S: s, AtCmp: ri(t, 0, 2)}
	gop := genTabOp(s, 4, 0)
	c.Base = slice(t, []int{0, 2, 6}, gop)
	c.Op = gop(t)
	c.Op.K.K = "pfx"
	c.In = slice(t, []int{1, 1, 2}, gop)
	if chance(t, 5) { // and back again
		for i := len(c.In) - 1; i >= 0; i-- {
			o := c.In[i]
			o.Op = oneOf(t, "remove", "insert", "iou")
			c.In = append(c.In, o)
		}
	}
	if chance(t, 6) && len(c.Base) > 0 {
		c.Op.K.P = c.Base[ri(t, 0, len(c.Base)-1)].K.P
		c.Op.Op = oneOf(t, "update", "iou", "goi", "remove", "insert")
	}
	return c
}

type opResult struct {
	B bool
	V int
}

func (op TabOp) do(t MTabV[int], key Key) (r opResult) {
	switch op.Op {
	case "insert":
		r.B = t.Insert(key, op.V)
	case "update":
		r.B = t.Update(key, op.V)
	case "iou":
		t.InsertOrUpdate(key, op.V)
	case "goi":
		r.V = t.GetOrInsert(key, op.V)
	case "remove":
		r.B = t.Remove(key)
	}
	return r
}

// model applies the operation to the model
func (op TabOp) model(bits int, m Tab[int]) (r opResult) {
	k := op.K.P.net(bits)
	old, had := m[k]
	switch op.Op {
	case "insert":
		if r.B = !had; r.B {
			m[k] = op.V
		}
	case "update":
		if r.B = had; had {
			m[k] = op.V
		}
	case "iou":
		m[k] = op.V
	case "goi":
		if !had {
			m[k] = op.V
			old = op.V
		}
		r.V = old
	case "remove":
		r.B = had
		delete(m, k)
	}
	return r
}

func tabEq(a, b Tab[int]) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func runC26(x *X, c c26Case) {
	f := c.S.fam()
	bits := f.Bits()
	n := newNorm(x, f)
	var hook func()
	t := newMTableCmp(f, func(a, b int) bool {
		if hook != nil {
			hook()
		}
		return a == b
	})
	base := Tab[int]{}
	for _, op := range c.Base {
		op.apply(x, f, n, t, base)
	}
	for _, op := range append(c.In[:len(c.In):len(c.In)], c.Op) {
		n.saw(op.K.P)
	}
	happened, inPanic := false, false
	inModel := base.clone()
	other := func() {
		hook = nil
		happened = true
		for _, op := range c.In {
			r := op.do(t, op.K.make(f))
			// there's no other writer at this point
			if w := op.model(bits, inModel); r != w {
				inPanic = true
				x.Fail("%v in the middle of %v returned %v, want %v", op, c.Op, r, w)
			}
		}
	}
	calls := 0
	if c.AtCmp > 0 {
		hook = func() {
			if calls++; calls == c.AtCmp {
				other()
			}
		}
	}
	key := f.KeyFunc(func() Pfx {
		if c.AtCmp == 0 && !happened {
			other()
		}
		return c.Op.K.P
	})
	var res opResult
	panicked := mustPanic(func() { res = c.Op.do(t, key) })
	hook = nil
	if inPanic {
		x.Fail("a write in the middle of another one failed")
	}
	got := Tab[int]{}
	for _, e := range entriesOf(t.Table()) {
		got[e.P.net(bits)] = e.V
	}
	if int64(len(got)) != t.NumEntries() {
		x.Fail("NumEntries is %d with %d entries", t.NumEntries(), len(got))
	}
	if !happened {
		m := base.clone()
		w := c.Op.model(bits, m)
		if panicked || res != w || !tabEq(got, m) {
			x.Fail("%v without another writer: panic %v, result %v, want %v, entries %v, want %v", c.Op, panicked, res, w, got, m)
		}
		return
	}
	x.Label("two writers")
	if panicked {
		x.Label("detected")
		if !tabEq(got, inModel) {
			x.Fail("%v panicked but the entries are %v, the other writer left %v", c.Op, got, inModel)
		}
		// it's still usable
		after := TabOp{Op: "iou", K: KeySpec{"pfx", c.Op.K.P}, V: 5}
		after.apply(x, f, n, t, inModel)
		wantTable[int](x, "after the panic", normTab[int]{t.Table(), n}, inModel)
		x.NonTrivial(true)
		return
	}
	// It must be as if one happened after the other
	m1 := inModel.clone()
	r1 := c.Op.model(bits, m1)
	m2 := base.clone()
	r2 := c.Op.model(bits, m2)
	for _, op := range c.In {
		op.model(bits, m2)
	}
	if !(r1 == res && tabEq(got, m1)) && !(r2 == res && tabEq(got, m2)) {
		x.Fail("%v = %v with another writer doing %v: entries %v, want %v (%v) or %v (%v)", c.Op, res, c.In, got, m1, r1, m2, r2)
	}
	x.LabelIf(tabEq(inModel, base), "the other writer changed nothing")
	x.NonTrivial(!tabEq(inModel, base))
}

// the same with sets
type c26Set struct {
	S    Space
	Base []setOp
	Arg  ArgSpec
	Rem  bool
	In   []setOp
}

func genC26Set(t *rapid.T) c26Set {
	s := genSpace(t, 4)
	c := c26Set{S: s, Arg: s.arg(t), Rem: rapid.Bool().Draw(t, "rem")}
	c.Base = slice(t, []int{0, 2, 4}, genSetOp(s, 0))
	c.In = slice(t, []int{1, 1, 2}, genSetOp(s, 0))
	if chance(t, 5) {
		for i := len(c.In) - 1; i >= 0; i-- {
			o := c.In[i]
			o.Op = map[string]string{"insert": "remove", "remove": "insert"}[o.Op]
			c.In = append(c.In, o)
		}
	}
	return c
}

func runC26Set(x *X, c c26Set) {
	f := c.S.fam()
	bits := f.Bits()
	s := f.NewMSet()
	var base Ivs
	for _, o := range c.Base {
		o.apply(f, s)
		base = o.model(bits, base)
	}
	happened := false
	in := base
	am := c.Arg.model(bits)
	arg := f.ArgFunc(func() SetV {
		if !happened {
			happened = true
			for _, o := range c.In {
				o.apply(f, s)
				in = o.model(bits, in)
			}
		}
		return buildSet(f, am).Set()
	})
	outer := func(m Ivs) Ivs {
		if c.Rem {
			return m.minus(am)
		}
		return m.union(am)
	}
	panicked := mustPanic(func() {
		if c.Rem {
			s.Remove(arg)
		} else {
			s.Insert(arg)
		}
	})
	if !happened {
		x.Fail("the argument was not used")
	}
	got := contents(x, f, s.Set())
	if panicked {
		x.Label("detected")
		if !got.eq(in) {
			x.Fail("a write panicked but the set is %v, the other writer left %v", got, in)
		}
		s.Insert(f.ArgAddr(am.loOr(U{})))
		wantSet(x, f, "after the panic", s.Set(), in.union(Ivs{{am.loOr(U{}), am.loOr(U{})}}))
		x.NonTrivial(true)
		return
	}
	m1, m2 := outer(in), outer(base)
	for _, o := range c.In {
		m2 = o.model(bits, m2)
	}
	if !got.eq(m1) && !got.eq(m2) {
		x.Fail("with another writer the set is %v, want %v or %v", got, m1, m2)
	}
	x.NonTrivial(!in.eq(base))
}

func (s Ivs) loOr(a U) U {
	if len(s) > 0 {
		return s[0].Lo
	}
	return a
}

// ---- C26, threads

type c26Threads struct {
	S       Space
	Kind    string // table, set
	Writers int
	N       int // writes of each
	Common  []TabOp
}

func genC26Threads(t *rapid.T) c26Threads {
	c := c26Threads{S: genSpace(t, 3), Kind: oneOf(t, "table", "set"), Writers: ri(t, 2, 4), N: ri(t, 5, 120)}
	c.S.W = 3
	return c
}

// Each writer has its own keys, so that what should be there at the end follows
// from which of the writes returned.
func runC26Threads(x *X, c c26Threads) {
	f := c.S.fam()
	bits := f.Bits()
	key := func(w, i int) Pfx {
		// keys of all writers are next to each other
		return Pfx{c.S.Base.add(u64(uint64(2 * (i%40*c.Writers + w)))).and(ones(bits)), bits}
	}
	if c.S.bits()-c.S.Off < 10 { // enough room
		c.S.Base = U{}
	}
	var panics, oks atomic.Int64
	try := func(g *group, do func()) (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if cf, is := r.(checkFailed); is {
					panic(cf)
				}
				if _, is := r.(runtime.Error); is {
					g.fail("a write failed with %v\n%s", r, trimStack(string(debug.Stack())))
				}
				panics.Add(1)
			}
		}()
		do()
		oks.Add(1)
		return true
	}
	g := &group{}
	if c.Kind == "set" {
		s := f.NewMSet()
		want := make([][]Iv, c.Writers)
		for w := 0; w < c.Writers; w++ {
			w := w
			g.run(func() {
				has := map[U]bool{}
				for i := 0; i < c.N && !g.stop.Load(); i++ {
					a := key(w, i).A
					if has[a] {
						if try(g, func() { s.Remove(f.ArgAddr(a)) }) {
							delete(has, a)
						}
					} else if try(g, func() { s.Insert(f.ArgAddr(a)) }) {
						has[a] = true
					}
				}
				for a := range has {
					want[w] = append(want[w], Iv{a, a})
				}
			})
		}
		g.wait(x)
		var all []Iv
		for _, l := range want {
			all = append(all, l...)
		}
		wantSet(x, f, fmt.Sprintf("%d writers, %d writes, %d detected", c.Writers, oks.Load(), panics.Load()), s.Set(), normIvs(all))
	} else {
		t := newMTable[int](f)
		want := make([]Tab[int], c.Writers)
		for w := 0; w < c.Writers; w++ {
			w := w
			g.run(func() {
				m := Tab[int]{}
				for i := 0; i < c.N && !g.stop.Load(); i++ {
					op := TabOp{K: KeySpec{"pfx", key(w, i)}, V: i}
					op.Op = []string{"insert", "iou", "goi", "update", "remove"}[(i/40+i)%5]
					if i < 40 {
						op.Op = "insert"
					}
					var r opResult
					if try(g, func() { r = op.do(t, op.K.make(f)) }) {
						if w := op.model(bits, m); w != r {
							g.fail("%v returned %v, want %v", op, r, w)
							return
						}
					}
					if v, ok := t.Get(op.K.make(f)); ok != (m.has(op.K.P)) || ok && v != m[op.K.P] {
						g.fail("after %v, Get is %v, %v; want %v", op, v, ok, m[op.K.P])
						return
					}
				}
				want[w] = m
			})
		}
		g.wait(x)
		all := Tab[int]{}
		for _, m := range want {
			for k, v := range m {
				all[k] = v
			}
		}
		wantTable(x, fmt.Sprintf("%d writers, %d writes, %d detected", c.Writers, oks.Load(), panics.Load()), t.Table(), all)
	}
	x.LabelIf(panics.Load() > 0, "concurrent writes detected")
	x.LabelIf(panics.Load() > 10, "concurrent writes detected more than 10 times")
	x.NonTrivial(panics.Load() > 0)
}

func (t Tab[T]) has(p Pfx) bool { _, ok := t[p]; return ok }

// ---- C25, writes at a known point in the middle of a read: when the argument
// is turned into a prefix or a set

type c25Rd struct {
	S    Space
	Ops  []TabOp
	Act  []TabOp
	Sets []setOp
	SAct []setOp
	Q    KeySpec
	Arg  ArgSpec
	N    int
}

func genC25Rd(t *rapid.T) c25Rd {
	s := genSpace(t, 4)
	c := c25Rd{S: s, Q: s.key(t), Arg: s.arg(t), N: s.length(t)}
	c.Ops = slice(t, []int{1, 4, 10}, genTabOp(s, 4, 0))
	c.Act = slice(t, []int{1, 2, 4}, genTabOp(s, 4, 0))
	c.Sets = slice(t, []int{0, 1, 4}, genSetOp(s, 0))
	c.SAct = slice(t, []int{1, 2, 4}, genSetOp(s, 0))
	return c
}

func runC25Rd(x *X, c c25Rd) {
	f := c.S.fam()
	bits := f.Bits()
	n := newNorm(x, f)
	n.saw(c.Q.P)
	changed := false
	for way := 0; way < 2; way++ {
		t, m := buildTable(x, f, n, "new", c.Ops)
		states := []Tab[int]{m.clone()}
		acts := c.Act
		key := f.KeyFunc(func() Pfx {
			for _, op := range acts {
				op.apply(x, f, n, t, m)
				states = append(states, m.clone())
			}
			acts = nil
			return c.Q.P
		})
		ok := false
		what := ""
		if way == 0 {
			v, found := t.Get(key)
			what = fmt.Sprintf("Get(%v) = %v, %v", c.Q, v, found)
			for _, m := range states {
				w, has := m[c.Q.P.net(bits)]
				ok = ok || has == found && (!has || v == w)
			}
		} else {
			v, found, p := t.LongestMatch(key)
			what = fmt.Sprintf("LongestMatch(%v) = %v, %v, %v", c.Q, v, found, p)
			for _, m := range states {
				wp, w, has := m.lpm(bits, c.Q.P)
				ok = ok || has == found && (!has || v == w && p == wp)
			}
		}
		if !ok {
			x.Fail("%s while the table is changed, none of the states %v", what, states)
		}
		wantTable(x, "after "+what, t.Table(), m)
	}
	am := c.Arg.model(bits)
	for way := 0; way < 5; way++ {
		s := f.NewMSet()
		var m Ivs
		for _, o := range c.Sets {
			o.apply(f, s)
			m = o.model(bits, m)
		}
		states := []Ivs{m}
		acts := c.SAct
		arg := f.ArgFunc(func() SetV {
			for _, o := range acts {
				o.apply(f, s)
				m = o.model(bits, m)
				states = append(states, m)
			}
			acts = nil
			return buildSet(f, am).Set()
		})
		ok, what := false, ""
		var got SetV
		var want func(m Ivs) Ivs
		switch way {
		case 0:
			got, want = s.Union(arg), am.union
			what = "Union"
		case 1:
			got, want = s.Intersection(arg), am.intersect
			what = "Intersection"
		case 2:
			got, want = s.Difference(arg), func(m Ivs) Ivs { return m.minus(am) }
			what = "Difference"
		case 3:
			got := s.Contains(arg)
			what = fmt.Sprintf("Contains = %v", got)
			for _, m := range states {
				ok = ok || got == (len(am.minus(m)) == 0)
			}
		case 4:
			var l Ivs
			s.Set().FindAvailable(arg, uint32(c.N))
			s.Set().WalkRanges(func(v Iv) bool { l = append(l, v); return true })
			what = fmt.Sprintf("Set() = %v", l)
			ok = l.eq(m)
		}
		if got != nil {
			l := contents(x, f, got)
			for _, m := range states {
				ok = ok || l.eq(want(m))
			}
			what += fmt.Sprintf(" = %v", l)
		}
		if !ok {
			x.Fail("%s with %v while the set is changed, none of the states %v", what, am, states)
		}
		wantSet(x, f, "after "+what, s.Set(), m)
		changed = changed || !states[0].eq(m)
	}
	x.LabelIf(changed, "the set has changed during a read")
	x.NonTrivial(changed)
}
