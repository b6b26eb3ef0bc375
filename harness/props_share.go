package main

import (
	"encoding/json"
	"fmt"
	"net"
	"strings"

	"gopkg.in/addrs.v1/ip"
	"pgregory.net/rapid"
)

// ---- C33: several goroutines use the same fixed values, and mutable ones of
// their own

type c33Step struct {
	K    string
	I, J int      // which of the shared ones
	Key  *KeySpec `json:",omitempty"`
	Arg  *ArgSpec `json:",omitempty"`
	Op   *TabOp   `json:",omitempty"`
	SOp  *setOp   `json:",omitempty"`
	N    int
	Text *string `json:",omitempty"`
}

type c33Case struct {
	S       Space
	Tabs    [][]TabOp // each is made from the one before
	Sets    [][]setOp
	Nets    []Pfx
	Threads [][]c33Step
	Repeat  int
}

var c33Kinds = []string{
	"get", "match", "walk", "diff", "map", "aggregate", "build", "write", "write", "write", "restart",
	"union", "intersection", "difference", "contains", "equal", "count", "prefixes", "ranges", "addresses", "available", "text", "set-build", "set-write", "set-write", "set-restart",
	"prefix", "range", "parse", "net",
}

// With one, the goroutines do only a few steps and once
func genC33(bulk int, one bool) func(t *rapid.T) c33Case {
	return func(t *rapid.T) c33Case {
		c := c33Case{S: genSpace(t, 5), Repeat: ri(t, 1, 6)}
		for i := ri(t, 1, 3); i > 0; i-- {
			c.Tabs = append(c.Tabs, slice(t, []int{2, 6, 12}, genTabOp(c.S, 3, bulk)))
			c.Nets = append(c.Nets, c.S.pfx(t))
			c.Sets = append(c.Sets, slice(t, []int{1, 3, 6}, genSetOp(c.S, bulk)))
		}
		// often the same few things
		kinds := c33Kinds
		if chance(t, 6) {
			kinds = slice(t, []int{2, 4}, func(t *rapid.T) string { return oneOf(t, c33Kinds...) })
			if len(kinds) == 0 {
				kinds = c33Kinds
			}
		}
		step := func(t *rapid.T) c33Step {
			s := c33Step{K: oneOf(t, kinds...), I: ri(t, 0, 5), J: ri(t, 0, 5), N: ri(t, 0, 140)}
			switch s.K {
			case "get", "match", "build", "prefix":
				k := c.S.key(t)
				s.Key = &k
			case "write":
				op := genTabOp(c.S, 3, 0)(t)
				s.Op = &op
			case "set-write", "set-build":
				op := genSetOp(c.S, 0)(t)
				s.SOp = &op
			case "parse":
				f := c.S.fam()
				text := oneOf(t, f.Pfx(c.S.pfx(t)).String(), f.Addr(c.S.addr(t)).String(), "::ffff:10.0.0.1/120", "10.0.0.256", "2001:db8::/129", "")
				s.Text = &text
			case "walk", "diff", "map", "aggregate", "equal", "count", "prefixes", "ranges", "addresses", "text", "restart", "set-restart", "net":
			default:
				a := c.S.arg(t)
				s.Arg = &a
			}
			return s
		}
		n := ri(t, 2, 4)
		if one {
			n = ri(t, 2, 3)
			c.Repeat = 1
		}
		for len(c.Threads) < n {
			if one {
				c.Threads = append(c.Threads, few(t, 4, step))
			} else {
				c.Threads = append(c.Threads, slice(t, []int{4, 8, 16}, step))
			}
		}
		if chance(t, 4) {
			// all do the same
			for i := range c.Threads {
				c.Threads[i] = c.Threads[0]
			}
		}
		return c
	}
}

// c33Shared is what the goroutines share
type c33Shared struct {
	tabs []TabV[int]
	sets []SetV
	nets []*net.IPNet
}

func (c c33Case) shared(x *X, f Fam, n *norm) (s c33Shared, tabs []Tab[int], sets []Ivs) {
	t, m := newMTable[int](f), Tab[int]{}
	for _, ops := range c.Tabs {
		t = t.Table().Mut()
		m = m.clone()
		for _, op := range ops {
			op.apply(x, f, n, t, m)
		}
		s.tabs = append(s.tabs, t.Table())
		tabs = append(tabs, m)
	}
	for _, p := range c.Nets {
		s.nets = append(s.nets, f.Pfx(p).ToNetIPNet())
	}
	ms, im := f.NewMSet(), Ivs(nil)
	for _, ops := range c.Sets {
		ms = ms.Set().Mut()
		for _, op := range ops {
			op.apply(f, ms)
			im = op.model(f.Bits(), im)
		}
		s.sets = append(s.sets, ms.Set())
		sets = append(sets, im)
	}
	return s, tabs, sets
}

// c33Own is what belongs to one goroutine
type c33Own struct {
	tab MTabV[int]
	set MSetV
}

// do does one step and returns what it gave
func (s c33Step) do(f Fam, sh c33Shared, own *c33Own) string {
	var b strings.Builder
	log := func(format string, a ...any) { fmt.Fprintf(&b, format+";", a...) }
	bits := f.Bits()
	t, u := sh.tabs[s.I%len(sh.tabs)], sh.tabs[s.J%len(sh.tabs)]
	a, o := sh.sets[s.I%len(sh.sets)], sh.sets[s.J%len(sh.sets)]
	entry := func(what string) func(p Pfx, v int) bool {
		n := 0
		return func(p Pfx, v int) bool {
			log("%s %v:%v", what, p, v)
			n++
			return s.N%4 != 3 || n < s.N
		}
	}
	walk := func(t TabV[int]) { log("%v", t.Walk(entry(""))) }
	list := func(s SetV) {
		for _, p := range prefixesOf(s) {
			log("%v", p)
		}
	}
	switch s.K {
	case "get":
		v, ok := t.Get(s.Key.make(f))
		log("%v %v", v, ok)
	case "match":
		v, ok, p := t.LongestMatch(s.Key.make(f))
		log("%v %v %v %v", v, ok, p, t.NumEntries())
	case "walk":
		walk(t)
	case "diff":
		same := entry("same")
		if s.N%2 == 0 {
			same = nil
		}
		log("%v", t.Diff(u, func(p Pfx, a, b int) bool {
			log("changed %v:%v-%v", p, a, b)
			return true
		}, entry("left"), entry("right"), same))
	case "map":
		walk(t.Map(func(p Pfx, v int) int { return v / (1 + s.N%2) }))
	case "aggregate":
		walk(t.Aggregate())
	case "build":
		walk(t.Build(func(m MTabV[int]) bool {
			m.InsertOrUpdate(s.Key.make(f), s.N)
			m.Remove(f.KeyPfx(Pfx{s.Key.P.A, s.Key.P.N / 2}))
			return s.N%5 > 0
		}))
	case "write":
		k := s.Op.K.make(f)
		switch s.Op.Op {
		case "insert":
			log("%v", own.tab.Insert(k, s.Op.V))
		case "update":
			log("%v", own.tab.Update(k, s.Op.V))
		case "iou":
			own.tab.InsertOrUpdate(k, s.Op.V)
		case "goi":
			log("%v", own.tab.GetOrInsert(k, s.Op.V))
		default:
			log("%v", own.tab.Remove(k))
		}
		v, ok, p := own.tab.LongestMatch(s.Op.K.make(f))
		log("%v %v %v %v", v, ok, p, own.tab.NumEntries())
	case "restart":
		walk(own.tab.Table())
		own.tab = t.Mut()
	case "union":
		list(a.Union(s.Arg.make(f)))
		list(a.Union(f.ArgSet(o)))
	case "intersection":
		list(a.Intersection(s.Arg.make(f)))
		list(a.Intersection(f.ArgSet(o)))
	case "difference":
		list(a.Difference(s.Arg.make(f)))
		list(a.Difference(f.ArgSet(o)))
	case "contains":
		log("%v %v", a.Contains(s.Arg.make(f)), a.Contains(f.ArgSet(o)))
	case "equal":
		log("%v %v", a.Equal(o), o.Equal(a))
	case "count":
		n, ok := a.NumAddresses()
		m, err := a.NumPrefixes(uint32(s.N))
		log("%v %v %v %v %v", n, ok, m, err != nil, a.IsEmpty())
	case "prefixes":
		list(a)
	case "ranges":
		log("%v", a.WalkRanges(func(v Iv) bool {
			log("%v", v)
			return true
		}))
	case "addresses":
		n := 0
		fin, ok := a.WalkAddresses(func(u U) bool {
			log("%v", u)
			n++
			return n < 40
		})
		log("%v %v", fin, ok)
	case "available":
		p, err := a.FindAvailable(s.Arg.make(f), uint32(s.N%(bits+2)))
		log("%v %v", p, err != nil)
		p, err = a.FindAvailable(f.ArgSet(o), uint32(s.N%(bits+2)))
		log("%v %v", p, err != nil)
	case "text":
		log("%v", a)
	case "set-build":
		list(a.Build(func(m MSetV) bool {
			s.SOp.apply(f, m)
			return s.N%5 > 0
		}))
	case "set-write":
		s.SOp.apply(f, own.set)
		log("%v %v", own.set.IsEmpty(), own.set.Contains(f.ArgSet(a)))
	case "set-restart":
		list(own.set.Set())
		own.set = a.Mut()
	case "prefix":
		p := f.Pfx(s.Key.P)
		x, y := p.Halves()
		n, err := p.NumPrefixes(uint32(s.N))
		w, m := p.Uint()
		log("%v %v %v %v %v %v %v %v %v %v %v", p, p.Address(), p.Network(), p.Host(), p.Mask(), p.Range(), x.Pfx(), y.Pfx(), n, err != nil, p.ToNetIPNet())
		log("%v %v %v %v %v", w, m, p.Set(), p.Mask().ToNetIPMask(), p.Address().ToNetIP())
	case "range":
		l := s.Arg.model(bits)
		if len(l) > 0 {
			v, e := f.Range(l[0]), f.Range(l[len(l)-1])
			log("%v %v", v, v.Set())
			for _, r := range v.Plus(e) {
				log("%v", r)
			}
			for _, r := range v.Minus(e) {
				log("%v", r)
			}
			n, err := v.NumPrefixes(uint32(s.N))
			log("%v %v %v", v.Contains(f.ArgRange(e.Iv())), n, err != nil)
		}
	case "parse":
		p, err := f.PfxParse(*s.Text)
		if err == nil {
			log("%v", p)
		}
		a, err2 := f.AddrParse(*s.Text)
		if err2 == nil {
			log("%v", a)
		}
		q, err3 := ip.PrefixFromString(*s.Text)
		r, err4 := ip.AddressFromString(*s.Text)
		log("%v %v %v %v %v %v", err != nil, err2 != nil, err3 != nil, err4 != nil, q, r)
	case "net":
		n := sh.nets[s.I%len(sh.nets)]
		p, err := f.PfxNet(n)
		q, err2 := ip.PrefixFromNetIPNet(n)
		m, err3 := ip.MaskFromNetIPMask(n.Mask)
		a, err4 := ip.AddressFromNetIP(n.IP)
		log("%v %v %v %v %v %v %v %v", p, q, m, a, err, err2, err3, err4)
	}
	return b.String()
}

func runC33(x *X, c c33Case) {
	f := c.S.fam()
	nm := newNorm(x, f)
	sh, tabs, sets := c.shared(x, f, nm)
	fresh := func(sh c33Shared) *c33Own { return &c33Own{sh.tabs[0].Mut(), sh.sets[0].Mut()} }
	got := make([][]string, len(c.Threads))
	g := &group{}
	start := make(chan bool)
	for i, steps := range c.Threads {
		i, steps := i, steps
		g.run(func() {
			own := fresh(sh)
			<-start
			for r := 0; r < c.Repeat; r++ {
				for _, s := range steps {
					got[i] = append(got[i], s.do(f, sh, own))
				}
			}
		})
	}
	close(start)
	g.wait(x)
	// what has been shared has not changed
	for i, t := range sh.tabs {
		wantTable(x, fmt.Sprintf("table %d after it was shared", i), normTab[int]{t, nm}, tabs[i])
	}
	for i, s := range sh.sets {
		wantSet(x, f, fmt.Sprintf("set %d after it was shared", i), s, sets[i])
	}
	// the same by a single goroutine, with others
	sh, _, _ = c.shared(x, f, nm)
	for i, steps := range c.Threads {
		own := fresh(sh)
		n := 0
		for r := 0; r < c.Repeat; r++ {
			for _, s := range steps {
				if want := s.do(f, sh, own); got[i][n] != want {
					x.Fail("thread %d, round %d, %s: got %s, want %s", i, r, s, truncate(got[i][n], 800), truncate(want, 800))
				}
				n++
			}
		}
	}
	c.labels(x, tabs, sets)
}

func (c c33Case) labels(x *X, tabs []Tab[int], sets []Ivs) {
	kinds := map[string]int{}
	for _, steps := range c.Threads {
		in := map[string]bool{}
		for _, s := range steps {
			in[s.K] = true
		}
		for k := range in {
			kinds[k]++
		}
	}
	both := false
	for k, n := range kinds {
		x.Label(k)
		both = both || n > 1
	}
	x.LabelIf(both, "two threads do the same kind of thing")
	last := len(tabs) - 1
	x.LabelIf(len(tabs[last]) > 100, "more than 100 entries")
	x.LabelIf(len(sets[last]) > 50, "more than 50 ranges")
	x.NonTrivial(both && len(tabs[last]) > 1 && len(sets[last]) > 0)
}

func (s c33Step) String() string {
	b, _ := json.Marshal(s)
	return string(b)
}

// ---- the same with schedules that are controlled

type c33Sched struct {
	C   c33Case
	Sch Schedules
}

func genC33Sched(t *rapid.T) c33Sched {
	c := c33Sched{C: genC33(0, true)(t), Sch: genSchedules(t)}
	c.Sch.Tries = 6
	return c
}

func runC33Sched(x *X, cs c33Sched) {
	c := cs.C
	f := c.S.fam()
	nm := newNorm(x, f)
	fresh := func(sh c33Shared) *c33Own { return &c33Own{sh.tabs[0].Mut(), sh.sets[0].Mut()} }
	sh, tabs, sets := c.shared(x, f, nm)
	var want [][]string
	for _, steps := range c.Threads {
		own := fresh(sh)
		var l []string
		for _, s := range steps {
			l = append(l, s.do(f, sh, own))
		}
		want = append(want, l)
	}
	broken := false
	cs.Sch.each(func(first int, pre []Preempt) int {
		sh, _, _ := c.shared(x, f, nm)
		g := &group{}
		got := make([][]string, len(c.Threads))
		var threads []func()
		for i, steps := range c.Threads {
			threads = append(threads, func() {
				defer g.recover()
				own := fresh(sh)
				for _, s := range steps {
					got[i] = append(got[i], s.do(f, sh, own))
					schedOpEnd()
				}
			})
		}
		_, steps, controlled := schedule(first, pre, threads...)
		broken = broken || !controlled
		g.wait(x)
		for i, l := range want {
			for n, w := range l {
				if got[i][n] != w {
					x.Fail("thread %d, %s: got %s, want %s (thread %d starts, preemptions %v)", i, c.Threads[i][n], truncate(got[i][n], 800), truncate(w, 800), first, pre)
				}
			}
		}
		for i, t := range sh.tabs {
			wantTable(x, fmt.Sprintf("table %d after it was shared", i), normTab[int]{t, nm}, tabs[i])
		}
		for i, s := range sh.sets {
			wantSet(x, f, fmt.Sprintf("set %d after it was shared", i), s, sets[i])
		}
		return steps
	})
	x.LabelIf(broken, "not controlled")
	c.labels(x, tabs, sets)
}
