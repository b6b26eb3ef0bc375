package main

import (
	"pgregory.net/rapid"
)

// C09 for values of other types: the mapped table has the comparator of the
// original.

type c09Typed struct {
	S    Space
	Type string // slice, func, any, ptr
	Mod  int    // values are equal if these remainders are (0: only if equal), not for ptr
	Ops  []TabOp
	More []TabOp // changes to a copy of the mapped table
	Fn   int
	To   string // type of the result: same, or the table is mapped twice
}

func genC09Typed(t *rapid.T) c09Typed {
	c := c09Typed{S: genSpace(t, 4), Type: oneOf(t, "slice", "func", "any", "ptr"), Mod: oneOf(t, 0, 2), Fn: ri(t, 0, 3)}
	c.To = oneOf(t, "same", "twice")
	c.Ops = slice(t, []int{2, 8, 20}, genTabOp(c.S, 4, 0))
	c.More = slice(t, []int{0, 2}, genTabOp(c.S, 6, 0))
	return c
}

func runC09Typed(x *X, c c09Typed) {
	x.Label(c.Type)
	switch c.Type {
	case "slice":
		runC09On(x, c, nil, func(i int) []int { return []int{i} }, func(v []int) int { return v[0] })
	case "func":
		runC09On(x, c, nil, func(i int) func() int { return func() int { return i } }, func(v func() int) int { return v() })
	case "any": // nil, an int, or something which can't be compared
		runC09On(x, c, nil, func(i int) any {
			switch {
			case i == 0:
				return nil
			case i%2 == 1:
				return i
			}
			return []int{i}
		}, func(v any) int {
			switch v := v.(type) {
			case int:
				return v
			case []int:
				return v[0]
			}
			return 0
		})
	case "ptr": // which differ although they point to equal values
		c.Mod = 0
		var cells [64]int
		at := map[*int]int{}
		for i := range cells {
			at[&cells[i]] = i
		}
		runC09On(x, c, newMTable[*int](c.S.fam()), func(i int) *int { return &cells[i] }, func(v *int) int { return at[v] })
	}
}

func runC09On[T any](x *X, c c09Typed, raw MTabV[T], mk func(int) T, un func(T) int) {
	f := c.S.fam()
	bits := f.Bits()
	n := newNorm(x, f)
	eq := eqMod(c.Mod)
	if raw == nil {
		raw = newMTableCmp(f, func(a, b T) bool { return eq(un(a), un(b)) })
	}
	apply := func(t MTabV[T], m Tab[int], ops []TabOp) {
		for _, op := range ops {
			n.saw(op.K.P)
			k, key := op.K.P.net(bits), op.K.make(f)
			old, had := m[k]
			switch op.Op {
			case "insert":
				if t.Insert(key, mk(op.V)) == had {
					x.Fail("Insert(%v) returned %v", op.K, had)
				}
				if !had {
					m[k] = op.V
				}
			case "goi":
				got := un(t.GetOrInsert(key, mk(op.V)))
				if !had {
					old = op.V
				}
				if got != old {
					x.Fail("GetOrInsert(%v, %d) returned %d, want %d", op.K, op.V, got, old)
				}
				m[k] = old
			case "update":
				if t.Update(key, mk(op.V)) != had {
					x.Fail("Update(%v) returned %v", op.K, !had)
				}
				if had {
					m[k] = op.V
				}
			case "iou":
				t.InsertOrUpdate(key, mk(op.V))
				m[k] = op.V
			case "remove":
				if t.Remove(key) != had {
					x.Fail("Remove(%v) returned %v", op.K, !had)
				}
				delete(m, k)
			}
			// an equal value may be kept or replaced
			if v, ok := t.Get(key); ok {
				if want, wok := m[k]; !wok || !eq(un(v), want) {
					x.Fail("%s(%v, %d): the value is %d, want %d, %v", op.Op, op.K, op.V, un(v), want, wok)
				}
				m[k] = un(v)
			} else if _, wok := m[k]; wok {
				x.Fail("%s(%v): nothing there", op.Op, op.K)
			}
		}
	}
	same := func(what string, t TabV[T], m Tab[int]) {
		keys := m.keys()
		got := entriesOf(t)
		if len(got) != len(keys) || t.NumEntries() != int64(len(keys)) {
			x.Fail("%s: %d entries, NumEntries %d, want %d", what, len(got), t.NumEntries(), len(keys))
		}
		for i, e := range got {
			if e.P != keys[i] || un(e.V) != m[e.P] {
				x.Fail("%s: entry %d is %v:%d, want %v:%d", what, i, e.P, un(e.V), keys[i], m[keys[i]])
			}
		}
	}
	t := MTabV[T](normMTab[T]{raw, n})
	m := Tab[int]{}
	apply(t, m, c.Ops)
	snap := t.Table()
	same("table", snap, m)
	mapper := func(p Pfx, v int) int {
		switch c.Fn {
		case 0:
			return v
		case 1:
			return v + 1
		case 2:
			return v + 2
		}
		return p.N % 5
	}
	cur, cm := snap, m
	for i := 0; i < map[string]int{"same": 1, "twice": 2}[c.To]; i++ {
		calls := Tab[int]{}
		res := cur.Map(func(p Pfx, v T) T {
			calls[p]++
			if w, ok := cm[p]; !ok || un(v) != w {
				x.Fail("the mapper is called with %v: %d, want %d, %v", p, un(v), w, ok)
			}
			return mk(mapper(p, un(v)))
		})
		rm := Tab[int]{}
		for p, v := range cm {
			if calls[p] != 1 {
				x.Fail("the mapper was called %d times for %v", calls[p], p)
			}
			rm[p] = mapper(p, v)
			if eq(v, rm[p]) {
				// not modified if it compares equal
				if got, _ := res.Get(f.KeyPfx(p)); un(got) == v {
					rm[p] = v
				}
			}
		}
		same("mapped table", res, rm)
		same("original", cur, cm)
		cur, cm = res, rm
	}
	// the result compares like the original: in modifications, Diff and Aggregate
	mut, mm := cur.Mut(), cm.clone()
	apply(mut, mm, c.More)
	same("changed copy of the mapped table", mut.Table(), mm)
	same("mapped table after its copy was changed", cur, cm)
	var changed, unchanged int
	cur.Diff(mut.Table(), func(p Pfx, a, b T) bool {
		changed++
		if eq(un(a), un(b)) {
			x.Fail("Diff reports %v as changed from %d to %d", p, un(a), un(b))
		}
		return true
	}, nil, nil, func(p Pfx, v T) bool {
		unchanged++
		return true
	})
	for p, v := range cm {
		if w, ok := mm[p]; ok && eq(v, w) {
			unchanged--
		} else if ok {
			changed--
		}
	}
	if changed != 0 || unchanged != 0 {
		x.Fail("Diff of mapped tables made %d calls too many for changed, %d for unchanged", changed, unchanged)
	}
	agg := cur.Aggregate()
	at := map[U]bool{}
	cm.boundaries(bits, at)
	for _, a := range sortedU(at) {
		_, want, wok := cm.lpm(bits, Pfx{a, bits})
		v, ok, _ := agg.LongestMatch(f.KeyAddr(a))
		if ok != wok || ok && !eq(un(v), want) {
			x.Fail("LongestMatch(%v) in the aggregate of the mapped table is found %v; want %d, %v", a, ok, want, wok)
		}
	}
	x.LabelIf(c.Mod > 0, "custom comparator")
	x.NonTrivial(len(m) > 1 && c.Fn > 0)
}
