package main

import "pgregory.net/rapid"

// TabOp is one operation on a mutable table
type TabOp struct {
	Op string // insert, update, iou, goi, remove, fill, drain, chain, unchain
	K  KeySpec
	V  int
	N  int `json:",omitempty"` // number of keys for fill, drain, chain and unchain
	St int `json:",omitempty"` // stride through them
}

func genTabOp(s Space, vals int, bulk int) func(t *rapid.T) TabOp {
	return func(t *rapid.T) TabOp {
		op := TabOp{K: s.key(t), V: ri(t, 0, vals-1)}
		switch ri(t, 0, 15) {
		case 0, 1, 2, 3, 4:
			op.Op = "insert"
		case 5, 6, 7:
			op.Op = "iou"
		case 8, 9:
			op.Op = "update"
		case 10, 11:
			op.Op = "goi"
		default:
			op.Op = "remove"
		}
		if bulk > 0 && chance(t, 3) {
			op.Op = oneOf(t, "fill", "fill", "drain")
			op.N = ri(t, 2, bulk)
			op.St = oneOf(t, 1, 1, 3, 7919)
			// long enough to have that many different keys, not always aligned
			k := 0
			for 1<<k < op.N {
				k++
			}
			lo := s.bits() - s.Off - s.W
			if lo < k {
				lo = k
			}
			op.K = KeySpec{"pfx", Pfx{op.K.P.A, ri(t, lo, s.bits())}}
		} else if bulk > 0 && chance(t, 2) {
			op.Op = oneOf(t, "chain", "chain", "unchain")
			op.V += 4 * ri(t, 0, 3)
			op.K = KeySpec{"pfx", Pfx{op.K.P.A, oneOf(t, s.bits(), s.bits(), ri(t, 0, s.bits()))}}
			op.N = oneOf(t, op.K.P.N+1, ri(t, 1, op.K.P.N+1))
			op.St = oneOf(t, 1, 1, 2, 7)
		}
		return op
	}
}

func (op TabOp) bulk() bool { return op.N > 0 }

// bulkKeys enumerates the keys of a fill or drain, which have one length, or of
// a chain or unchain, which are nested: N lengths up to that of K along its
// address. Two bits of V turn the order and add the other half of each.
func (op TabOp) bulkKeys(bits int, f func(i int, p Pfx)) {
	if op.Op == "chain" || op.Op == "unchain" {
		for i := 0; i < op.N; i += op.St {
			n := op.K.P.N - i
			if op.V&4 != 0 {
				n = op.K.P.N - op.N + 1 + i
			}
			p := Pfx{op.K.P.A, n}
			if op.V&8 != 0 && n > 0 {
				f(i, Pfx{op.K.P.A.xor(u64(1).shl(bits - n)), n})
			}
			f(i/3, p)
		}
		return
	}
	for i := 0; i < op.N; i++ {
		j := i * op.St % op.N
		p := Pfx{op.K.P.A.add(u64(uint64(j)).shl(bits - op.K.P.N)).and(ones(bits)), op.K.P.N}
		f(i, p)
	}
}

// TabInit is how a table comes to be
type TabInit string

func genTabInit(t *rapid.T) TabInit {
	return TabInit(oneOf(t, "new", "new", "new", "cmp", "zero", "snapshot"))
}

func (i TabInit) make(f Fam) MTabV[int] {
	switch i {
	case "cmp":
		return newMTableCmp(f, func(a, b int) bool { return a == b })
	case "zero":
		return zeroTable[int](f).Mut()
	case "snapshot":
		return newMTable[int](f).Table().Mut()
	}
	return newMTable[int](f)
}

// apply does the operation on a table and on the model, and compares what it
// returns.
func (op TabOp) apply(x *X, f Fam, n *norm, t MTabV[int], m Tab[int]) {
	bits := f.Bits()
	if op.bulk() {
		op.bulkKeys(bits, func(i int, p Pfx) {
			n.saw(p)
			k := p.net(bits)
			_, had := m[k]
			if op.Op == "fill" || op.Op == "chain" {
				v := op.V + i%3
				if op.Op == "chain" {
					v = op.V&3 + i%3
				}
				if t.Insert(f.KeyPfx(p), v) == had {
					x.Fail("Insert(%v) returned %v, entry existed: %v", p, had, had)
				}
				if !had {
					m[k] = v
				}
				return
			}
			if t.Remove(f.KeyPfx(p)) != had {
				x.Fail("Remove(%v) returned %v, entry existed: %v", p, !had, had)
			}
			delete(m, k)
		})
		return
	}
	n.saw(op.K.P)
	k := op.K.P.net(bits)
	key := op.K.make(f)
	old, had := m[k]
	switch op.Op {
	case "insert":
		if got := t.Insert(key, op.V); got == had {
			x.Fail("Insert(%v, %d) returned %v, entry existed: %v", op.K, op.V, got, had)
		}
		if !had {
			m[k] = op.V
		}
	case "update":
		if got := t.Update(key, op.V); got != had {
			x.Fail("Update(%v, %d) returned %v, entry existed: %v", op.K, op.V, got, had)
		}
		if had {
			m[k] = op.V
		}
	case "iou":
		t.InsertOrUpdate(key, op.V)
		m[k] = op.V
	case "goi":
		want := op.V
		if had {
			want = old
		}
		if got := t.GetOrInsert(key, op.V); got != want {
			x.Fail("GetOrInsert(%v, %d) returned %d, want %d", op.K, op.V, got, want)
		}
		m[k] = want
	case "remove":
		if got := t.Remove(key); got != had {
			x.Fail("Remove(%v) returned %v, entry existed: %v", op.K, got, had)
		}
		delete(m, k)
	default:
		panic("bad op " + op.Op)
	}
}

// wantGet compares an exact match
func wantGet(x *X, what string, r reader[int], f Fam, k KeySpec, m Tab[int]) {
	want, had := m[k.P.net(f.Bits())]
	got, ok := r.Get(k.make(f))
	if ok != had || ok && got != want {
		x.Fail("%s: Get(%v) = %v, %v; want %v, %v", what, k, got, ok, want, had)
	}
}

// wantMatch compares a longest prefix match
func wantMatch(x *X, what string, r reader[int], f Fam, k KeySpec, m Tab[int]) bool {
	p, v, found := m.lpm(f.Bits(), k.P)
	gv, gfound, gp := r.LongestMatch(k.make(f))
	if gfound != found || found && (gv != v || gp != p) {
		x.Fail("%s: LongestMatch(%v) = %v, %v, %v; want %v, %v, %v", what, k, gv, gfound, gp, v, found, p)
	}
	return found
}

// buildTable makes a table out of a history
func buildTable(x *X, f Fam, n *norm, init TabInit, ops []TabOp) (MTabV[int], Tab[int]) {
	t := MTabV[int](normMTab[int]{init.make(f), n})
	m := Tab[int]{}
	for _, op := range ops {
		op.apply(x, f, n, t, m)
	}
	return t, m
}

func (t Tab[T]) labels(x *X, bits int) {
	x.LabelIf(len(t) == 0, "empty table")
	x.LabelIf(len(t) > 3, "more than 3 entries")
	x.LabelIf(len(t) > 100, "more than 100 entries")
	x.LabelIf(len(t) > 1000, "more than 1000 entries")
	_, all := t[Pfx{}]
	x.LabelIf(all, "has the default route")
	x.LabelIf(len(t) < 3000 && t.depth(bits) > 16, "more than 16 entries nested")
	if len(t) < 2000 {
		x.LabelIf(t.nested(bits), "nested entries")
	}
}
