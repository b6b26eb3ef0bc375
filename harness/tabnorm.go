package main

// A table may report the prefix of an entry as it was given, with host bits, or
// without them. The decorators in this file accept both but nothing else, and
// remove the host bits so that the rest of the harness doesn't need to care.

type norm struct {
	x    *X
	bits int
	seen map[Pfx]bool // prefixes with host bits that have been passed
}

func newNorm(x *X, f Fam) *norm { return &norm{x, f.Bits(), map[Pfx]bool{}} }

func (n *norm) saw(p Pfx) {
	if p.net(n.bits) != p {
		n.seen[p] = true
	}
}

func (n *norm) fix(p Pfx) Pfx {
	if p.N < 0 || p.N > n.bits {
		n.x.Fail("a table returned the invalid prefix %v", p)
	}
	q := p.net(n.bits)
	if q != p && !n.seen[p] {
		n.x.Fail("a table returned prefix %v with host bits that were never passed to it", p)
	}
	return q
}

type normTab[T any] struct {
	TabV[T]
	n *norm
}

func (w normTab[T]) LongestMatch(k Key) (T, bool, Pfx) {
	v, ok, p := w.TabV.LongestMatch(k)
	if ok {
		p = w.n.fix(p)
	}
	return v, ok, p
}

func (w normTab[T]) Walk(f func(Pfx, T) bool) bool {
	return w.TabV.Walk(func(p Pfx, v T) bool { return f(w.n.fix(p), v) })
}

func (w normTab[T]) Diff(o TabV[T], changed func(Pfx, T, T) bool, left, right, unchanged func(Pfx, T) bool) bool {
	one := func(f func(Pfx, T) bool) func(Pfx, T) bool {
		if f == nil {
			return nil
		}
		return func(p Pfx, v T) bool { return f(w.n.fix(p), v) }
	}
	ch := changed
	if changed != nil {
		ch = func(p Pfx, a, b T) bool { return changed(w.n.fix(p), a, b) }
	}
	return w.TabV.Diff(o.(normTab[T]).TabV, ch, one(left), one(right), one(unchanged))
}

func (w normTab[T]) Map(f func(Pfx, T) T) TabV[T] {
	if f == nil {
		return normTab[T]{w.TabV.Map(nil), w.n}
	}
	return normTab[T]{w.TabV.Map(func(p Pfx, v T) T { return f(w.n.fix(p), v) }), w.n}
}
func (w normTab[T]) Aggregate() TabV[T] { return normTab[T]{w.TabV.Aggregate(), w.n} }
func (w normTab[T]) Mut() MTabV[T]      { return normMTab[T]{w.TabV.Mut(), w.n} }
func (w normTab[T]) Build(f func(MTabV[T]) bool) TabV[T] {
	return normTab[T]{w.TabV.Build(func(m MTabV[T]) bool { return f(normMTab[T]{m, w.n}) }), w.n}
}

type normMTab[T any] struct {
	MTabV[T]
	n *norm
}

func (w normMTab[T]) LongestMatch(k Key) (T, bool, Pfx) {
	v, ok, p := w.MTabV.LongestMatch(k)
	if ok {
		p = w.n.fix(p)
	}
	return v, ok, p
}
func (w normMTab[T]) Table() TabV[T] { return normTab[T]{w.MTabV.Table(), w.n} }
