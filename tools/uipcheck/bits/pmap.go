package bits

// pmap is a map of small numbers that is cheap to copy: copies share what
// they have not changed, and what they share is skipped when they are
// compared.
type pmap[V any] struct {
	root  *pnode[V]
	level uint // of the root
	n     int
}

type pnode[V any] struct {
	kids *[16]*pnode[V]
	vals *[16]V
	has  uint16
}

func (p *pmap[V]) get(k uint32) (v V, ok bool) {
	if k>>(4*(p.level+1)) != 0 {
		return
	}
	x := p.root
	for l := p.level; x != nil; l-- {
		i := k >> (4 * l) & 15
		if l == 0 {
			return x.vals[i], x.has>>i&1 == 1
		}
		x = x.kids[i]
	}
	return
}

func (p *pmap[V]) set(k uint32, v V) {
	for k>>(4*(p.level+1)) != 0 {
		if p.root != nil {
			p.root = &pnode[V]{kids: &[16]*pnode[V]{p.root}}
		}
		p.level++
	}
	var added bool
	p.root, added = p.root.with(k, p.level, v)
	if added {
		p.n++
	}
}

func (x *pnode[V]) with(k uint32, l uint, v V) (*pnode[V], bool) {
	i := k >> (4 * l) & 15
	n := &pnode[V]{}
	if l == 0 {
		n.vals = &[16]V{}
		if x != nil {
			*n.vals, n.has = *x.vals, x.has
		}
		added := n.has>>i&1 == 0
		n.vals[i] = v
		n.has |= 1 << i
		return n, added
	}
	n.kids = &[16]*pnode[V]{}
	if x != nil {
		*n.kids = *x.kids
	}
	var added bool
	n.kids[i], added = n.kids[i].with(k, l-1, v)
	return n, added
}

func (p *pmap[V]) del(k uint32) {
	if _, ok := p.get(k); !ok {
		return
	}
	p.n--
	p.root = p.root.without(k, p.level)
}

func (x *pnode[V]) without(k uint32, l uint) *pnode[V] {
	i := k >> (4 * l) & 15
	n := *x
	if l == 0 {
		var zero V
		vs := *x.vals
		vs[i] = zero
		n.vals = &vs
		n.has &^= 1 << i
		return &n
	}
	ks := *x.kids
	ks[i] = x.kids[i].without(k, l-1)
	n.kids = &ks
	return &n
}

// each goes through the entries in order.
func (p *pmap[V]) each(f func(k uint32, v V)) { p.root.each(0, p.level, f) }

func (x *pnode[V]) each(base uint32, l uint, f func(k uint32, v V)) {
	if x == nil {
		return
	}
	for i := uint32(0); i < 16; i++ {
		k := base | i<<(4*l)
		if l == 0 {
			if x.has>>i&1 == 1 {
				f(k, x.vals[i])
			}
			continue
		}
		x.kids[i].each(k, l-1, f)
	}
}

// differ goes through the entries of a and b that are not shared.
func differ[V any](a, b pmap[V], f func(k uint32, x V, inA bool, y V, inB bool)) {
	for a.level < b.level {
		if a.root != nil {
			a.root = &pnode[V]{kids: &[16]*pnode[V]{a.root}}
		}
		a.level++
	}
	for b.level < a.level {
		if b.root != nil {
			b.root = &pnode[V]{kids: &[16]*pnode[V]{b.root}}
		}
		b.level++
	}
	differNode(a.root, b.root, 0, a.level, f)
}

func differNode[V any](x, y *pnode[V], base uint32, l uint, f func(k uint32, p V, inA bool, q V, inB bool)) {
	if x == y {
		return
	}
	var zero V
	for i := uint32(0); i < 16; i++ {
		k := base | i<<(4*l)
		if l > 0 {
			var p, q *pnode[V]
			if x != nil {
				p = x.kids[i]
			}
			if y != nil {
				q = y.kids[i]
			}
			differNode(p, q, k, l-1, f)
			continue
		}
		p, q := zero, zero
		inA := x != nil && x.has>>i&1 == 1
		inB := y != nil && y.has>>i&1 == 1
		if inA {
			p = x.vals[i]
		}
		if inB {
			q = y.vals[i]
		}
		if inA || inB {
			f(k, p, inA, q, inB)
		}
	}
}
