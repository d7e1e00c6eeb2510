package ai

import (
	"fmt"
	"sort"
)

// inflow is one state that reaches a join, as leaves and constraints.
type inflow struct {
	leaves []leaf
	st     *State
	cs     consSet // st's constraints plus those of an alternative
	pool   *pool
}

// genClass is the join of inflows of one shape: differing integers become
// symbols constrained by the candidates every inflow satisfies.
type genClass struct {
	e      *Eng
	in     []inflow
	gen    map[int]Sym
	fresh  map[int]leaf
	cands  []*Con
	outer  *genClass // for alternatives: the class of the state
	outIdx []int     // inflow i belongs to outer inflow outIdx[i]
	seen   map[string]bool
	guards int
}

func newClass(e *Eng, outer *genClass) *genClass {
	return &genClass{e: e, gen: map[int]Sym{}, fresh: map[int]leaf{}, outer: outer, seen: map[string]bool{}}
}

// substFor maps the generalised symbols to what they are in inflow k.
func (g *genClass) substFor(k int) map[Sym]Lin {
	m := map[Sym]Lin{}
	for p, s := range g.gen {
		m[s] = g.in[k].leaves[p].l
	}
	if g.outer != nil {
		o := g.outer.in[g.outIdx[k]]
		for p, s := range g.outer.gen {
			m[s] = o.leaves[p].l
		}
	}
	return m
}

func (g *genClass) holds(c *Con, k int, m map[Sym]Lin) bool {
	if m == nil {
		m = g.substFor(k)
	}
	e := substOnce(c.e, m)
	return g.in[k].cs.entailsP(e, c.eq, g.in[k].pool)
}

func sameNil(a, b Nilness) bool { return a == b }

func condKey(c Cond) string {
	switch c := c.(type) {
	case CConst:
		return fmt.Sprint(bool(c))
	case CCmp:
		return fmt.Sprintf("%s %v", c.e, c.eq)
	case CNot:
		return "!" + condKey(c.c)
	case CFact:
		return fmt.Sprintf("f%d", c.id)
	case CImp:
		return fmt.Sprintf("i%d", c.id)
	case CStr:
		return fmt.Sprintf("s%d=%q", c.s.id, c.c)
	}
	return "?"
}

func sameStr(a, b StrV) bool {
	if a.c != nil || b.c != nil {
		return a.c != nil && b.c != nil && *a.c == *b.c
	}
	return a.id == b.id
}

// add takes an inflow into the class and reports whether it changed.
func (g *genClass) add(in inflow, outIdx int) bool {
	if in.pool == nil {
		in.pool = &pool{}
	}
	g.in = append(g.in, in)
	g.outIdx = append(g.outIdx, outIdx)
	k := len(g.in) - 1
	if k == 0 && g.outer == nil {
		return true
	}
	changed := k == 0
	var newGen []int
	if len(in.leaves) != len(g.in[0].leaves) {
		ka, kb := "", ""
		for _, l := range in.leaves {
			ka += string(l.kind)
		}
		for _, l := range g.in[0].leaves {
			kb += string(l.kind)
		}
		if g.outer == nil {
			println(flatten(in.st).key)
			println(flatten(g.in[0].st).key)
		}
		panic("leaves differ: " + ka + " " + kb)
	}
	for p := range in.leaves {
		a, b := g.in[0].leaves[p], in.leaves[p]
		switch a.kind {
		case 'i':
			if _, ok := g.gen[p]; ok {
				continue
			}
			if g.outer != nil && g.outer.mentions(b.l) {
				// the value at an earlier arrival, not the current one
				newGen = append(newGen, p)
				continue
			}
			if k == 0 {
				continue
			}
			if a.l.same(b.l) || in.cs.entailsEQ(a.l.sub(b.l)) && g.outer == nil {
				continue
			}
			newGen = append(newGen, p)
		case 's':
			if _, ok := g.fresh[p]; !ok && !sameStr(a.s, b.s) {
				src := a.s.src
				if !sameSrc(a.s.src, b.s.src) {
					src = nil
				}
				g.fresh[p] = leaf{kind: 's', s: StrV{id: g.e.freshID(), src: src}}
				changed = true
			}
		case 'n':
			if _, ok := g.fresh[p]; !ok && !sameNil(a.n, b.n) {
				g.fresh[p] = leaf{kind: 'n', n: Nilness{k: 2, id: g.e.freshID()}}
				changed = true
			}
		case 'b':
			if _, ok := g.fresh[p]; !ok && condKey(a.c) != condKey(b.c) {
				g.fresh[p] = leaf{kind: 'b', c: CFact{g.e.freshID()}}
				changed = true
			}
		}
	}
	for _, p := range newGen {
		g.gen[p] = g.e.tab.fresh(fmt.Sprintf("x%d", p))
		changed = true
	}
	// keep the candidates the new inflow satisfies
	m := g.substFor(k)
	var keep []*Con
	type dir struct {
		s  Sym
		up bool
	}
	var widen map[dir]bool
	for _, c := range g.cands {
		if g.holds(c, k, m) {
			keep = append(keep, c)
		} else {
			changed = true
			if s, up, ok := c.bound(); ok {
				if widen == nil {
					widen = map[dir]bool{}
				}
				widen[dir{s, up}] = true
			}
		}
	}
	if widen != nil && k > 1 {
		// a bound that moved is not going to stop at the next constant
		l := keep
		keep = nil
		for _, c := range l {
			if s, up, ok := c.bound(); ok && widen[dir{s, up}] && !c.far() {
				continue
			}
			keep = append(keep, c)
		}
	}
	g.cands = keep
	if len(newGen) > 0 || k == 1 {
		g.generate(newGen)
	}
	return changed
}

// bound reports that c limits one symbol by a constant.
func (c *Con) bound() (s Sym, up, ok bool) {
	if c.eq || len(c.e.t) != 1 {
		return
	}
	return c.e.t[0].s, c.e.t[0].c.sign() > 0, true
}

func (c *Con) far() bool {
	return c.e.k.abs().cmp(zi(1<<31)) >= 0 || c.e.k.sign() == 0 && c.e.t[0].c.sign() < 0
}

// mentions reports that l uses a symbol the class redefines.
func (g *genClass) mentions(l Lin) bool {
	for _, s := range g.gen {
		if l.coef(s).sign() != 0 {
			return true
		}
	}
	return false
}

func sameSrc(a, b *strSrc) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.kind == b.kind && a.obj == b.obj && a.name == b.name && a.of == b.of && a.idx.same(b.idx)
}

func conKey(c *Con) string {
	if c.eq {
		return "=" + c.e.String()
	}
	return c.e.String()
}

// try adds c when every inflow satisfies it.
func (g *genClass) try(c *Con, ms []map[Sym]Lin) bool {
	if c.e.isConst() {
		return false
	}
	n, triv, bad := row{c.e, c.eq}.norm()
	if triv || bad {
		return false
	}
	c = &Con{n.e, n.eq}
	k := conKey(c)
	if g.seen[k] {
		return false
	}
	g.seen[k] = true
	for i := range g.in {
		if !g.holds(c, i, ms[i]) {
			return false
		}
	}
	g.cands = append(g.cands, c)
	return true
}

var thresholds = []int64{-1, 0, 32, 128, 255, 1 << 31, 1<<32 - 1, 1 << 48}

func (g *genClass) generate(newGen []int) {
	var P []int
	for p := range g.gen {
		P = append(P, p)
	}
	sort.Ints(P)
	isNew := map[int]bool{}
	for _, p := range newGen {
		isNew[p] = true
	}
	ms := make([]map[Sym]Lin, len(g.in))
	for i := range g.in {
		ms[i] = g.substFor(i)
	}
	g.seen = map[string]bool{}
	for _, c := range g.cands {
		g.seen[conKey(c)] = true
	}
	leafOf := func(k, p int) Lin { return g.in[k].leaves[p].l }
	// bounds
	for _, p := range P {
		x := ls(g.gen[p])
		var lo, hi Z
		okLo, okHi := true, true
		for k := range g.in {
			b := g.in[k].cs.interval(leafOf(k, p))
			if !b.hasHi {
				if v, ok := g.in[k].cs.sup(leafOf(k, p)); ok {
					b.hi, b.hasHi = v, true
				}
			}
			if !b.hasLo {
				if v, ok := g.in[k].cs.sup(leafOf(k, p).neg()); ok {
					b.lo, b.hasLo = v.neg(), true
				}
			}
			if k == 0 {
				lo, hi, okLo, okHi = b.lo, b.hi, b.hasLo, b.hasHi
				continue
			}
			okLo, okHi = okLo && b.hasLo, okHi && b.hasHi
			if okLo {
				lo = zmin(lo, b.lo)
			}
			if okHi {
				hi = zmax(hi, b.hi)
			}
		}
		if okLo {
			g.try(&Con{e: lz(lo).sub(x)}, ms)
			for _, t := range thresholds {
				if zi(t).cmp(lo) <= 0 {
					g.try(&Con{e: lc(t).sub(x)}, ms)
				}
			}
		}
		if okHi {
			g.try(&Con{e: x.sub(lz(hi))}, ms)
			for _, t := range thresholds {
				if zi(t).cmp(hi) >= 0 {
					g.try(&Con{e: x.addc(-t)}, ms)
				}
			}
		}
	}
	// pairs of generalised leaves
	all := append([]int(nil), P...)
	type ref struct {
		x    Lin
		at   func(k int) Lin
		isN  bool
		self bool
	}
	var refs []ref
	for _, p := range all {
		p := p
		refs = append(refs, ref{ls(g.gen[p]), func(k int) Lin { return leafOf(k, p) }, isNew[p], true})
	}
	if g.outer != nil {
		var Q []int
		for p := range g.outer.gen {
			Q = append(Q, p)
		}
		sort.Ints(Q)
		for _, q := range Q {
			q := q
			refs = append(refs, ref{ls(g.outer.gen[q]), func(k int) Lin { return g.outer.in[g.outIdx[k]].leaves[q].l }, true, false})
		}
	}
	for i := 0; i < len(refs); i++ {
		for j := i + 1; j < len(refs); j++ {
			a, b := refs[i], refs[j]
			if !a.self && !b.self || (!a.isN && !b.isN && len(newGen) > 0) {
				continue
			}
			// equal or bounded difference
			var diffs []Lin
			for k := range g.in {
				diffs = append(diffs, a.at(k).sub(b.at(k)))
			}
			same := true
			konst := true
			lo, hi := Z{}, Z{}
			for k, d := range diffs {
				if !d.same(diffs[0]) {
					same = false
				}
				if !d.isConst() {
					konst = false
				} else if konst {
					if k == 0 {
						lo, hi = d.k, d.k
					} else {
						lo, hi = zmin(lo, d.k), zmax(hi, d.k)
					}
				}
			}
			if same {
				if g.try(&Con{e: a.x.sub(b.x).sub(diffs[0]), eq: true}, ms) {
					continue
				}
			}
			if konst {
				g.try(&Con{e: a.x.sub(b.x).sub(lz(hi))}, ms)
				g.try(&Con{e: b.x.sub(a.x).add(lz(lo))}, ms)
			}
			// proportional growth
			if len(g.in) > 1 {
				da, db := a.at(1).sub(a.at(0)), b.at(1).sub(b.at(0))
				if da.isConst() && db.isConst() && da.k.sign() != 0 && db.k.sign() != 0 && !da.same(db) {
					e := a.x.sub(a.at(0)).mulz(db.k).addScaled(b.x.sub(b.at(0)), da.k.neg())
					g.try(&Con{e: e, eq: true}, ms)
				}
			}
			g.try(&Con{e: a.x.sub(b.x)}, ms)
			g.try(&Con{e: b.x.sub(a.x)}, ms)
			g.try(&Con{e: a.x.sub(b.x).addc(1)}, ms)
			g.try(&Con{e: b.x.sub(a.x).addc(1)}, ms)
		}
	}
	// constraints of the inflows, rewritten to the new symbols
	for k := range g.in {
		unit := map[Sym][]Lin{} // symbol -> expressions over the new symbols
		addUnit := func(l Lin, x Lin) {
			for _, t := range l.t {
				if t.c.abs().eq(zi(1)) {
					rest := l.addScaled(ls(t.s), t.c.neg())
					// c*s + rest = x
					v := x.sub(rest)
					if t.c.sign() < 0 {
						v = v.neg()
					}
					unit[t.s] = append(unit[t.s], v)
				}
			}
		}
		for _, p := range P {
			addUnit(leafOf(k, p), ls(g.gen[p]))
		}
		if g.outer != nil {
			for q, s := range g.outer.gen {
				addUnit(g.outer.in[g.outIdx[k]].leaves[q].l, ls(s))
			}
		}
		base := len(g.cands)
		_ = base
		try := func(c *Con) {
			for i, t := range c.e.t {
				for _, v := range unit[t.s] {
					e := c.e.addScaled(ls(t.s), t.c.neg()).addScaled(v, t.c)
					g.try(&Con{e, c.eq}, ms)
					if c.eq {
						g.try(&Con{e, false}, ms)
						g.try(&Con{e.neg(), false}, ms)
					} else {
						g.try(&Con{e.addc(-1), false}, ms)
					}
					for _, t2 := range c.e.t[i+1:] {
						for _, v2 := range unit[t2.s] {
							e2 := e.addScaled(ls(t2.s), t2.c.neg()).addScaled(v2, t2.c)
							g.try(&Con{e2, c.eq}, ms)
							if !c.eq {
								g.try(&Con{e2.addc(-1), false}, ms)
							}
						}
					}
				}
			}
		}
		done := map[*Con]bool{}
		for _, c := range g.in[k].cs.list {
			try(c)
			done[c] = true
		}
		for s := range unit {
			for _, c := range g.e.tab.info[s].cons {
				if !done[c] {
					done[c] = true
					try(c)
				}
			}
		}
	}
	// against the leaves all inflows share
	if g.outer == nil {
		var others []Lin
		seenO := map[string]bool{}
		for p, l := range g.in[0].leaves {
			if l.kind != 'i' || l.l.isConst() || len(l.l.t) > 2 {
				continue
			}
			if _, ok := g.gen[p]; ok {
				continue
			}
			k := l.l.String()
			if !seenO[k] {
				seenO[k] = true
				others = append(others, l.l)
			}
		}
		if len(others) > 24 {
			others = others[:24]
		}
		for _, p := range P {
			if !isNew[p] && len(newGen) > 0 {
				continue
			}
			x := ls(g.gen[p])
			for _, o := range others {
				if g.try(&Con{e: x.sub(o).addc(1)}, ms) || g.try(&Con{e: x.sub(o)}, ms) || g.try(&Con{e: x.sub(o).addc(-1)}, ms) {
					continue
				}
				g.try(&Con{e: o.sub(x)}, ms)
			}
		}
	}
}

// merged returns the leaves of the joined state.
func (g *genClass) merged() []leaf {
	out := append([]leaf(nil), g.in[0].leaves...)
	for p, s := range g.gen {
		out[p] = leaf{kind: 'i', l: ls(s)}
	}
	for p, l := range g.fresh {
		out[p] = l
	}
	return out
}

type slotKey struct {
	n   int
	low bool
	key string
}

// stateClass joins whole states.
type stateClass struct {
	e     *Eng
	key   string
	base  *State
	order []ObjID
	slots []tslot
	main  *genClass
	alts  map[slotKey]*genClass
	altV  map[slotKey]*Alt
	tops  map[int]bool // slots whose elements may be anything
	list  []*Con
	facts map[int]bool
	strs  map[int]strFact
	hist  int
}

type flatState struct {
	key    string
	leaves []leaf
	order  []ObjID
	slots  []tslot
}

func flatten(s *State) *flatState {
	s.prunePend()
	m := newMapper(s, func(id ObjID) *Obj { return s.heap[id] })
	m.walk(s)
	return &flatState{m.b.String(), m.leaves, m.order, m.slots}
}

func (s *State) prunePend() {
	if len(s.pend) == 0 {
		return
	}
	var out []pend
	idx := map[string]int{}
	for _, p := range s.pend {
		k := s.nilOf(p.n)
		if k == 1 {
			continue
		}
		if k == 0 {
			p.n = nonNil
		}
		if i, ok := idx[p.site]; ok {
			if out[i].n.k == 0 || p.n.k == 0 {
				out[i].n = nonNil
			} else if out[i].n != p.n {
				out[i].n = Nilness{k: 2, id: s.eng.freshID()}
			}
			continue
		}
		idx[p.site] = len(out)
		out = append(out, p)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].site < out[j].site })
	s.pend = out
}

func newStateClass(e *Eng, s *State, f *flatState) *stateClass {
	c := &stateClass{e: e, key: f.key, base: s, order: f.order, slots: f.slots,
		main: newClass(e, nil), alts: map[slotKey]*genClass{}, altV: map[slotKey]*Alt{}, tops: map[int]bool{}}
	c.list = append([]*Con(nil), s.cs.list...)
	c.facts = s.facts
	c.strs = s.strs
	c.add(s, f)
	return c
}

func (o *Obj) slotAlts(low bool) []*Alt {
	if low {
		return o.low
	}
	return o.alts
}

// add joins s into the class, reporting whether the class changed.
func (c *stateClass) add(s *State, f *flatState) bool {
	in := inflow{leaves: f.leaves, st: s, cs: s.cs}
	first := len(c.main.in) == 0
	changed := c.main.add(in, 0)
	oi := len(c.main.in) - 1
	for si, sl := range f.slots {
		o := s.heap[sl.obj]
		n := -1
		for i, id := range f.order {
			if id == sl.obj {
				n = i
			}
		}
		alts := o.slotAlts(sl.low)
		if len(alts) > 1 {
			alts = mergeAlts(c.e, s, alts)
		}
		if len(alts) > 6 {
			if !c.tops[si] {
				c.tops[si] = true
				changed = true
			}
		}
		for _, a := range alts {
			k := slotKey{n, sl.low, a.key}
			g := c.alts[k]
			if g == nil {
				g = newClass(c.e, c.main)
				c.alts[k] = g
				c.altV[k] = a
				changed = true
			}
			cs := consSet{tab: s.cs.tab, list: append(s.cs.list[:len(s.cs.list):len(s.cs.list)], a.cons...)}
			if g.add(inflow{leaves: a.leaves, st: s, cs: cs}, oi) && len(g.in) > 1 {
				changed = true
			}
		}
	}
	if !first {
		have := map[*Con]bool{}
		for _, x := range s.cs.list {
			have[x] = true
		}
		var l []*Con
		for _, x := range c.list {
			if have[x] || s.cs.implies(x) {
				l = append(l, x)
			} else {
				changed = true
			}
		}
		c.list = l
		nf := map[int]bool{}
		for k, v := range c.facts {
			if w, ok := s.facts[k]; ok && v == w {
				nf[k] = v
			}
		}
		c.facts = nf
		ns := map[int]strFact{}
		for k, v := range c.strs {
			if w, ok := s.strs[k]; ok {
				if v.eq != nil {
					if w.eq != nil && *w.eq == *v.eq {
						ns[k] = v
					}
					continue
				}
				var ne []string
				for _, x := range v.ne {
					for _, y := range w.ne {
						if x == y {
							ne = append(ne, x)
						}
					}
					if w.eq != nil && *w.eq != x {
						ne = append(ne, x)
					}
				}
				if len(ne) > 0 {
					ns[k] = strFact{ne: ne}
				}
			}
		}
		c.strs = ns
	}
	return changed
}

func (cs *consSet) implies(c *Con) bool {
	for _, t := range c.e.t {
		found := false
		for _, x := range cs.list {
			if x.e.coef(t.s).sign() != 0 {
				found = true
				break
			}
		}
		if !found {
			i := &cs.tab.info[t.s]
			if !i.hasLo && !i.hasHi && len(i.cons) == 0 && i.prod == nil {
				return false
			}
		}
	}
	if c.eq {
		return cs.entailsEQ(c.e)
	}
	return cs.entailsLE(c.e)
}

// state builds the joined state.
func (c *stateClass) state() *State {
	b := c.base
	m := newMapper(b, func(id ObjID) *Obj { return b.heap[id] })
	m.repl = c.main.merged()
	frames, top, pends := m.walk(b)
	n := &State{eng: c.e, top: top, frames: frames, pend: pends, ctx: b.ctx, notes: b.notes}
	n.cs = consSet{tab: b.cs.tab, list: append([]*Con(nil), c.list...)}
	n.cs.list = simplify(append(n.cs.list, c.main.cands...))
	n.facts = map[int]bool{}
	for k, v := range c.facts {
		n.facts[k] = v
	}
	n.strs = map[int]strFact{}
	for k, v := range c.strs {
		n.strs[k] = v
	}
	n.heap = map[ObjID]*Obj{}
	for id, o := range c.e.initHeap {
		if b.heap[id] == o {
			n.heap[id] = o
		}
	}
	for id := range m.num {
		if o, ok := m.out[id]; ok {
			n.heap[id] = o
		} else if o := b.heap[id]; o != nil {
			n.heap[id] = o
		}
	}
	// templates
	idx := map[ObjID]int{}
	for i, id := range m.order {
		idx[id] = i
	}
	for si, sl := range m.slots {
		o := n.heap[sl.obj].copy()
		if c.tops[si] {
			o.top = true
			o.alts, o.low, o.two = nil, nil, false
			n.heap[sl.obj] = o
			continue
		}
		var alts []*Alt
		var ks []slotKey
		for k := range c.alts {
			if k.n == idx[sl.obj] && k.low == sl.low {
				ks = append(ks, k)
			}
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].key < ks[j].key })
		for _, k := range ks {
			alts = append(alts, c.alts[k].alt(c.altV[k]))
		}
		if sl.low {
			o.low = alts
		} else {
			o.alts = alts
		}
		n.heap[sl.obj] = o
	}
	return n
}

// alt builds the joined alternative.
func (g *genClass) alt(base *Alt) *Alt {
	if len(g.in) == 1 && len(g.gen) == 0 {
		return base
	}
	lv := g.merged()
	n := base.rebuild(g.e, g.in[0].st, lv)
	seen := map[Sym]bool{}
	addLocal := func(s Sym) {
		if !seen[s] {
			seen[s] = true
			n.locals = append(n.locals, s)
		}
	}
	for _, s := range base.locals {
		addLocal(s)
	}
	var ps []int
	for p := range g.gen {
		ps = append(ps, p)
	}
	sort.Ints(ps)
	for _, p := range ps {
		addLocal(g.gen[p])
	}
	n.cons = nil
	n.cons = append(n.cons, g.cands...)
	defer func() { n.cons = simplify(n.cons) }()
	// facts of the base that every inflow shares
	for _, c := range base.cons {
		ok := true
		for k := 1; k < len(g.in) && ok; k++ {
			ok = g.in[k].cs.implies(c)
		}
		if ok {
			n.cons = append(n.cons, c)
		}
	}
	return n
}

// rebuild replaces the leaves of a.
func (a *Alt) rebuild(e *Eng, st *State, lv []leaf) *Alt {
	m := newMapper(st, func(id ObjID) *Obj { return a.objs[id] })
	m.initH = nil
	m.repl = lv
	v := m.val(a.v)
	n := &Alt{v: v, objs: m.out, key: a.key, leaves: lv}
	for id, o := range a.objs {
		if _, ok := n.objs[id]; !ok {
			n.objs[id] = o
		}
	}
	return n
}

// mergeAlts joins the alternatives of equal shape.
func mergeAlts(e *Eng, s *State, alts []*Alt) []*Alt {
	by := map[string][]*Alt{}
	var keys []string
	for _, a := range alts {
		if by[a.key] == nil {
			keys = append(keys, a.key)
		}
		by[a.key] = append(by[a.key], a)
	}
	if len(keys) == len(alts) {
		return alts
	}
	var out []*Alt
	for _, k := range keys {
		l := by[k]
		if len(l) == 1 {
			out = append(out, l[0])
			continue
		}
		out = append(out, joinAlts(e, s, l))
	}
	return out
}

func joinAlts(e *Eng, s *State, l []*Alt) *Alt {
	g := newClass(e, nil)
	g.outer = nil
	for _, a := range l {
		cs := consSet{tab: s.cs.tab, list: append(s.cs.list[:len(s.cs.list):len(s.cs.list)], a.cons...)}
		g.add(inflow{leaves: a.leaves, st: s, cs: cs}, 0)
	}
	n := g.alt(l[0])
	return n
}
