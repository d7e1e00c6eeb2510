package ai

import (
	"go/types"
	"sort"
)

// unifier weakens two states until they have one shape, so that a join can
// represent both: nil becomes "maybe nil", elements known one by one go back
// to the summary, different error values become an error.
type unifier struct {
	e      *Eng
	a, b   *State
	pa, pb map[ObjID]ObjID
	cost   int
	fail   bool
}

// unify returns weakened copies of equal shape, or ok=false.
func (e *Eng) unify(x, y *State) (a, b *State, cost int, ok bool) {
	x.prunePend()
	y.prunePend()
	if len(x.frames) != len(y.frames) || len(x.pend) != len(y.pend) || len(x.notes) != len(y.notes) || (x.top == nil) != (y.top == nil) {
		return
	}
	for i := range x.notes {
		if x.notes[i] != y.notes[i] {
			return
		}
	}
	u := &unifier{e: e, a: x.clone(), b: y.clone(), pa: map[ObjID]ObjID{}, pb: map[ObjID]ObjID{}}
	for i := range x.frames {
		u.a.frames[i], u.b.frames[i] = u.frame(x.frames[i], y.frames[i])
		if u.fail {
			return
		}
	}
	if x.top != nil {
		u.a.top, u.b.top = u.frame(x.top, y.top)
	}
	if u.fail {
		return
	}
	u.a.pend = append([]pend(nil), x.pend...)
	u.b.pend = append([]pend(nil), y.pend...)
	for i := range x.pend {
		if x.pend[i].site != y.pend[i].site || x.nilOf(x.pend[i].n) != y.nilOf(y.pend[i].n) {
			return
		}
	}
	for _, id := range e.roots {
		u.obj(id, id)
	}
	if u.fail {
		return
	}
	return u.a, u.b, u.cost, true
}

func (u *unifier) frame(x, y *Frame) (*Frame, *Frame) {
	if x.fn != y.fn || x.call != y.call || len(x.env) != len(y.env) {
		u.fail = true
		return x, y
	}
	p, q := x.copy(), y.copy()
	for _, v := range x.sorted() {
		w, ok := y.env[v]
		if !ok {
			u.fail = true
			return x, y
		}
		p.env[v], q.env[v] = u.val(x.env[v], w)
		if u.fail {
			return x, y
		}
	}
	return p, q
}

func (u *unifier) nilness(x, y Nilness) (Nilness, Nilness) {
	if u.a.nilOf(x) == u.b.nilOf(y) {
		return x, y
	}
	u.cost += 3
	return Nilness{k: 2, id: u.e.freshID()}, Nilness{k: 2, id: u.e.freshID()}
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (u *unifier) val(x, y Val) (Val, Val) {
	if u.fail {
		return x, y
	}
	bad := func() (Val, Val) { u.fail = true; return x, y }
	if x == nil || y == nil {
		if x == nil && y == nil {
			return x, y
		}
		return bad()
	}
	switch p := x.(type) {
	case IntV:
		if _, ok := y.(IntV); ok {
			return x, y
		}
	case StrV:
		if _, ok := y.(StrV); ok {
			return x, y
		}
	case BoolV:
		q, ok := y.(BoolV)
		if !ok {
			return bad()
		}
		if u.a.evalCond(p.c) != u.b.evalCond(q.c) {
			u.cost++
			return BoolV{CFact{u.e.freshID()}}, BoolV{CFact{u.e.freshID()}}
		}
		return x, y
	case SliceV:
		q, ok := y.(SliceV)
		if !ok {
			return bad()
		}
		ka, kb := u.a.nilOf(p.n), u.b.nilOf(q.n)
		if ka == 1 && kb == 1 {
			return x, y
		}
		if ka == 1 {
			p = u.dummy(q, u.b, u.a, false).(SliceV)
		} else if kb == 1 {
			q = u.dummy(p, u.a, u.b, true).(SliceV)
		} else {
			u.obj(p.obj, q.obj)
		}
		p.n, q.n = u.nilness2(p.n, q.n, ka, kb)
		return p, q
	case PtrV:
		q, ok := y.(PtrV)
		if !ok {
			return bad()
		}
		ka, kb := u.a.nilOf(p.n), u.b.nilOf(q.n)
		if ka == 1 && kb == 1 {
			return x, y
		}
		if ka == 1 {
			p = u.dummy(q, u.b, u.a, false).(PtrV)
		} else if kb == 1 {
			q = u.dummy(p, u.a, u.b, true).(PtrV)
		} else {
			if len(p.path) != len(q.path) {
				return bad()
			}
			for i := range p.path {
				if p.path[i].field != q.path[i].field {
					return bad()
				}
			}
			u.obj(p.obj, q.obj)
		}
		p.n, q.n = u.nilness2(p.n, q.n, ka, kb)
		return p, q
	case IfaceV:
		q, ok := y.(IfaceV)
		if !ok {
			return bad()
		}
		ka, kb := u.a.nilOf(p.n), u.b.nilOf(q.n)
		if ka == 1 && kb == 1 {
			return x, y
		}
		switch {
		case ka == 1:
			p = u.dummy(q, u.b, u.a, false).(IfaceV)
		case kb == 1:
			q = u.dummy(p, u.a, u.b, true).(IfaceV)
		case p.t == nil && q.t == nil:
		case p.t != nil && q.t != nil && types.Identical(p.t, q.t):
			p.v, q.v = u.val(p.v, q.v)
		default:
			for _, t := range []types.Type{p.t, q.t} {
				if t != nil && !types.Implements(t, errorIface) {
					return bad()
				}
			}
			u.cost++
			p.t, p.v, q.t, q.v = nil, nil, nil, nil
			p.id, q.id = u.e.freshID(), u.e.freshID()
		}
		p.n, q.n = u.nilness2(p.n, q.n, ka, kb)
		return p, q
	case FuncV:
		q, ok := y.(FuncV)
		if !ok {
			return bad()
		}
		ka, kb := u.a.nilOf(p.n), u.b.nilOf(q.n)
		switch {
		case ka == 1 && kb == 1:
			return x, y
		case ka == 1:
			p = u.dummy(q, u.b, u.a, false).(FuncV)
		case kb == 1:
			q = u.dummy(p, u.a, u.b, true).(FuncV)
		default:
			if p.fn != q.fn || len(p.bind) != len(q.bind) {
				return bad()
			}
			pb := append([]Val(nil), p.bind...)
			qb := append([]Val(nil), q.bind...)
			for i := range pb {
				pb[i], qb[i] = u.val(pb[i], qb[i])
			}
			p.bind, q.bind = pb, qb
		}
		p.n, q.n = u.nilness2(p.n, q.n, ka, kb)
		return p, q
	case MapV:
		q, ok := y.(MapV)
		if !ok {
			return bad()
		}
		ka, kb := u.a.nilOf(p.n), u.b.nilOf(q.n)
		switch {
		case ka == 1 && kb == 1:
			return x, y
		case ka == 1:
			p = u.dummy(q, u.b, u.a, false).(MapV)
		case kb == 1:
			q = u.dummy(p, u.a, u.b, true).(MapV)
		default:
			u.obj(p.obj, q.obj)
		}
		p.n, q.n = u.nilness2(p.n, q.n, ka, kb)
		return p, q
	case StructV:
		q, ok := y.(StructV)
		if !ok || len(p.f) != len(q.f) {
			return bad()
		}
		f, g := make([]Val, len(p.f)), make([]Val, len(p.f))
		for i := range f {
			f[i], g[i] = u.val(p.f[i], q.f[i])
		}
		return StructV{f}, StructV{g}
	case ArrV:
		q, ok := y.(ArrV)
		if !ok || len(p.e) != len(q.e) {
			return bad()
		}
		if p.e == nil {
			return x, y
		}
		f, g := make([]Val, len(p.e)), make([]Val, len(p.e))
		for i := range f {
			f[i], g[i] = u.val(p.e[i], q.e[i])
		}
		return ArrV{f, p.t}, ArrV{g, q.t}
	case TupleV:
		q, ok := y.(TupleV)
		if !ok || len(p) != len(q) {
			return bad()
		}
		f, g := make(TupleV, len(p)), make(TupleV, len(p))
		for i := range f {
			f[i], g[i] = u.val(p[i], q[i])
		}
		return f, g
	case iterV:
		q, ok := y.(iterV)
		if !ok || p.str != q.str || p.cnt != q.cnt {
			return bad()
		}
		if p.str || p.cnt {
			u.obj(p.pos, q.pos)
		}
		if p.cnt {
			u.obj(p.lim, q.lim)
		}
		p.m, q.m = u.val(p.m, q.m)
		return p, q
	case TopV:
		if _, ok := y.(TopV); ok {
			return x, y
		}
	case ReflV:
		q, ok := y.(ReflV)
		if ok && p.t == q.t && p.set == q.set && p.valid == q.valid && p.nn == q.nn && p.hasR == q.hasR {
			fa, oka := u.a.facts[p.loc]
			fb, okb := u.b.facts[q.loc]
			if oka == okb && fa == fb {
				if p.hasR {
					u.obj(p.root, q.root)
				}
				return x, y
			}
		}
	case RTypeV:
		if q, ok := y.(RTypeV); ok && types.Identical(p.t, q.t) {
			return x, y
		}
	}
	return bad()
}

// nilness2 is nilness for values of which one side may have been nil.
func (u *unifier) nilness2(x, y Nilness, ka, kb uint8) (Nilness, Nilness) {
	if ka == kb {
		return x, y
	}
	u.cost += 3
	return Nilness{k: 2, id: u.e.freshID()}, Nilness{k: 2, id: u.e.freshID()}
}

func (u *unifier) pair(ia, ib ObjID) {
	u.pa[ia], u.pb[ib] = ib, ia
}

func (u *unifier) obj(ia, ib ObjID) {
	if u.fail {
		return
	}
	if j, ok := u.pa[ia]; ok {
		if j != ib {
			u.fail = true
		}
		return
	}
	if _, ok := u.pb[ib]; ok {
		u.fail = true
		return
	}
	u.pair(ia, ib)
	oa, ob := u.a.heap[ia], u.b.heap[ib]
	if oa == nil || ob == nil {
		u.fail = oa != ob
		return
	}
	ini := u.e.initHeap
	if ini != nil && (ini[ia] == oa || ini[ib] == ob) {
		if ia == ib && oa == ob {
			return
		}
		if ia != ib {
			u.fail = true
			return
		}
	}
	if oa == ob && ia == ib && oa.kind == kCell && untrackedVal(oa.cell) {
		return
	}
	if oa.kind != ob.kind || oa.frozen != ob.frozen || oa.tag != ob.tag || (oa.t == nil) != (ob.t == nil) || oa.t != nil && !types.Identical(oa.t, ob.t) {
		u.fail = true
		return
	}
	if len(oa.ext) != len(ob.ext) {
		u.fail = true
		return
	}
	ca, cb := oa.copy(), ob.copy()
	ca.memo, cb.memo = nil, nil
	ca.escaped = oa.escaped || ob.escaped
	cb.escaped = ca.escaped
	if oa.top != ob.top {
		for _, c := range []*Obj{ca, cb} {
			c.top = true
			c.alts, c.low, c.two, c.known = nil, nil, false, nil
			if c.kind == kMap {
				c.ents, c.more = nil, true
			}
		}
		u.cost += 2
	}
	if oa.kind == kMap && (len(oa.ext) == 0 || len(ob.ext) == 0) {
		ca.ext, cb.ext = nil, nil
	} else if len(oa.ext) > 0 {
		ks := make([]string, 0, len(oa.ext))
		for k := range oa.ext {
			if _, ok := ob.ext[k]; !ok {
				u.fail = true
				return
			}
			ks = append(ks, k)
		}
		sort.Strings(ks)
		ca.ext, cb.ext = map[string]Val{}, map[string]Val{}
		for _, k := range ks {
			ca.ext[k], cb.ext[k] = u.val(oa.ext[k], ob.ext[k])
		}
	}
	switch oa.kind {
	case kCell:
		ca.cell, cb.cell = u.val(oa.cell, ob.cell)
	case kArr:
		if ca.top {
			break
		}
		ca.known = u.foldKnown(u.a, ca, cb)
		cb.known = u.foldKnown(u.b, cb, ca)
		var ks []int64
		for k := range ca.known {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		na, nb := map[int64]Val{}, map[int64]Val{}
		for _, k := range ks {
			na[k], nb[k] = u.val(ca.known[k], cb.known[k])
		}
		if len(ks) > 0 {
			ca.known, cb.known = na, nb
		}
		if ca.two != cb.two {
			u.cost++
			for _, c := range []*Obj{ca, cb} {
				if c.two {
					c.alts = append(append([]*Alt(nil), c.low...), c.alts...)
					c.low, c.two = nil, false
				}
			}
		}
	case kMap:
		if ca.top {
			break
		}
		ca.ents = u.foldEnts(u.a, ca, cb)
		cb.ents = u.foldEnts(u.b, cb, ca)
		ea, eb := append([]mapEnt(nil), ca.ents...), append([]mapEnt(nil), cb.ents...)
		// same keys, possibly another order
		for i := range ea {
			k := keyString(ea[i].k)
			for j := i; j < len(eb); j++ {
				if keyString(eb[j].k) == k {
					eb[i], eb[j] = eb[j], eb[i]
					break
				}
			}
			if i >= len(eb) || keyString(eb[i].k) != k {
				u.fail = true
				return
			}
			ea[i].v, eb[i].v = u.val(ea[i].v, eb[i].v)
		}
		ca.ents, cb.ents = ea, eb
		if ca.more != cb.more {
			u.cost++
			ca.more, cb.more = true, true
		}
	}
	if u.fail {
		return
	}
	u.a.setObj(ca)
	u.b.setObj(cb)
}

func untrackedVal(v Val) bool {
	switch v.(type) {
	case IntV, StrV, TopV:
		return true
	}
	return false
}

// foldKnown returns the known elements of c that d knows too; the others go
// to the summary.
func (u *unifier) foldKnown(st *State, c, d *Obj) map[int64]Val {
	var ks []int64
	for k := range c.known {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	out := map[int64]Val{}
	for _, k := range ks {
		v := c.known[k]
		if _, ok := d.known[k]; ok {
			out[k] = v
			continue
		}
		u.cost++
		if untracked(c.t) {
			continue
		}
		c.alts = addAlt(u.e, st, c.alts, u.e.capture(st, v))
	}
	if len(out) == 0 {
		return nil
	}
	return out
}

func (u *unifier) foldEnts(st *State, c, d *Obj) []mapEnt {
	var out []mapEnt
	for _, en := range c.ents {
		k := keyString(en.k)
		found := false
		for _, x := range d.ents {
			if keyString(x.k) == k {
				found = true
			}
		}
		if found {
			out = append(out, en)
			continue
		}
		u.cost++
		c.more = true
		if !untracked(c.t.Underlying().(*types.Map).Elem()) {
			c.alts = addAlt(u.e, st, c.alts, u.e.capture(st, en.v))
		}
	}
	return out
}

// dummy builds a value of v's shape in the state where the real one is nil.
// fromA tells which side v is from.
func (u *unifier) dummy(v Val, from, to *State, fromA bool) Val {
	if u.fail {
		return v
	}
	nl := func(n Nilness) Nilness {
		k := from.nilOf(n)
		if k == 2 {
			return Nilness{k: 2, id: u.e.freshID()}
		}
		return Nilness{k: k}
	}
	switch v := v.(type) {
	case nil:
		return nil
	case IntV:
		return IntV{lc(0)}
	case StrV:
		return StrV{n: lc(0), id: u.e.freshID()}
	case BoolV:
		switch from.evalCond(v.c) {
		case 0:
			return bconst(false)
		case 1:
			return bconst(true)
		}
		return BoolV{CFact{u.e.freshID()}}
	case SliceV:
		n := nl(v.n)
		if n.k == 1 {
			return SliceV{n: isNil}
		}
		return SliceV{n: n, obj: u.dummyObj(v.obj, from, to, fromA), off: lc(0), len: lc(0), cap: lc(0)}
	case PtrV:
		n := nl(v.n)
		if n.k == 1 {
			return PtrV{n: isNil}
		}
		var p []pathElem
		for _, e := range v.path {
			if e.field < 0 {
				e.idx = lc(0)
			}
			p = append(p, e)
		}
		return PtrV{n: n, obj: u.dummyObj(v.obj, from, to, fromA), path: p}
	case IfaceV:
		n := nl(v.n)
		if n.k == 1 {
			return IfaceV{n: isNil}
		}
		r := v
		r.n = n
		if v.t != nil {
			r.v = u.dummy(v.v, from, to, fromA)
		}
		return r
	case FuncV:
		r := v
		r.n = nl(v.n)
		if v.fn != nil {
			r.bind = nil
			for _, x := range v.bind {
				r.bind = append(r.bind, u.dummy(x, from, to, fromA))
			}
		}
		return r
	case MapV:
		n := nl(v.n)
		if n.k == 1 {
			return MapV{n: isNil}
		}
		return MapV{n: n, obj: u.dummyObj(v.obj, from, to, fromA)}
	case StructV:
		f := make([]Val, len(v.f))
		for i, x := range v.f {
			f[i] = u.dummy(x, from, to, fromA)
		}
		return StructV{f}
	case ArrV:
		if v.e == nil {
			return v
		}
		f := make([]Val, len(v.e))
		for i, x := range v.e {
			f[i] = u.dummy(x, from, to, fromA)
		}
		return ArrV{f, v.t}
	case TupleV:
		f := make(TupleV, len(v))
		for i, x := range v {
			f[i] = u.dummy(x, from, to, fromA)
		}
		return f
	case TopV, RTypeV:
		return v
	}
	u.fail = true
	return v
}

func (u *unifier) dummyObj(id ObjID, from, to *State, fromA bool) ObjID {
	u.cost++
	var have ObjID
	var ok bool
	if fromA {
		have, ok = u.pa[id]
	} else {
		have, ok = u.pb[id]
	}
	if ok {
		return have
	}
	o := from.heap[id]
	if o == nil {
		u.fail = true
		return id
	}
	mark := func(other ObjID) {
		if fromA {
			u.pair(id, other)
		} else {
			u.pair(other, id)
		}
	}
	if u.e.initHeap != nil && u.e.initHeap[id] == o || u.e.globalIDs[id] {
		if fromA {
			u.obj(id, id)
		} else {
			u.obj(id, id)
		}
		return id
	}
	c := &Obj{site: o.site, t: o.t, kind: o.kind, two: o.two, top: o.top, more: o.more, escaped: o.escaped, frozen: o.frozen, tag: o.tag}
	nid := u.e.newObj(to, c)
	mark(nid)
	c = to.heap[nid]
	if o.kind == kCell {
		c.cell = u.dummy(o.cell, from, to, fromA)
	}
	if len(o.known) > 0 {
		c.known = map[int64]Val{}
		for k, v := range o.known {
			c.known[k] = u.dummy(v, from, to, fromA)
		}
	}
	c.bound = lc(0)
	for _, en := range o.ents {
		c.ents = append(c.ents, mapEnt{en.k, u.dummy(en.v, from, to, fromA)})
	}
	if len(o.ext) > 0 {
		c.ext = map[string]Val{}
		for k, v := range o.ext {
			c.ext[k] = u.dummy(v, from, to, fromA)
		}
	}
	return nid
}

// merge2 joins two states of any compatible shapes.
func (e *Eng) merge2(x, y *State) (*State, int, bool) {
	a, b, cost, ok := e.unify(x, y)
	if !ok {
		return nil, 0, false
	}
	fa, fb := flatten(a), flatten(b)
	if fa.key != fb.key {
		return nil, 0, false
	}
	c := newStateClass(e, a, fa)
	c.add(b, fb)
	e.stats.Joins++
	return c.state(), cost, true
}

// reduce joins states of different shapes until at most limit remain, as far
// as that is possible.
func (e *Eng) reduce(sts []*State, limit int) []*State {
	if len(sts) <= limit {
		return sts
	}
	var out []*State
	for _, s := range sts {
		if len(out) < limit {
			out = append(out, s)
			continue
		}
		best, bc := -1, 1<<30
		for i, o := range out {
			if _, _, cost, ok := e.unify(o, s); ok && cost < bc {
				best, bc = i, cost
			}
		}
		if best < 0 {
			out = append(out, s)
			continue
		}
		if m, _, ok := e.merge2(out[best], s); ok {
			out[best] = m
		} else {
			out = append(out, s)
		}
	}
	return out
}
