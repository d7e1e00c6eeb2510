package ai

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) freshID() int { e.ids++; return e.ids }

func (e *Eng) newObj(st *State, o *Obj) ObjID {
	e.nobj++
	o.id = ObjID(e.nobj)
	st.heap[o.id] = o
	return o.id
}

// maxLen bounds the length of anything held in memory.
var maxLen = zpow2(47)

func (e *Eng) freshLen(name string) Lin { return ls(e.tab.freshIn(name, zi(0), maxLen)) }

func basicRange(t types.Type) (lo, hi Z, bits uint, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return
	}
	ok = true
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		bits, signed = 64, true
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32:
		bits, signed = 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		bits = 64
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	default:
		return Z{}, Z{}, 0, false, false
	}
	if signed {
		hi = zpow2(bits - 1).sub(zi(1))
		lo = zpow2(bits - 1).neg()
	} else {
		lo, hi = zi(0), zpow2(bits).sub(zi(1))
	}
	return
}

func isInt(t types.Type) bool { _, _, _, _, ok := basicRange(t); return ok }

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// untracked elements: nothing about the contents is kept in summaries.
func untracked(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	if b.Info()&(types.IsString|types.IsFloat|types.IsComplex|types.IsBoolean) != 0 {
		return true
	}
	return b.Kind() == types.Uint8
}

func (e *Eng) topInt(t types.Type, name string) IntV {
	lo, hi, _, _, _ := basicRange(t)
	return IntV{ls(e.tab.freshIn(name, lo, hi))}
}

func (e *Eng) freshStr(name string) StrV {
	return StrV{n: e.freshLen("len " + name), id: e.freshID()}
}

func strVal(s string) StrV { return StrV{n: lc(int64(len(s))), c: &s} }

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// topVal is any value of type t. nn makes the outermost pointer non-nil.
func (e *Eng) topVal(st *State, t types.Type, name string, depth int, nn bool) Val {
	n := Nilness{k: 2, id: 0}
	mk := func() Nilness {
		if nn {
			return nonNil
		}
		n.id = e.freshID()
		return n
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return e.topInt(t, name)
		case u.Info()&types.IsBoolean != 0:
			return BoolV{CFact{e.freshID()}}
		case u.Info()&types.IsString != 0:
			return e.freshStr(name)
		}
		return TopV{t}
	case *types.Slice:
		l := e.freshLen("len " + name)
		c := e.tab.freshIn("cap "+name, zi(0), maxLen)
		e.tab.info[c].cons = append(e.tab.info[c].cons, &Con{e: l.sub(ls(c))})
		o := &Obj{kind: kArr, t: u.Elem(), site: name, top: !untracked(u.Elem())}
		id := e.newObj(st, o)
		s := SliceV{n: mk(), obj: id, off: lc(0), len: l, cap: ls(c)}
		if s.n.k == 2 {
			// a nil slice has no elements; treat it as empty and non-nil too
			s.n = Nilness{k: 2, id: s.n.id}
		}
		return s
	case *types.Array:
		return ArrV{nil, u}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = e.topVal(st, u.Field(i).Type(), name+"."+u.Field(i).Name(), depth, false)
		}
		return StructV{f}
	case *types.Pointer:
		if depth <= 0 {
			return TopV{t}
		}
		return PtrV{n: mk(), obj: e.newCell(st, u.Elem(), e.topVal(st, u.Elem(), name, depth-1, false), name)}
	case *types.Map:
		o := &Obj{kind: kMap, t: t, site: name, top: true, more: true}
		return MapV{n: mk(), obj: e.newObj(st, o)}
	case *types.Interface:
		return IfaceV{n: mk(), id: e.freshID()}
	case *types.Signature:
		return FuncV{n: mk(), top: t}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = e.topVal(st, u.At(i).Type(), name, depth, false)
		}
		return tv
	}
	return TopV{t}
}

// newCell makes a cell of type t; arrays become array objects.
func (e *Eng) newCell(st *State, t types.Type, v Val, site string) ObjID {
	if a, ok := t.Underlying().(*types.Array); ok {
		o := &Obj{kind: kArr, t: a.Elem(), site: site}
		if av, ok := v.(ArrV); ok && av.e != nil {
			o.known = map[int64]Val{}
			for i, x := range av.e {
				o.known[int64(i)] = x
			}
		} else {
			o.top = !untracked(a.Elem())
		}
		return e.newObj(st, o)
	}
	return e.newObj(st, &Obj{kind: kCell, t: t, cell: v, site: site})
}

func (e *Eng) zero(st *State, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntV{lc(0)}
		case u.Info()&types.IsBoolean != 0:
			return bconst(false)
		case u.Info()&types.IsString != 0:
			return strVal("")
		case u.Kind() == types.UnsafePointer:
			return PtrV{n: isNil}
		}
		return TopV{t}
	case *types.Slice:
		return SliceV{n: isNil}
	case *types.Array:
		if u.Len() <= 16 {
			a := make([]Val, u.Len())
			for i := range a {
				a[i] = e.zero(st, u.Elem())
			}
			return ArrV{a, u}
		}
		return ArrV{nil, u}
	case *types.Struct:
		if isReflectValue(t) {
			return ReflV{}
		}
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = e.zero(st, u.Field(i).Type())
		}
		return StructV{f}
	case *types.Pointer:
		return PtrV{n: isNil}
	case *types.Map:
		return MapV{n: isNil}
	case *types.Interface:
		return IfaceV{n: isNil}
	case *types.Signature:
		return FuncV{n: isNil}
	}
	return TopV{t}
}

func (e *Eng) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		return e.zero(st, c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return bconst(constant.BoolVal(c.Value))
	case constant.String:
		return strVal(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			x, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return IntV{lz(zbig(x))}
		}
	}
	return TopV{c.Type()}
}

// capture makes a private, state-independent copy of v's graph.
func (e *Eng) capture(st *State, v Val) *Alt {
	m := newMapper(st, func(id ObjID) *Obj { return st.heap[id] })
	nv := m.val(v)
	for id := range m.out {
		if o := st.heap[id]; !o.escaped {
			c := *o
			c.escaped = true
			st.heap[id] = &c
		}
	}
	// leaves must not depend on the facts of st
	lv := append([]leaf(nil), m.leaves...)
	for i, l := range lv {
		switch l.kind {
		case 's':
			if l.s.c == nil {
				lv[i].s = StrV{id: e.freshID(), src: l.s.src}
			}
		case 'n':
			lv[i].n = Nilness{k: 2, id: e.freshID()}
		case 'b':
			lv[i].c = CFact{e.freshID()}
		}
	}
	m2 := newMapper(st, func(id ObjID) *Obj {
		if o := m.out[id]; o != nil {
			return o
		}
		return st.heap[id]
	})
	m2.repl = lv
	v2 := m2.val(nv)
	a := &Alt{v: v2, objs: m2.out, key: m2.b.String(), leaves: lv}
	return a
}

// instance makes a fresh copy of a summarised element.
func (e *Eng) instance(st *State, a *Alt) Val {
	ren := map[Sym]Sym{}
	for _, s := range a.locals {
		i := e.tab.info[s]
		n := e.tab.fresh(i.name + "'")
		e.tab.info[n].lo, e.tab.info[n].hi = i.lo, i.hi
		e.tab.info[n].hasLo, e.tab.info[n].hasHi = i.hasLo, i.hasHi
		ren[s] = n
	}
	lv := make([]leaf, len(a.leaves))
	for i, l := range a.leaves {
		switch l.kind {
		case 'i':
			l.l = l.l.rename(ren)
		case 's':
			if l.s.c == nil {
				l.s.id = e.freshID()
			}
		case 'n':
			l.n = Nilness{k: 2, id: e.freshID()}
		case 'b':
			l.c = CFact{e.freshID()}
		}
		lv[i] = l
	}
	m := newMapper(st, func(id ObjID) *Obj {
		if o := a.objs[id]; o != nil {
			return o
		}
		return st.heap[id]
	})
	m.repl = lv
	v := m.val(a.v)
	idm := map[ObjID]ObjID{}
	for id := range a.objs {
		e.nobj++
		idm[id] = ObjID(e.nobj)
	}
	for id := range a.objs {
		o := m.out[id]
		if o == nil {
			o = a.objs[id]
		}
		c := *o
		c.id = idm[id]
		c.escaped = true
		c.cell = renameObjs(c.cell, idm)
		if len(c.known) > 0 {
			k := map[int64]Val{}
			for i, x := range c.known {
				k[i] = renameObjs(x, idm)
			}
			c.known = k
		}
		if len(c.ents) > 0 {
			var es []mapEnt
			for _, x := range c.ents {
				es = append(es, mapEnt{x.k, renameObjs(x.v, idm)})
			}
			c.ents = es
		}
		st.heap[c.id] = &c
	}
	for _, c := range a.cons {
		r := c.e.rename(ren)
		st.cs.list = append(st.cs.list, &Con{r, c.eq})
	}
	return renameObjs(v, idm)
}

func renameObjs(v Val, m map[ObjID]ObjID) Val {
	if len(m) == 0 {
		return v
	}
	f := func(id ObjID) ObjID {
		if n, ok := m[id]; ok {
			return n
		}
		return id
	}
	switch v := v.(type) {
	case SliceV:
		v.obj = f(v.obj)
		return v
	case PtrV:
		v.obj = f(v.obj)
		return v
	case MapV:
		v.obj = f(v.obj)
		return v
	case IfaceV:
		if v.v != nil {
			v.v = renameObjs(v.v, m)
		}
		return v
	case FuncV:
		b := make([]Val, len(v.bind))
		for i, x := range v.bind {
			b[i] = renameObjs(x, m)
		}
		v.bind = b
		return v
	case StructV:
		n := make([]Val, len(v.f))
		for i, x := range v.f {
			n[i] = renameObjs(x, m)
		}
		return StructV{n}
	case ArrV:
		if v.e == nil {
			return v
		}
		n := make([]Val, len(v.e))
		for i, x := range v.e {
			n[i] = renameObjs(x, m)
		}
		return ArrV{n, v.t}
	case TupleV:
		n := make(TupleV, len(v))
		for i, x := range v {
			n[i] = renameObjs(x, m)
		}
		return n
	case ReflV:
		v.root = f(v.root)
		return v
	}
	return v
}

type valSt struct {
	v  Val
	st *State
}

func (st *State) setObj(o *Obj) {
	if st.eng.globalIDs[o.id] || st.eng.initHeap[o.id] != nil && st.heap[o.id] == st.eng.initHeap[o.id] {
		st.eng.addRoot(o.id)
	}
	st.heap[o.id] = o
}

func (e *Eng) addRoot(id ObjID) {
	for _, r := range e.roots {
		if r == id {
			return
		}
	}
	e.roots = append(e.roots, id)
}

// loadElem reads element idx of array object id.
func (e *Eng) loadElem(st *State, id ObjID, idx Lin) []valSt {
	o := st.heap[id]
	if i, ok := idx.constInt(); ok {
		if v, ok := o.known[i]; ok {
			return []valSt{{v, st}}
		}
	}
	for _, m := range o.memo {
		if m.idx.same(idx) || st.cs.entailsEQ(m.idx.sub(idx)) {
			return []valSt{{m.v, st}}
		}
	}
	memo := func(st *State, v Val) valSt {
		c := *st.heap[id]
		c.memo = append(c.memo[:len(c.memo):len(c.memo)], memoEnt{idx, v})
		if len(c.memo) > 12 {
			c.memo = c.memo[len(c.memo)-12:]
		}
		if st.heap[id] == e.initHeap[id] {
			return valSt{v, st}
		}
		st.heap[id] = &c
		return valSt{v, st}
	}
	var out []valSt
	if untracked(o.t) || o.top {
		v := e.topVal(st, o.t, "elem", 3, false)
		if s, ok := v.(StrV); ok {
			s.src = &strSrc{kind: "elem", obj: id, idx: idx}
			if x, ok := o.ext["split"]; ok {
				sv := x.(StrV)
				s.src.of = &sv
			}
			v = s
		}
		return []valSt{memo(st, v)}
	}
	if len(o.known) > 0 {
		for k, v := range o.known {
			n := st.clone()
			if n.assumeLin(idx.addc(-k), true) {
				out = append(out, valSt{v, n})
			}
		}
		if len(o.alts) == 0 && len(o.low) == 0 {
			return out
		}
	}
	alts := append(append([]*Alt(nil), o.low...), o.alts...)
	if o.two {
		if st.cs.entailsLE(idx.sub(o.bound).addc(1)) {
			alts = o.low
		} else if st.cs.entailsLE(o.bound.sub(idx)) {
			alts = o.alts
		}
	}
	alts = mergeAlts(e, st, alts)
	for i, a := range alts {
		n := st
		if i < len(alts)-1 || len(out) > 0 {
			n = st.clone()
		}
		v := e.instance(n, a)
		out = append(out, memo(n, v))
	}
	return out
}

// storeElem writes element idx of array object id.
func (e *Eng) storeElem(st *State, id ObjID, idx Lin, v Val) {
	o := st.heap[id]
	c := o.copy()
	if o.top {
		c.memo = nil
		st.setObj(c)
		return
	}
	if i, ok := idx.constInt(); ok && (len(o.known) > 0 || (len(o.alts) == 0 && len(o.low) == 0)) && i < 64 {
		if _, have := o.known[i]; have || len(o.alts)+len(o.low) == 0 || untracked(o.t) {
			k := make(map[int64]Val, len(o.known)+1)
			for x, y := range o.known {
				k[x] = y
			}
			k[i] = v
			c.known = k
			c.memo = nil
			st.setObj(c)
			return
		}
	}
	if untracked(o.t) {
		var keep []memoEnt
		for _, m := range o.memo {
			if st.cs.entailsNE(m.idx.sub(idx)) {
				keep = append(keep, m)
			}
		}
		c.memo = append(keep, memoEnt{idx, v})
		c.known = nil
		st.setObj(c)
		e.escapedStore(st, o, true)
		return
	}
	alt := e.capture(st, v)
	// capture may have replaced heap objects (escaped marks)
	c = st.heap[id].copy()
	if len(c.known) > 0 {
		for _, x := range c.known {
			a := e.capture(st, x)
			c.alts = addAlt(e, st, c.alts, a)
		}
		c.known = nil
	}
	switch {
	case !c.two && idx.isConst() && idx.k.sign() == 0 && !o.escaped:
		c.two, c.bound = true, lc(1)
		c.low = []*Alt{alt}
	case c.two && st.cs.entailsEQ(idx.sub(c.bound)):
		c.bound = c.bound.addc(1)
		c.low = addAlt(e, st, c.low, alt)
	case c.two && st.cs.entailsLE(idx.sub(c.bound).addc(1)):
		c.low = addAlt(e, st, c.low, alt)
	case c.two:
		c.low = addAlt(e, st, c.low, alt)
		c.alts = addAlt(e, st, c.alts, alt)
	default:
		c.alts = addAlt(e, st, c.alts, alt)
	}
	c.memo = []memoEnt{{idx, v}}
	st.setObj(c)
	e.escapedStore(st, o, false)
}

func addAlt(e *Eng, st *State, alts []*Alt, a *Alt) []*Alt {
	for _, b := range alts {
		if b.key != a.key {
			continue
		}
		same := len(b.locals) == 0
		for i := range a.leaves {
			if !same {
				break
			}
			x, y := a.leaves[i], b.leaves[i]
			switch x.kind {
			case 'i':
				same = x.l.same(y.l)
			case 's':
				same = (x.s.c == nil && y.s.c == nil) || sameStr(x.s, y.s)
			}
		}
		if same {
			return alts
		}
	}
	alts = append(alts[:len(alts):len(alts)], a)
	if len(alts) > 4 {
		alts = mergeAlts(e, st, alts)
	}
	return alts
}

// escapedStore handles a store into an object some summary also holds.
func (e *Eng) escapedStore(st *State, o *Obj, contents bool) {
	if !o.escaped || (contents && untracked(o.t)) {
		return
	}
	for id, h := range st.heap {
		if len(h.alts) == 0 && len(h.low) == 0 {
			continue
		}
		hit := false
		for _, a := range append(append([]*Alt(nil), h.low...), h.alts...) {
			for _, x := range a.objs {
				if x.kind == o.kind && types.Identical(x.t, o.t) {
					hit = true
				}
			}
		}
		if hit && id != o.id {
			c := h.copy()
			c.top, c.alts, c.low, c.two, c.memo = true, nil, nil, false, nil
			st.setObj(c)
		}
	}
}

// project follows path inside v.
func (e *Eng) project(st *State, v Val, path []pathElem, t types.Type) []valSt {
	for i, p := range path {
		switch x := v.(type) {
		case StructV:
			v = x.f[p.field]
		case ArrV:
			if x.e == nil {
				v = e.topVal(st, x.t.Elem(), "elem", 2, false)
				continue
			}
			if k, ok := p.idx.constInt(); ok && k >= 0 && k < int64(len(x.e)) {
				v = x.e[k]
				continue
			}
			var out []valSt
			for k := range x.e {
				n := st.clone()
				if n.assumeLin(p.idx.addc(-int64(k)), true) {
					out = append(out, e.project(n, x.e[k], path[i+1:], t)...)
				}
			}
			return out
		default:
			return []valSt{{e.topVal(st, t, "part", 2, false), st}}
		}
	}
	return []valSt{{v, st}}
}

// update replaces the part of v at path.
func (e *Eng) update(st *State, v Val, path []pathElem, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch x := v.(type) {
	case StructV:
		f := append([]Val(nil), x.f...)
		f[p.field] = e.update(st, f[p.field], path[1:], nv)
		return StructV{f}
	case ArrV:
		if x.e == nil {
			return x
		}
		a := append([]Val(nil), x.e...)
		if k, ok := p.idx.constInt(); ok && k >= 0 && k < int64(len(a)) {
			a[k] = e.update(st, a[k], path[1:], nv)
			return ArrV{a, x.t}
		}
		return ArrV{nil, x.t}
	}
	return v
}

// load reads through p.
func (e *Eng) load(st *State, p PtrV, t types.Type) []valSt {
	o := st.heap[p.obj]
	if o == nil {
		return []valSt{{e.topVal(st, t, "load", 2, false), st}}
	}
	switch o.kind {
	case kCell:
		v := o.cell
		if len(p.path) == 0 {
			if isStr(t) {
				if s, ok := v.(SliceV); ok {
					r := StrV{n: s.len, id: e.freshID(), src: &strSrc{kind: "bytes", obj: s.obj, idx: s.off}}
					if st.nilOf(s.n) == 1 {
						r.n = lc(0)
					}
					return []valSt{{r, st}}
				}
			}
			if tv, ok := v.(TopV); ok {
				_ = tv
				return []valSt{{e.topVal(st, t, "load", 2, false), st}}
			}
			return []valSt{{v, st}}
		}
		return e.project(st, v, p.path, t)
	case kArr:
		if len(p.path) == 0 {
			// the whole array
			a, ok := t.Underlying().(*types.Array)
			if !ok {
				return []valSt{{e.topVal(st, t, "load", 2, false), st}}
			}
			if int64(len(o.known)) == a.Len() {
				vs := make([]Val, a.Len())
				for i := range vs {
					vs[i] = o.known[int64(i)]
				}
				return []valSt{{ArrV{vs, a}, st}}
			}
			return []valSt{{ArrV{nil, a}, st}}
		}
		var out []valSt
		for _, r := range e.loadElem(st, p.obj, p.path[0].idx) {
			out = append(out, e.project(r.st, r.v, p.path[1:], t)...)
		}
		return out
	}
	return []valSt{{e.topVal(st, t, "load", 2, false), st}}
}

func (e *Eng) store(st *State, p PtrV, v Val) []*State {
	o := st.heap[p.obj]
	if o == nil {
		return []*State{st}
	}
	switch o.kind {
	case kCell:
		c := o.copy()
		c.cell = e.update(st, o.cell, p.path, v)
		st.setObj(c)
		e.escapedStore(st, o, false)
	case kArr:
		if len(p.path) == 0 {
			c := o.copy()
			c.memo, c.alts, c.low, c.two, c.top = nil, nil, nil, false, false
			c.known = nil
			if a, ok := v.(ArrV); ok && a.e != nil {
				c.known = map[int64]Val{}
				for i, x := range a.e {
					c.known[int64(i)] = x
				}
			} else {
				c.top = !untracked(o.t)
			}
			st.setObj(c)
			return []*State{st}
		}
		if len(p.path) == 1 {
			e.storeElem(st, p.obj, p.path[0].idx, v)
			return []*State{st}
		}
		var out []*State
		for _, r := range e.loadElem(st, p.obj, p.path[0].idx) {
			e.storeElem(r.st, p.obj, p.path[0].idx, e.update(r.st, r.v, p.path[1:], v))
			out = append(out, r.st)
		}
		return out
	}
	return []*State{st}
}

func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func describe(v Val) string {
	switch v := v.(type) {
	case IntV:
		return v.L.String()
	case SliceV:
		return fmt.Sprintf("slice(n=%v obj=%d off=%s len=%s)", v.n, v.obj, v.off, v.len)
	case PtrV:
		return fmt.Sprintf("ptr(n=%v obj=%d)", v.n, v.obj)
	case StrV:
		if v.c != nil {
			return fmt.Sprintf("%q", *v.c)
		}
		return fmt.Sprintf("str(%d len=%s)", v.id, v.n)
	case IfaceV:
		return fmt.Sprintf("iface(n=%v t=%v %s)", v.n, v.t, v.tag)
	case StructV:
		s := "{"
		for _, x := range v.f {
			s += describe(x) + ", "
		}
		return s + "}"
	case TupleV:
		s := "("
		for _, x := range v {
			s += describe(x) + ", "
		}
		return s + ")"
	case BoolV:
		return "bool(" + condKey(v.c) + ")"
	}
	return fmt.Sprintf("%T", v)
}
