package ai

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cctx is one call handled by a model.
type cctx struct {
	name string
	fn   *ssa.Function
	sig  *types.Signature
	args []Val
	site ssa.Instruction
}

type model func(e *Eng, st *State, c *cctx) []ret

func one(st *State, v ...Val) []ret { return []ret{{st, v}} }

func (e *Eng) call(st *State, c *ssa.CallCommon, site ssa.Instruction) []ret {
	if c.IsInvoke() {
		return e.invoke(st, c, site)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.get(st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(st, b, c, args, site)
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			if fv, ok := e.get(st, mc).(FuncV); ok {
				binds = fv.bind
			}
		}
		return e.callFn(st, fn, args, binds, site)
	}
	f, ok := e.get(st, c.Value).(FuncV)
	if !ok {
		e.undecided(st, site, "call of unknown value")
		return e.havocCall(st, c.Signature(), args, "dyn")
	}
	var out []ret
	for _, s := range e.need(st, site, "nil", "call of nil function", CNot{nilCond(f.n)}) {
		if f.fn == nil {
			out = append(out, e.havocCall(s, c.Signature(), args, "dyn")...)
			continue
		}
		out = append(out, e.callFn(s, f.fn, args, f.bind, site)...)
	}
	return out
}

func (e *Eng) invoke(st *State, c *ssa.CallCommon, site ssa.Instruction) []ret {
	x, ok := e.get(st, c.Value).(IfaceV)
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.get(st, a))
	}
	if !ok {
		e.undecided(st, site, "method of unknown value")
		return e.havocCall(st, c.Signature(), args, c.Method.Name())
	}
	var out []ret
	for _, s := range e.need(st, site, "nil", "method call on nil interface", CNot{nilCond(x.n)}) {
		out = append(out, e.invokeOn(s, x, c.Method, args, site)...)
	}
	return out
}

func (e *Eng) invokeOn(st *State, x IfaceV, m *types.Func, args []Val, site ssa.Instruction) []ret {
	full := m.FullName()
	sig := m.Type().(*types.Signature)
	if rt, ok := x.v.(RTypeV); ok {
		return e.rtypeCall(st, rt, m.Name(), args, site)
	}
	if x.t != nil {
		if _, isIface := x.t.Underlying().(*types.Interface); !isIface {
			fn := e.prog.LookupMethod(x.t, m.Pkg(), m.Name())
			if fn != nil {
				return e.callFn(st, fn, append([]Val{x.v}, args...), nil, site)
			}
		}
	}
	if md := e.models["invoke "+full]; md != nil {
		return md(e, st, &cctx{name: full, sig: sig, args: append([]Val{x}, args...), site: site})
	}
	if full == "(error).Error" || m.Name() == "String" {
		return one(st, e.freshStr(m.Name()))
	}
	e.undecided(st, site, "method of unknown implementation: "+full)
	return e.havocCall(st, sig, args, m.Name())
}

// havocCall is a call nothing is known about: results are arbitrary.
func (e *Eng) havocCall(st *State, sig *types.Signature, args []Val, name string) []ret {
	for _, a := range args {
		e.havocVal(st, a)
	}
	var vs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		vs = append(vs, e.topVal(st, sig.Results().At(i).Type(), name, 2, false))
	}
	return []ret{{st, vs}}
}

// extResult is the result of a library function: when its error is nil, its
// pointers are set.
func (e *Eng) extResult(st *State, sig *types.Signature, name string) []ret {
	n := sig.Results().Len()
	hasErr := n > 1 && isErrorType(sig.Results().At(n-1).Type())
	mk := func(s *State, nn bool) []Val {
		var vs []Val
		for i := 0; i < n; i++ {
			t := sig.Results().At(i).Type()
			vs = append(vs, e.topVal(s, t, name, 2, nn && !isErrorType(t)))
		}
		return vs
	}
	if !hasErr {
		return []ret{{st, mk(st, true)}}
	}
	bad := st.clone()
	good := mk(st, true)
	good[n-1] = IfaceV{n: isNil}
	bv := mk(bad, false)
	bv[n-1] = IfaceV{n: nonNil, id: e.freshID(), tag: name}
	return []ret{{st, good}, {bad, bv}}
}

// havocVal forgets what v points to.
func (e *Eng) havocVal(st *State, v Val) {
	switch v := v.(type) {
	case PtrV:
		e.havocObj(st, v.obj)
	case SliceV:
		e.havocObj(st, v.obj)
	case MapV:
		e.havocObj(st, v.obj)
	case IfaceV:
		if v.v != nil {
			e.havocVal(st, v.v)
		}
	case ReflV:
		e.reflHavoc(st, v)
	}
}

func (e *Eng) havocObj(st *State, id ObjID) {
	o := st.heap[id]
	if o == nil || o.kind == kOpaque {
		return
	}
	c := o.copy()
	c.memo, c.known, c.alts, c.low, c.two = nil, nil, nil, nil, false
	switch o.kind {
	case kCell:
		c.cell = e.topVal(st, o.t, "havoc", 2, false)
	case kArr:
		c.top = !untracked(o.t)
		c.ext = nil
	case kMap:
		c.ents, c.more, c.top, c.ext = nil, true, true, nil
	}
	st.setObj(c)
	e.escapedStore(st, o, false)
}

func (e *Eng) lenOf(st *State, v Val) (Lin, bool) {
	switch x := v.(type) {
	case SliceV:
		if st.nilOf(x.n) == 1 {
			return lc(0), true
		}
		return x.len, true
	case StrV:
		if c, ok := st.strConst(x); ok {
			return lc(int64(len(c))), true
		}
		return x.n, true
	case ArrV:
		return lc(x.t.Len()), true
	}
	return Lin{}, false
}

func (e *Eng) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, site ssa.Instruction) []ret {
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case SliceV:
			if st.nilOf(x.n) == 1 {
				return one(st, IntV{lc(0)})
			}
			if b.Name() == "cap" {
				return one(st, IntV{x.cap})
			}
			return one(st, IntV{x.len})
		case MapV:
			if st.nilOf(x.n) == 1 {
				return one(st, IntV{lc(0)})
			}
			o := st.heap[x.obj]
			if o != nil && !o.more && !o.top {
				return one(st, IntV{lc(int64(len(o.ents)))})
			}
			lo := 0
			if o != nil {
				lo = len(o.ents)
			}
			if o != nil {
				if n, ok := o.ext["size"].(IntV); ok {
					return one(st, n)
				}
			}
			n := IntV{ls(e.tab.freshIn("maplen", zi(int64(lo)), maxLen))}
			if o != nil && !o.escaped && o.kind == kMap && e.initHeap[x.obj] == nil && !e.globalIDs[x.obj] {
				c := o.copy()
				c.ext = map[string]Val{"size": n}
				st.setObj(c)
			}
			return one(st, n)
		case PtrV:
			if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return one(st, IntV{lc(a.Len())})
				}
			}
		}
		if l, ok := e.lenOf(st, args[0]); ok {
			return one(st, IntV{l})
		}
		return one(st, IntV{e.freshLen("len")})
	case "append":
		return one(st, e.appendTo(st, args[0], args[1], c, site))
	case "copy":
		dst, ok := args[0].(SliceV)
		ld, ok1 := e.lenOf(st, args[0])
		lsrc, ok2 := e.lenOf(st, args[1])
		if !ok || !ok1 || !ok2 {
			return one(st, IntV{e.freshLen("copied")})
		}
		if st.nilOf(dst.n) != 1 {
			e.copyInto(st, dst, args[1])
		}
		return one(st, IntV{e.minOf(st, ld, lsrc)})
	case "delete":
		if m, ok := args[0].(MapV); ok && st.nilOf(m.n) != 1 {
			e.mapDelete(st, m, args[1])
		}
		return one(st)
	case "min", "max":
		a, ok := args[0].(IntV)
		if ok {
			for _, x := range args[1:] {
				y, ok := x.(IntV)
				if !ok {
					return one(st, e.topVal(st, c.Signature().Results().At(0).Type(), "m", 1, false))
				}
				if b.Name() == "min" {
					a = IntV{e.minOf(st, a.L, y.L)}
				} else {
					a = IntV{e.minOf(st, a.L.neg(), y.L.neg()).neg()}
				}
			}
			return one(st, a)
		}
	case "clear":
		e.havocVal(st, args[0])
		return one(st)
	case "print", "println":
		return one(st)
	case "ssa:wrapnilchk":
		p, ok := args[0].(PtrV)
		if !ok {
			return one(st, args[0])
		}
		var out []ret
		for _, s := range e.need(st, site, "nil", "method of nil pointer", CNot{nilCond(p.n)}) {
			out = append(out, ret{s, []Val{p}})
		}
		return out
	case "recover":
		return one(st, IfaceV{n: isNil})
	}
	e.undecided(st, site, "builtin "+b.Name())
	return e.havocCall(st, c.Signature(), args, b.Name())
}

func (e *Eng) minOf(st *State, a, b Lin) Lin {
	if a.same(b) {
		return a
	}
	if st.cs.entailsLE(a.sub(b)) {
		return a
	}
	if st.cs.entailsLE(b.sub(a)) {
		return b
	}
	m := e.tab.fresh("min")
	i := &e.tab.info[m]
	i.cons = append(i.cons, &Con{e: ls(m).sub(a)}, &Con{e: ls(m).sub(b)})
	ba, bb := st.cs.interval(a), st.cs.interval(b)
	if ba.hasLo && bb.hasLo {
		i.lo, i.hasLo = zmin(ba.lo, bb.lo), true
	}
	return ls(m)
}

func (e *Eng) mapDelete(st *State, m MapV, k Val) {
	o := st.heap[m.obj]
	c := o.copy()
	c.ext = nil
	k = e.resolveKey(st, k)
	c.ents = nil
	for _, en := range o.ents {
		switch e.keyCmp(en.k, k) {
		case 1:
			continue
		case 2:
			if !c.top && !untracked(o.t.Underlying().(*types.Map).Elem()) {
				c.alts = addAlt(e, st, c.alts, e.capture(st, en.v))
			}
			c.more = true
			continue
		}
		c.ents = append(c.ents, en)
	}
	c.escaped = st.heap[m.obj].escaped
	st.setObj(c)
}

// copyInto models copy(dst, src) on the contents.
func (e *Eng) copyInto(st *State, dst SliceV, src Val) {
	o := st.heap[dst.obj]
	if o == nil {
		return
	}
	c := o.copy()
	c.memo, c.ext = nil, nil
	if !untracked(o.t) && !o.top {
		for _, x := range o.known {
			c.alts = addAlt(e, st, c.alts, e.capture(st, x))
		}
		c.known = nil
		if s, ok := src.(SliceV); ok {
			if so := st.heap[s.obj]; so != nil && st.nilOf(s.n) != 1 {
				c.top = c.top || so.top
				alts, top := e.allAlts(st, so)
				c.top = c.top || top
				for _, a := range alts {
					c.alts = addAlt(e, st, c.alts, a)
					c.low = addAltIf(e, st, c.two, c.low, a)
				}
			}
		}
		if c.top {
			c.alts, c.low, c.two = nil, nil, false
		}
	} else {
		c.known = nil
	}
	c.escaped = st.heap[dst.obj].escaped
	st.setObj(c)
	e.escapedStore(st, o, untracked(o.t))
}

func addAltIf(e *Eng, st *State, on bool, alts []*Alt, a *Alt) []*Alt {
	if !on {
		return alts
	}
	return addAlt(e, st, alts, a)
}

// allAlts summarises every element of o.
func (e *Eng) allAlts(st *State, o *Obj) ([]*Alt, bool) {
	if o.top {
		return nil, true
	}
	var out []*Alt
	for _, a := range o.low {
		out = addAlt(e, st, out, a)
	}
	for _, a := range o.alts {
		out = addAlt(e, st, out, a)
	}
	for _, x := range o.known {
		out = addAlt(e, st, out, e.capture(st, x))
	}
	return out, false
}

// appendTo models append(s, t...).
func (e *Eng) appendTo(st *State, sv, tv Val, c *ssa.CallCommon, site ssa.Instruction) Val {
	elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	s, ok := sv.(SliceV)
	if !ok {
		return e.topVal(st, c.Args[0].Type(), "app", 1, false)
	}
	l0, _ := e.lenOf(st, sv)
	tl, ok := e.lenOf(st, tv)
	if !ok {
		return e.topVal(st, c.Args[0].Type(), "app", 1, false)
	}
	if tl.isConst() && tl.k.sign() == 0 {
		return sv
	}
	isNilS := st.nilOf(s.n) == 1
	var old *Obj
	if !isNilS {
		old = st.heap[s.obj]
	}
	n := l0.add(tl)
	res := SliceV{n: nonNil, off: lc(0), len: n}
	if b := st.cs.interval(n); !b.hasHi || b.hi.cmp(maxLen) > 0 {
		// a result longer than memory allows does not exist
		st.assumeLin(n.addScaled(lz(maxLen), zi(-1)), false)
	}
	if !(tl.isConst()) {
		// an empty argument leaves nil as it is
		if isNilS || st.nilOf(s.n) == 2 {
			res.n = Nilness{k: 2, id: e.freshID()}
			if st.cs.entailsLE(lc(1).sub(tl)) {
				res.n = nonNil
			}
		}
	}
	cp := e.tab.fresh("cap")
	e.tab.info[cp].lo, e.tab.info[cp].hasLo = zi(0), true
	e.tab.info[cp].hi, e.tab.info[cp].hasHi = maxLen.mul(zi(4)), true
	e.tab.info[cp].cons = append(e.tab.info[cp].cons, &Con{e: n.sub(ls(cp))})
	res.cap = ls(cp)
	no := &Obj{kind: kArr, t: elem, site: "append"}
	if old != nil {
		no.top, no.frozen = old.top, ""
		zeroOff := s.off.isConst() && s.off.k.sign() == 0
		if zeroOff {
			no.alts, no.low, no.bound, no.two, no.known, no.memo = old.alts, old.low, old.bound, old.two, old.known, old.memo
			if no.known != nil {
				if v, ok := l0.constInt(); ok {
					// elements beyond the length are not part of the result
					k := map[int64]Val{}
					for i, x := range no.known {
						if i < v {
							k[i] = x
						}
					}
					no.known = k
				}
			}
			if l0.isConst() && l0.k.sign() == 0 {
				no.alts, no.low, no.two, no.known, no.memo = nil, nil, false, nil, nil
			}
		} else {
			no.alts, no.top = e.allAlts(st, old)
		}
		if old.frozen != "" && !st.cs.entailsLE(s.cap.sub(l0)) {
			st.note("append into " + old.frozen)
		}
	}
	res.obj = e.newObj(st, no)
	if untracked(elem) || no.top {
		o := no.copy()
		o.known = nil
		if ts, ok := tv.(SliceV); ok && isStr(elem) && !no.top {
			if k, ok := tl.constInt(); ok && k <= 8 {
				if to := st.heap[ts.obj]; to != nil {
					for i := int64(0); i < k; i++ {
						if ix, ok := ts.off.addc(i).constInt(); ok {
							if v, ok := to.known[ix]; ok {
								o.memo = append(o.memo[:len(o.memo):len(o.memo)], memoEnt{l0.addc(i), v})
							}
						}
					}
				}
			}
		}
		st.heap[res.obj] = o
		return res
	}
	ts, ok := tv.(SliceV)
	if !ok {
		return res
	}
	if k, ok := tl.constInt(); ok && k <= 16 {
		for i := int64(0); i < k; i++ {
			rs := e.loadElem(st, ts.obj, ts.off.addc(i))
			if len(rs) == 1 && rs[0].st == st {
				e.appendElem(st, res.obj, l0.addc(i), rs[0].v)
				continue
			}
			for _, r := range rs {
				o := st.heap[res.obj].copy()
				o.alts = addAlt(e, st, o.alts, e.capture(r.st, r.v))
				if o.two {
					o.low = addAlt(e, st, o.low, e.capture(r.st, r.v))
				}
				st.heap[res.obj] = o
			}
		}
	} else if to := st.heap[ts.obj]; to != nil {
		alts, top := e.allAlts(st, to)
		o := st.heap[res.obj].copy()
		for _, x := range o.known {
			o.alts = addAlt(e, st, o.alts, e.capture(st, x))
		}
		o.known, o.memo = nil, nil
		for _, a := range alts {
			o.alts = addAlt(e, st, o.alts, a)
			if o.two {
				o.low = addAlt(e, st, o.low, a)
			}
		}
		if top {
			o.top, o.alts, o.low, o.two = true, nil, nil, false
		}
		st.heap[res.obj] = o
	}
	return res
}

// appendElem writes the element just beyond the end, keeping the two
// segments rather than named elements.
func (e *Eng) appendElem(st *State, id ObjID, idx Lin, v Val) {
	o := st.heap[id]
	if o.top {
		return
	}
	if len(o.known) > 0 {
		c := o.copy()
		var low []*Alt
		full := true
		for i := int64(0); i < int64(len(o.known)); i++ {
			x, ok := o.known[i]
			if !ok {
				full = false
				break
			}
			low = addAlt(e, st, low, e.capture(st, x))
		}
		if full && len(o.alts) == 0 && len(o.low) == 0 {
			c = st.heap[id].copy()
			c.known = nil
			c.two, c.bound, c.low = true, lc(int64(len(o.known))), low
			st.heap[id] = c
		}
	}
	o = st.heap[id]
	alt := e.capture(st, v)
	c := st.heap[id].copy()
	switch {
	case len(o.known) > 0:
		for _, x := range o.known {
			c.alts = addAlt(e, st, c.alts, e.capture(st, x))
		}
		c.known = nil
		c.alts = addAlt(e, st, c.alts, alt)
	case !o.two && len(o.alts) == 0:
		c.two, c.bound, c.low = true, idx.addc(1), []*Alt{alt}
		if !(idx.isConst() && idx.k.sign() == 0) {
			c.two = false
			c.alts, c.low = []*Alt{alt}, nil
		}
	case o.two && st.cs.entailsEQ(idx.sub(o.bound)):
		c.bound = o.bound.addc(1)
		c.low = addAlt(e, st, o.low, alt)
	case o.two:
		c.alts = addAlt(e, st, o.alts, alt)
		c.low = addAlt(e, st, o.low, alt)
	default:
		c.alts = addAlt(e, st, o.alts, alt)
	}
	c.memo = nil
	if len(o.memo) > 0 {
		c.memo = o.memo
	}
	c.memo = append(c.memo[:len(c.memo):len(c.memo)], memoEnt{idx, v})
	if len(c.memo) > 4 {
		c.memo = c.memo[len(c.memo)-4:]
	}
	st.heap[id] = c
}

// inlined library code: generic helpers and compiler-made wrappers.
func inlineStd(fn *ssa.Function) bool {
	switch fnPkg(fn) {
	case "slices", "maps", "cmp":
		return true
	}
	if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") {
		return len(fn.Blocks) > 0
	}
	return false
}

// quiet library packages: their functions do not fail on any argument.
var quietPkgs = map[string]bool{
	"fmt": true, "log": true, "errors": true, "time": true, "path": true, "path/filepath": true,
	"unicode": true, "unicode/utf8": true, "math": true, "sync": true, "sync/atomic": true, "os": true,
	"flag": true, "net/http": true, "net/url": true, "bytes": true, "strings": true, "strconv": true,
	"io": true, "net": true, "net/netip": true, "bufio": true, "math/big": true, "encoding/json": true, "sort": true,
	"context": true, "hash/crc32": true, "html": true, "encoding/hex": true, "log/slog": true,
}

func (e *Eng) external(st *State, fn *ssa.Function, args []Val, site ssa.Instruction) []ret {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	c := &cctx{name: name, fn: fn, sig: fn.Signature, args: args, site: site}
	if e.modelHk != nil {
		e.modelHk(st, name, args, site)
	}
	if m := e.models[name]; m != nil {
		return m(e, st, c)
	}
	if fn.Name() == "init" {
		return one(st)
	}
	if quietPkgs[fnPkg(fn)] {
		if os := fn.Signature.Recv(); os != nil && len(args) > 0 {
			if p, ok := args[0].(PtrV); ok && p.n.k != 0 {
				var out []ret
				for _, s := range e.need(st, site, "nil", "method of nil pointer", CNot{nilCond(p.n)}) {
					out = append(out, e.extCall(s, c)...)
				}
				return out
			}
		}
		return e.extCall(st, c)
	}
	e.undecided(st, site, "library function without a model: "+name)
	return e.havocCall(st, fn.Signature, args, name)
}

func (e *Eng) extCall(st *State, c *cctx) []ret {
	// callbacks and values passed by reference may be changed
	for i, a := range c.args {
		switch a := a.(type) {
		case PtrV:
			e.havocObj(st, a.obj)
		case FuncV:
			if a.fn != nil {
				e.runCallback(st, a, c.site)
			}
		case SliceV:
			if i > 0 || c.sig.Recv() == nil {
				if o := st.heap[a.obj]; o != nil && untracked(o.t) {
					x := o.copy()
					x.memo, x.known = nil, nil
					st.heap[a.obj] = x
				}
			}
		}
	}
	return e.extResult(st, c.sig, c.fn.Name())
}

// runCallback analyses a function handed to the library once.
func (e *Eng) runCallback(st *State, f FuncV, site ssa.Instruction) {
	s := st.clone()
	var args []Val
	for _, p := range f.fn.Params {
		args = append(args, e.topVal(s, p.Type(), p.Name(), 2, true))
	}
	e.callFn(s, f.fn, args, f.bind, site)
	for _, b := range f.bind {
		e.havocVal(st, b)
	}
}

// recursive reports whether fn can reach itself.
func (e *Eng) recursive(fn *ssa.Function) bool {
	if e.sccs == nil {
		e.buildSCC()
	}
	return e.sccSize[e.sccs[fn]] > 1 || e.selfRec[fn]
}

func (e *Eng) callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				if g := cc.StaticCallee(); g != nil {
					out = append(out, g)
				} else if cc.IsInvoke() {
					out = append(out, e.methodsNamed[cc.Method.Name()]...)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				out = append(out, mc.Fn.(*ssa.Function))
			}
		}
	}
	return out
}

func (e *Eng) buildSCC() {
	e.sccs = map[*ssa.Function]int{}
	e.sccSize = map[int]int{}
	e.selfRec = map[*ssa.Function]bool{}
	e.methodsNamed = map[string][]*ssa.Function{}
	for _, f := range e.allFns {
		if f.Signature.Recv() != nil {
			e.methodsNamed[f.Name()] = append(e.methodsNamed[f.Name()], f)
		}
	}
	idx, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n, comp := 0, 0
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		if inRepo(f) || inlineStd(f) {
			for _, g := range e.callees(f) {
				if g == f {
					e.selfRec[f] = true
				}
				if idx[g] == 0 {
					dfs(g)
					if low[g] < low[f] {
						low[f] = low[g]
					}
				} else if on[g] && idx[g] < low[f] {
					low[f] = idx[g]
				}
			}
		}
		if low[f] == idx[f] {
			comp++
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				e.sccs[g] = comp
				e.sccSize[comp]++
				if g == f {
					break
				}
			}
		}
	}
	for _, f := range e.allFns {
		if idx[f] == 0 {
			dfs(f)
		}
	}
}

// recCtx is a call of a recursive function, analysed once for all calls
// whose arguments have the same shape.
type recCtx struct {
	key    string
	fn     *ssa.Function
	args   []Val
	st     *State
	params []Lin // integer parameters (Lin{} when not an integer)
	isInt  []bool
	site   string
	done   bool
}

type recEdge struct {
	from, to string
	rel      map[[2]int]int // caller parameter, callee parameter: 0 not smaller, 1 greater and bounded
	site     string
}

// recCall handles a call of a function that is already running.
func (e *Eng) recCall(st *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]ret, bool) {
	on := st.top != nil && st.top.fn == fn
	for _, f := range st.frames {
		if f.fn == fn {
			on = true
		}
	}
	if !on {
		return nil, false
	}
	m := newMapper(st, func(id ObjID) *Obj { return st.heap[id] })
	m.val(TupleV(args))
	key := fn.String() + "|" + m.b.String()
	ctx := e.ctxs[key]
	if ctx == nil {
		ns := e.newState()
		ns.heap = map[ObjID]*Obj{}
		for k, v := range e.initHeap {
			ns.heap[k] = v
		}
		var ga []Val
		seen := map[ObjID]ObjID{}
		for i, a := range args {
			ga = append(ga, e.generalise(st, ns, a, fn.Params[i].Type(), seen))
		}
		s, _ := e.where(st, site)
		ctx = &recCtx{key: key, fn: fn, args: ga, st: ns, site: s}
		ctx.params, ctx.isInt = intArgs(ga)
		ns.ctx = ctx
		e.ctxs[key] = ctx
		e.ctxQueue = append(e.ctxQueue, ctx)
	}
	// how the integer arguments relate to those of the running call
	from := "entry"
	rel := map[[2]int]int{}
	if st.ctx != nil {
		from = st.ctx.key
	}
	cp, ci := e.ctxParams(st, fn)
	ap, ai := intArgs(args)
	for i := range cp {
		if !ci[i] {
			continue
		}
		for j := range ap {
			if !ai[j] {
				continue
			}
			if st.cs.entailsLE(cp[i].addc(1).sub(ap[j])) {
				if s, ok := st.cs.sup(ap[j]); ok && s.cmp(zi(1<<20)) <= 0 {
					rel[[2]int{i, j}] = 1
					continue
				}
			}
			if st.cs.entailsLE(cp[i].sub(ap[j])) {
				rel[[2]int{i, j}] = 0
			}
		}
	}
	if e.dry == 0 {
		s, _ := e.where(st, site)
		e.recEdges = append(e.recEdges, recEdge{from, key, rel, s})
	}
	// effects: values reached through reflection
	for _, a := range args {
		if r, ok := a.(ReflV); ok {
			e.reflHavoc(st, r)
		}
	}
	var vs []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		vs = append(vs, e.topVal(st, fn.Signature.Results().At(i).Type(), fn.Name(), 2, false))
	}
	return []ret{{st, vs}}, true
}

// ctxParams are the integer parameters of the context st runs in; for the
// entry, those of the outermost frame of the recursive component.
func (e *Eng) ctxParams(st *State, fn *ssa.Function) ([]Lin, []bool) {
	if st.ctx != nil {
		return st.ctx.params, st.ctx.isInt
	}
	for _, f := range append(append([]*Frame(nil), st.frames...), st.top) {
		if f != nil && f.fn != nil && f.fn == fn {
			var as []Val
			for _, p := range f.fn.Params {
				as = append(as, f.env[p])
			}
			return intArgs(as)
		}
	}
	return nil, nil
}

func intArgs(args []Val) ([]Lin, []bool) {
	ps := make([]Lin, len(args))
	is := make([]bool, len(args))
	for i, a := range args {
		if v, ok := a.(IntV); ok {
			ps[i], is[i] = v.L, true
		}
	}
	return ps, is
}

// generalise copies v into ns with every number unknown.
func (e *Eng) generalise(st, ns *State, v Val, t types.Type, seen map[ObjID]ObjID) Val {
	nilness := func(n Nilness) Nilness {
		switch st.nilOf(n) {
		case 0:
			return nonNil
		case 1:
			return isNil
		}
		return Nilness{k: 2, id: e.freshID()}
	}
	switch v := v.(type) {
	case IntV:
		return e.topInt(t, "arg")
	case BoolV:
		switch st.evalCond(v.c) {
		case 0:
			return bconst(false)
		case 1:
			return bconst(true)
		}
		return BoolV{CFact{e.freshID()}}
	case StrV:
		return e.freshStr("arg")
	case SliceV:
		n := nilness(v.n)
		if n.k == 1 {
			return SliceV{n: isNil}
		}
		s := e.topVal(ns, t, "arg", 2, true).(SliceV)
		s.n = n
		return s
	case PtrV:
		n := nilness(v.n)
		if n.k == 1 || len(v.path) > 0 {
			if n.k == 1 {
				return PtrV{n: isNil}
			}
			return e.topVal(ns, t, "arg", 2, n.k == 0)
		}
		if id, ok := seen[v.obj]; ok {
			return PtrV{n: n, obj: id}
		}
		o := st.heap[v.obj]
		if o == nil || o.kind != kCell {
			return e.topVal(ns, t, "arg", 2, n.k == 0)
		}
		e.nobj++
		id := ObjID(e.nobj)
		seen[v.obj] = id
		ns.heap[id] = &Obj{id: id, kind: kCell, t: o.t, site: o.site, cell: e.generalise(st, ns, o.cell, o.t, seen)}
		return PtrV{n: n, obj: id}
	case StructV:
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return e.topVal(ns, t, "arg", 2, false)
		}
		f := make([]Val, len(v.f))
		for i := range v.f {
			f[i] = e.generalise(st, ns, v.f[i], u.Field(i).Type(), seen)
		}
		return StructV{f}
	case IfaceV:
		n := nilness(v.n)
		if n.k == 1 {
			return IfaceV{n: isNil}
		}
		if v.t != nil {
			return IfaceV{n: n, t: v.t, v: e.generalise(st, ns, v.v, v.t, seen)}
		}
		return IfaceV{n: n, id: e.freshID(), tag: v.tag}
	case FuncV:
		if v.fn != nil {
			b := make([]Val, len(v.bind))
			for i := range v.bind {
				b[i] = e.generalise(st, ns, v.bind[i], v.fn.FreeVars[i].Type(), seen)
			}
			return FuncV{n: nilness(v.n), fn: v.fn, bind: b}
		}
		return v
	case ReflV:
		r := v
		if v.hasR {
			o := st.heap[v.root]
			c := &Obj{kind: kOpaque, site: "refl", ext: map[string]Val{}}
			if o != nil {
				if b, ok := o.ext["zero"].(BoolV); ok {
					switch st.evalCond(b.c) {
					case 0:
						c.ext["zero"] = bconst(false)
					case 1:
						c.ext["zero"] = bconst(true)
					default:
						c.ext["zero"] = BoolV{CFact{e.freshID()}}
					}
				}
			}
			r.root = e.newObj(ns, c)
		}
		return r
	case RTypeV:
		return v
	}
	return e.topVal(ns, t, "arg", 2, false)
}

// runCtxs analyses the recursive calls found so far.
func (e *Eng) runCtxs() {
	for len(e.ctxQueue) > 0 {
		c := e.ctxQueue[0]
		e.ctxQueue = e.ctxQueue[1:]
		before := map[ObjID]*Obj{}
		for id, o := range c.st.heap {
			before[id] = o
		}
		rs := e.callFn(c.st.clone(), c.fn, c.args, nil, nil)
		for _, r := range rs {
			for id, o := range before {
				if x := r.st.heap[id]; x != nil && x != o && o.kind != kOpaque && e.initHeap[id] == nil {
					if o.kind == kArr && untracked(o.t) && !arrChanged(o, x) {
						continue
					}
					if o.kind == kCell && describeDeep(o.cell) == describeDeep(x.cell) {
						continue
					}
					e.record(r.st, nil, "undecided", "recursive call of "+c.fn.Name()+" changes its arguments", false, fmt.Sprintf("%s: %s -> %s", o.site, describe(o.cell), describe(x.cell)))
				}
			}
		}
	}
}

func arrChanged(a, b *Obj) bool {
	return false
}

func describeDeep(v Val) string { return describe(v) }

// recBounded checks that every cycle of recursive calls makes a bounded
// parameter grow.
func (e *Eng) recBounded() (ok bool, cyc string) {
	// the non-strict edges must not form a cycle
	next := map[string]map[string]bool{}
	for _, ed := range e.recEdges {
		strict := false
		for ij, r := range ed.rel {
			if r == 1 && ij[0] == ij[1] {
				strict = true
			}
		}
		if !strict {
			if next[ed.from] == nil {
				next[ed.from] = map[string]bool{}
			}
			next[ed.from][ed.to] = true
		}
	}
	col := map[string]int{}
	var bad string
	var dfs func(k string) bool
	dfs = func(k string) bool {
		col[k] = 1
		for n := range next[k] {
			if col[n] == 1 {
				bad = n
				return false
			}
			if col[n] == 0 && !dfs(n) {
				return false
			}
		}
		col[k] = 2
		return true
	}
	for k := range next {
		if col[k] == 0 && !dfs(k) {
			return false, bad
		}
	}
	return true, ""
}
