package ai

import (
	"fmt"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

func kindOf(t types.Type) (reflect.Kind, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16,
			types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16,
			types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr, types.Float32: reflect.Float32, types.Float64: reflect.Float64,
			types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer}
		k, ok := m[u.Kind()]
		return k, ok
	case *types.Array:
		return reflect.Array, true
	case *types.Chan:
		return reflect.Chan, true
	case *types.Signature:
		return reflect.Func, true
	case *types.Interface:
		return reflect.Interface, true
	case *types.Map:
		return reflect.Map, true
	case *types.Pointer:
		return reflect.Ptr, true
	case *types.Slice:
		return reflect.Slice, true
	case *types.Struct:
		return reflect.Struct, true
	}
	return 0, false
}

func (e *Eng) newRoot(st *State, zero Val) ObjID {
	return e.newObj(st, &Obj{kind: kOpaque, site: "refl", ext: map[string]Val{"zero": zero}})
}

func (e *Eng) rootExt(st *State, r ReflV, k string) Val {
	if !r.hasR {
		return nil
	}
	if o := st.heap[r.root]; o != nil {
		return o.ext[k]
	}
	return nil
}

func (e *Eng) setRootExt(st *State, r ReflV, kv map[string]Val) {
	if !r.hasR {
		return
	}
	o := st.heap[r.root]
	if o == nil {
		return
	}
	c := o.copy()
	c.ext = map[string]Val{}
	if t, ok := o.ext["tgt"]; ok {
		c.ext["tgt"] = t
	}
	for k, v := range kv {
		c.ext[k] = v
	}
	st.setObj(c)
	e.hitTarget(st, r)
}

// hitTarget forgets the variable a value refers to.
func (e *Eng) hitTarget(st *State, r ReflV) {
	if p, ok := e.rootExt(st, r, "tgt").(PtrV); ok {
		o := st.heap[p.obj]
		if o != nil && o.kind == kCell && len(p.path) == 0 {
			c := o.copy()
			c.cell = e.topVal(st, o.t, "reflect", 2, false)
			st.setObj(c)
			return
		}
		e.havocObj(st, p.obj)
	}
	if m, ok := e.rootExt(st, r, "tgtm").(MapV); ok {
		e.havocObj(st, m.obj)
	}
}

func (e *Eng) reflHavoc(st *State, r ReflV) {
	if r.hasR {
		e.setRootExt(st, r, map[string]Val{"zero": BoolV{CFact{e.freshID()}}})
	}
}

func (e *Eng) refl(st *State, t types.Type, set, valid bool, zero Val) ReflV {
	return ReflV{t: t, set: set, valid: valid, hasR: true, root: e.newRoot(st, zero)}
}

func (e *Eng) rtype(t types.Type) Val {
	return IfaceV{n: nonNil, t: types.Typ[types.UnsafePointer], v: RTypeV{t}}
}

func (e *Eng) rneed(st *State, c *cctx, what string, ok bool) {
	if e.mode.panics {
		e.record(st, c.site, "reflect", what, ok, "not known to hold")
	}
}

func registerReflect(e *Eng) {
	R := func(name string, m model) { e.models[name] = m }
	V := func(name string, f func(e *Eng, st *State, c *cctx, r ReflV) []ret) {
		R("(reflect.Value)."+name, func(e *Eng, st *State, c *cctx) []ret {
			r, ok := c.args[0].(ReflV)
			if !ok {
				e.undecided(st, c.site, "reflect value of unknown type")
				return e.havocCall(st, c.sig, nil, name)
			}
			return f(e, st, c, r)
		})
	}
	kindIs := func(r ReflV, ks ...reflect.Kind) bool {
		if r.t == nil || !r.valid {
			return false
		}
		k, ok := kindOf(r.t)
		if !ok {
			return false
		}
		for _, x := range ks {
			if x == k {
				return true
			}
		}
		return false
	}
	R("reflect.ValueOf", func(e *Eng, st *State, c *cctx) []ret {
		x, ok := c.args[0].(IfaceV)
		if !ok {
			return one(st, ReflV{valid: true})
		}
		var out []ret
		n := st.clone()
		for _, s := range n.assume(nilCond(x.n), true) {
			out = append(out, ret{s, []Val{ReflV{}}})
		}
		for _, s := range st.assume(nilCond(x.n), false) {
			if x.t == nil {
				out = append(out, ret{s, []Val{ReflV{valid: true}}})
				continue
			}
			var zero Val = bconst(false)
			if nl, ok := valNil(x.v); ok {
				zero = BoolV{nilCond(nl)}
				if st.nilOf(nl) != 2 {
					zero = bconst(st.nilOf(nl) == 1)
				}
			}
			r := e.refl(s, x.t, false, true, zero)
			o := s.heap[r.root].copy()
			ext := map[string]Val{"zero": zero}
			switch p := x.v.(type) {
			case PtrV:
				ext["tgt"] = p
			case MapV:
				ext["tgtm"] = p
			}
			o.ext = ext
			s.heap[r.root] = o
			out = append(out, ret{s, []Val{r}})
		}
		return out
	})
	R("reflect.TypeOf", func(e *Eng, st *State, c *cctx) []ret {
		if x, ok := c.args[0].(IfaceV); ok && x.t != nil {
			return one(st, e.rtype(x.t))
		}
		return one(st, IfaceV{n: Nilness{k: 2, id: e.freshID()}, id: e.freshID()})
	})
	R("reflect.New", func(e *Eng, st *State, c *cctx) []ret {
		t := rtypeOf(c.args[0])
		if t == nil {
			e.undecided(st, c.site, "reflect.New of unknown type")
			return one(st, ReflV{valid: true})
		}
		r := e.refl(st, types.NewPointer(t), false, true, bconst(false))
		o := st.heap[r.root].copy()
		o.ext = map[string]Val{"zero": bconst(false), "elem0": bconst(true)}
		st.heap[r.root] = o
		return one(st, r)
	})
	R("reflect.MakeMapWithSize", func(e *Eng, st *State, c *cctx) []ret {
		t := rtypeOf(c.args[0])
		ok := t != nil
		if ok {
			_, ok = t.Underlying().(*types.Map)
		}
		e.rneed(st, c, "MakeMapWithSize of a map type", ok)
		var out []ret
		for _, s := range e.allocBound(st, c, c.args[1]) {
			out = append(out, ret{s, []Val{e.refl(s, t, false, true, bconst(false))}})
		}
		return out
	})
	e.models["reflect.MakeMap"] = func(e *Eng, st *State, c *cctx) []ret {
		t := rtypeOf(c.args[0])
		ok := t != nil
		if ok {
			_, ok = t.Underlying().(*types.Map)
		}
		e.rneed(st, c, "MakeMap of a map type", ok)
		return one(st, e.refl(st, t, false, true, bconst(false)))
	}
	R("reflect.MakeSlice", func(e *Eng, st *State, c *cctx) []ret {
		t := rtypeOf(c.args[0])
		ok := t != nil
		if ok {
			_, ok = t.Underlying().(*types.Slice)
		}
		e.rneed(st, c, "MakeSlice of a slice type", ok)
		n, _ := c.args[1].(IntV)
		cp, _ := c.args[2].(IntV)
		var out []ret
		for _, s := range e.need(st, c.site, "make", "negative make size", CCmp{e: n.L.neg()}) {
			for _, s := range e.need(s, c.site, "make", "make length beyond capacity", CCmp{e: n.L.sub(cp.L)}) {
				for _, s := range e.allocBound(s, c, cp) {
					r := e.refl(s, t, false, true, bconst(false))
					o := s.heap[r.root].copy()
					o.ext = map[string]Val{"zero": bconst(false), "fresh": IntV{lc(0)}, "len": n}
					s.heap[r.root] = o
					out = append(out, ret{s, []Val{r}})
				}
			}
		}
		return out
	})
	V("Kind", func(e *Eng, st *State, c *cctx, r ReflV) []ret {
		if !r.valid {
			return one(st, IntV{lc(0)})
		}
		if r.t != nil {
			if k, ok := kindOf(r.t); ok {
				return one(st, IntV{lc(int64(k))})
			}
		}
		return one(st, IntV{ls(e.tab.freshIn("kind", zi(1), zi(26)))})
	})
	V("IsValid", func(e *Eng, st *State, c *cctx, r ReflV) []ret { return one(st, bconst(r.valid)) })
	zeroCond := func(e *Eng, st *State, r ReflV) Cond {
		if b, ok := e.rootExt(st, r, "zero").(BoolV); ok {
			return b.c
		}
		return CFact{e.freshID()}
	}
	V("IsNil", func(e *Eng, st *State, c *cctx, r ReflV) []ret {
		e.rneed(st, c, "IsNil of a value that can be nil", kindIs(r, reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func, reflect.Chan))
		return one(st, BoolV{zeroCond(e, st, r)})
	})
	V("Elem", func(e *Eng, st *State, c *cctx, r ReflV) []ret {
		ok := kindIs(r, reflect.Ptr, reflect.Interface)
		e.rneed(st, c, "Elem of a pointer or interface", ok)
		if !ok {
			return one(st, ReflV{valid: true})
		}
		zc := zeroCond(e, st, r)
		var out []ret
		n := st.clone()
		for _, s := range n.assume(zc, true) {
			out = append(out, ret{s, []Val{ReflV{}}})
		}
		for _, s := range st.assume(zc, false) {
			if p, isP := r.t.Underlying().(*types.Pointer); isP {
				var zero Val = BoolV{CFact{e.freshID()}}
				if b, ok := e.rootExt(s, r, "elem0").(BoolV); ok && s.evalCond(b.c) == 1 {
					zero = bconst(true)
				}
				if t, ok := e.rootExt(s, r, "tgt").(PtrV); ok {
					if o := s.heap[t.obj]; o != nil && o.kind == kCell && len(t.path) == 0 {
						if nl, ok := valNil(o.cell); ok && s.nilOf(nl) != 2 {
							zero = bconst(s.nilOf(nl) == 1)
						}
					}
				}
				q := e.refl(s, p.Elem(), true, true, zero)
				o := s.heap[q.root].copy()
				o.ext = map[string]Val{"zero": zero}
				if t := e.rootExt(s, r, "tgt"); t != nil {
					o.ext["tgt"] = t
				}
				if t := e.rootExt(s, r, "pcell"); t != nil {
					_ = t
				}
				s.heap[q.root] = o
				// the pointee may change from here on
				e.dropExt(s, r, "elem0")
				out = append(out, ret{s, []Val{q}})
				continue
			}
			out = append(out, ret{s, []Val{ReflV{valid: true}}})
		}
		return out
	})
	V("Type", func(e *Eng, st *State, c *cctx, r ReflV) []ret {
		e.rneed(st, c, "Type of a valid value", r.valid)
		if r.t == nil {
			return one(st, IfaceV{n: nonNil, id: e.freshID()})
		}
		return one(st, e.rtype(r.t))
	})
	V("NumMethod", func(e *Eng, st *State, c *cctx, r ReflV) []ret {
		if r.t != nil {
			if i, ok := r.t.Underlying().(*types.Interface); ok {
				return one(st, IntV{lc(int64(i.NumMethods()))})
			}
		}
		return one(st, IntV{e.freshLen("methods")})
	})
	V("NumField", func(e *Eng, st *State, c *cctx, r ReflV) []ret {
		e.rneed(st, c, "NumField of a struct", kindIs(r, reflect.Struct))
		if r.t != nil {
			if s, ok := r.t.Underlying().(*types.Struct); ok {
				return one(st, IntV{lc(int64(s.NumFields()))})
			}
		}
		return one(st, IntV{e.freshLen("fields")})
	})
	V("Len", func(e *Eng, st *State, c *cctx, r ReflV) []ret {
		e.rneed(st, c, "Len of a value with a length", kindIs(r, reflect.Slice, reflect.Map, reflect.String, reflect.Array))
		if l, ok := e.rootExt(st, r, "len").(IntV); ok {
			return one(st, l)
		}
		return one(st, IntV{e.freshLen("rlen")})
	})
	V("CanSet", func(e *Eng, st *State, c *cctx, r ReflV) []ret { return one(st, bconst(r.set)) })
	V("CanAddr", func(e *Eng, st *State, c *cctx, r ReflV) []ret { return one(st, bconst(r.set)) })
	V("Set", func(e *Eng, st *State, c *cctx, r ReflV) []ret {
		v, ok := c.args[1].(ReflV)
		e.rneed(st, c, "Set of a settable value", r.set && r.valid)
		e.rneed(st, c, "Set to an assignable value", ok && v.valid && v.t != nil && r.t != nil && types.AssignableTo(v.t, r.t))
		kv := map[string]Val{"zero": bconst(false)}
		if ok && r.t != nil && v.t != nil && types.Identical(v.t.Underlying(), r.t.Underlying()) {
			for _, k := range []string{"zero", "fresh", "len", "elem0"} {
				if x := e.rootExt(st, v, k); x != nil {
					kv[k] = x
				}
			}
		}
		e.setRootExt(st, r, kv)
		return one(st)
	})
	setter := func(name string, ks ...reflect.Kind) {
		V(name, func(e *Eng, st *State, c *cctx, r ReflV) []ret {
			e.rneed(st, c, name+" of a settable value of that kind", r.set && kindIs(r, ks...))
			e.setRootExt(st, r, map[string]Val{"zero": BoolV{CFact{e.freshID()}}})
			return one(st)
		})
	}
	ints := []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
	uints := []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}
	setter("SetBool", reflect.Bool)
	setter("SetInt", ints...)
	setter("SetUint", uints...)
	setter("SetFloat", reflect.Float32, reflect.Float64)
	setter("SetString", reflect.String)
	V("SetBytes", func(e *Eng, st *State, c *cctx, r ReflV) []ret {
		ok := r.set && kindIs(r, reflect.Slice)
		if ok {
			ok = isByte(r.t.Underlying().(*types.Slice).Elem())
		}
		e.rneed(st, c, "SetBytes of a settable byte slice", ok)
		e.setRootExt(st, r, map[string]Val{"zero": BoolV{CFact{e.freshID()}}})
		return one(st)
	})
	overflow := func(name string, ks ...reflect.Kind) {
		V(name, func(e *Eng, st *State, c *cctx, r ReflV) []ret {
			e.rneed(st, c, name+" of a value of that kind", kindIs(r, ks...))
			return one(st, BoolV{CFact{e.freshID()}})
		})
	}
	overflow("OverflowInt", ints...)
	overflow("OverflowUint", uints...)
	overflow("OverflowFloat", reflect.Float32, reflect.Float64)
	V("SetMapIndex", func(e *Eng, st *State, c *cctx, r ReflV) []ret {
		ok := kindIs(r, reflect.Map)
		k, ok1 := c.args[1].(ReflV)
		v, ok2 := c.args[2].(ReflV)
		if ok {
			mt := r.t.Underlying().(*types.Map)
			ok = ok1 && ok2 && k.valid && k.t != nil && types.AssignableTo(k.t, mt.Key()) && (!v.valid || v.t != nil && types.AssignableTo(v.t, mt.Elem()))
		}
		e.rneed(st, c, "SetMapIndex with key and element of the map's types", ok)
		var out []ret
		for _, s := range e.need(st, c.site, "nil", "write to nil map", CNot{zeroCond(e, st, r)}) {
			e.hitTarget(s, r)
			out = append(out, ret{s, nil})
		}
		return out
	})
	V("Field", func(e *Eng, st *State, c *cctx, r ReflV) []ret {
		ok := kindIs(r, reflect.Struct)
		e.rneed(st, c, "Field of a struct", ok)
		if !ok {
			return one(st, ReflV{valid: true})
		}
		s := r.t.Underlying().(*types.Struct)
		iv, _ := c.args[1].(IntV)
		var out []ret
		for _, st := range e.inBounds(st, c.site, "reflect field index", iv.L, lc(int64(s.NumFields()))) {
			seen := map[string]bool{}
			for i := 0; i < s.NumFields(); i++ {
				n := st.clone()
				if !n.assumeLin(iv.L.addc(-int64(i)), true) {
					continue
				}
				f := s.Field(i)
				set := r.set && f.Exported()
				k := fmt.Sprint(f.Type(), set)
				if seen[k] && !iv.L.isConst() {
					continue // fields of one type are alike
				}
				seen[k] = true
				m := st.clone()
				q := e.refl(m, f.Type(), set, true, BoolV{CFact{e.freshID()}})
				if t := e.rootExt(m, r, "tgt"); t != nil {
					o := m.heap[q.root].copy()
					o.ext = map[string]Val{"zero": o.ext["zero"], "tgt": t}
					m.heap[q.root] = o
				}
				out = append(out, ret{m, []Val{q}})
			}
		}
		return out
	})
	V("Index", func(e *Eng, st *State, c *cctx, r ReflV) []ret {
		ok := kindIs(r, reflect.Slice)
		e.rneed(st, c, "Index of a slice", ok)
		if !ok {
			return one(st, ReflV{valid: true})
		}
		iv, _ := c.args[1].(IntV)
		l, okl := e.rootExt(st, r, "len").(IntV)
		if !okl {
			l = IntV{e.freshLen("rlen")}
		}
		var out []ret
		for _, s := range e.inBounds(st, c.site, "reflect slice index", iv.L, l.L) {
			var zero Val = BoolV{CFact{e.freshID()}}
			if f, ok := e.rootExt(s, r, "fresh").(IntV); ok {
				o := s.heap[r.root].copy()
				ext := map[string]Val{}
				for k, v := range o.ext {
					ext[k] = v
				}
				if s.cs.entailsLE(f.L.sub(iv.L)) {
					zero = bconst(true)
					ext["fresh"] = IntV{iv.L.addc(1)}
				} else {
					delete(ext, "fresh")
				}
				o.ext = ext
				s.heap[r.root] = o
			}
			q := e.refl(s, r.t.Underlying().(*types.Slice).Elem(), true, true, zero)
			if t := e.rootExt(s, r, "tgt"); t != nil {
				o := s.heap[q.root].copy()
				o.ext = map[string]Val{"zero": zero, "tgt": t}
				s.heap[q.root] = o
			}
			out = append(out, ret{s, []Val{q}})
		}
		return out
	})
	R("(reflect.StructTag).Get", func(e *Eng, st *State, c *cctx) []ret { return one(st, e.freshStr("tag")) })
}

func (e *Eng) dropExt(st *State, r ReflV, k string) {
	if !r.hasR || st.heap[r.root] == nil {
		return
	}
	o := st.heap[r.root].copy()
	ext := map[string]Val{}
	for x, v := range o.ext {
		if x != k {
			ext[x] = v
		}
	}
	o.ext = ext
	st.heap[r.root] = o
}

func (e *Eng) allocBound(st *State, c *cctx, v Val) []*State {
	n, ok := v.(IntV)
	if !ok {
		e.undecided(st, c.site, "allocation size")
		return []*State{st}
	}
	return e.needSize(st, c.site, n.L)
}

func rtypeOf(v Val) types.Type {
	if x, ok := v.(IfaceV); ok {
		if r, ok := x.v.(RTypeV); ok {
			return r.t
		}
	}
	return nil
}

// rtypeCall is a method of a known reflect.Type.
func (e *Eng) rtypeCall(st *State, rt RTypeV, name string, args []Val, site ssa.Instruction) []ret {
	need := func(what string, ok bool) {
		if e.mode.panics {
			e.record(st, site, "reflect", what, ok, "type "+rt.t.String())
		}
	}
	switch name {
	case "Kind":
		k, _ := kindOf(rt.t)
		return one(st, IntV{lc(int64(k))})
	case "Elem":
		switch u := rt.t.Underlying().(type) {
		case *types.Pointer:
			return one(st, e.rtype(u.Elem()))
		case *types.Slice:
			return one(st, e.rtype(u.Elem()))
		case *types.Array:
			return one(st, e.rtype(u.Elem()))
		case *types.Map:
			return one(st, e.rtype(u.Elem()))
		case *types.Chan:
			return one(st, e.rtype(u.Elem()))
		}
		need("Elem of a type with elements", false)
		return one(st, IfaceV{n: nonNil, id: e.freshID()})
	case "Key":
		if m, ok := rt.t.Underlying().(*types.Map); ok {
			return one(st, e.rtype(m.Key()))
		}
		need("Key of a map type", false)
		return one(st, IfaceV{n: nonNil, id: e.freshID()})
	case "NumField":
		if s, ok := rt.t.Underlying().(*types.Struct); ok {
			need("NumField of a struct type", true)
			return one(st, IntV{lc(int64(s.NumFields()))})
		}
		need("NumField of a struct type", false)
		return one(st, IntV{e.freshLen("fields")})
	case "Field":
		s, ok := rt.t.Underlying().(*types.Struct)
		need("Field of a struct type", ok)
		sf := e.prog.ImportedPackage("reflect").Type("StructField").Type()
		if ok {
			if iv, ok := args[0].(IntV); ok {
				var out []ret
				for _, x := range e.inBounds(st, site, "type field index", iv.L, lc(int64(s.NumFields()))) {
					out = append(out, ret{x, []Val{e.topVal(x, sf, "field", 1, false)}})
				}
				return out
			}
		}
		return one(st, e.topVal(st, sf, "field", 1, false))
	case "String", "Name", "PkgPath":
		return one(st, e.freshStr("type"))
	case "NumMethod":
		return one(st, IntV{e.freshLen("methods")})
	case "AssignableTo", "ConvertibleTo", "Implements", "Comparable":
		return one(st, BoolV{CFact{e.freshID()}})
	}
	e.undecided(st, site, "reflect.Type."+name)
	return one(st, TopV{})
}
