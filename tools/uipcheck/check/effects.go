package check

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect analysis: an inclusion-based points-to analysis from one entry
// point, whose parameters (and every package variable) stand for memory the
// caller owns. Functions are cloned per call string of length two; a struct
// that stays in its function is followed flow-sensitively. The result is
// where memory that existed before the call may be written, and what the
// results may still point to.

type eobj struct {
	id    int
	label string
	input bool          // existed before the call
	root  string        // of an input: which
	path  string        // of an input: access path from its root
	depth int           // of an input: how deep
	fn    *ssa.Function // a function value
	ext   []eloc        // what a library result may hold
	extT  []types.Type
}

type eloc struct {
	o *eobj
	p string
}

type ectx struct {
	f    *ssa.Function
	call string
}

type effect struct {
	at   ssa.Instruction
	kind string // store, append, copy, library call...
	loc  eloc
	val  ssa.Value // what is written, if known
}

type effects struct {
	g       *Graph
	objs    []*eobj
	named   map[string]*eobj
	cont    map[eloc]map[eloc]bool
	changed bool
	funcs   map[ectx]bool
	order   []ectx
	found   map[string]effect
	unknown map[string]bool // library calls taken to be pure only by default
	reach   map[*ssa.Function]*localDefs
}

func newEffects(g *Graph) *effects {
	return &effects{g: g, named: map[string]*eobj{}, cont: map[eloc]map[eloc]bool{}, funcs: map[ectx]bool{},
		found: map[string]effect{}, unknown: map[string]bool{}, reach: map[*ssa.Function]*localDefs{}}
}

func (e *effects) obj(key string) *eobj {
	if o := e.named[key]; o != nil {
		return o
	}
	o := &eobj{id: len(e.objs), label: key}
	e.objs = append(e.objs, o)
	e.named[key] = o
	return o
}

func (e *effects) inputObj(root, path string, depth int) *eobj {
	o := e.obj("input:" + root + path)
	o.input, o.root, o.path, o.depth = true, root, path, depth
	return o
}

type leaf struct {
	p string
	t types.Type
}

func leaves(t types.Type) []leaf {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if t.String() == "reflect.Value" {
			return []leaf{{".ptr", types.Typ[types.UnsafePointer]}}
		}
		var l []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, x := range leaves(u.Field(i).Type()) {
				l = append(l, leaf{"." + u.Field(i).Name() + x.p, x.t})
			}
		}
		return l
	case *types.Array:
		var l []leaf
		for _, x := range leaves(u.Elem()) {
			l = append(l, leaf{"[*]" + x.p, x.t})
		}
		return l
	case *types.Tuple:
		var l []leaf
		for i := 0; i < u.Len(); i++ {
			for _, x := range leaves(u.At(i).Type()) {
				l = append(l, leaf{fmt.Sprintf("#%d", i) + x.p, x.t})
			}
		}
		return l
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return []leaf{{"", t}}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return []leaf{{"", t}}
		}
	}
	return nil
}

// get is what the pointer-like leaf of type t at a location may point to.
func (e *effects) get(l eloc, t types.Type) map[eloc]bool {
	if l.o.input {
		e.materialise(l, t)
	}
	for i, h := range l.o.ext {
		if types.Identical(l.o.extT[i], t) {
			e.addAll(l, e.get(h, t))
		}
	}
	return e.cont[l]
}

func (e *effects) materialise(l eloc, t types.Type) {
	path := l.o.path + l.p
	d := l.o.depth + 1
	k := path
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
	case *types.Interface:
		k += "<box>"
	default:
		k += "^"
	}
	if strings.HasPrefix(l.o.path, "<any") || d > 8 {
		k = "<any " + t.String() + ">"
	}
	e.add(l, eloc{e.inputObj(l.o.root, k, d), ""})
}

func (e *effects) add(l, t eloc) {
	m := e.cont[l]
	if m == nil {
		m = map[eloc]bool{}
		e.cont[l] = m
	}
	if !m[t] {
		m[t] = true
		e.changed = true
	}
}

func (e *effects) addAll(l eloc, s map[eloc]bool) {
	for t := range s {
		e.add(l, t)
	}
}

func (e *effects) copy(dst, src eloc, t types.Type) {
	for _, x := range leaves(t) {
		e.addAll(eloc{dst.o, dst.p + x.p}, e.get(eloc{src.o, src.p + x.p}, x.t))
	}
}

func (c ectx) String() string { return c.f.String() + "@" + c.call }

func (e *effects) val(c ectx, v ssa.Value) eloc {
	switch x := v.(type) {
	case *ssa.Global:
		o := e.obj("addr of " + x.String())
		go_ := e.inputObj("global "+x.String(), "", 0)
		e.add(eloc{o, ""}, eloc{go_, ""})
		return eloc{o, ""}
	case *ssa.Function:
		o := e.obj("val of " + x.String())
		fo := e.obj("func " + x.String())
		fo.fn = x
		e.add(eloc{o, ""}, eloc{fo, ""})
		return eloc{o, ""}
	case *ssa.Const, *ssa.Builtin:
		return eloc{e.obj("const"), ""}
	}
	return eloc{e.obj(fmt.Sprintf("val %s %s %p", c, v.Name(), v)), ""}
}

func (e *effects) targets(c ectx, v ssa.Value) []eloc {
	if _, ok := v.(*ssa.Const); ok {
		return nil
	}
	return e.list(e.get(e.val(c, v), v.Type()))
}

func (e *effects) list(m map[eloc]bool) []eloc {
	l := make([]eloc, 0, len(m))
	for x := range m {
		l = append(l, x)
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].o.id != l[j].o.id {
			return l[i].o.id < l[j].o.id
		}
		return l[i].p < l[j].p
	})
	return l
}

func (e *effects) fresh(c ectx, v ssa.Value, what string) *eobj {
	return e.obj(fmt.Sprintf("new %s %s %p %s", c, what, v, what))
}

func (e *effects) write(at ssa.Instruction, kind string, l eloc, val ssa.Value) {
	if !l.o.input {
		return
	}
	k := fmt.Sprintf("%p %s %s %s%s", at, kind, l.o.root, l.o.path, l.p)
	if _, ok := e.found[k]; !ok {
		e.found[k] = effect{at, kind, l, val}
	}
}

// From analyses an entry point; roots names its parameters ("" for one that
// is not caller memory but fresh).
func (e *effects) From(f *ssa.Function, roots []string) ectx {
	c := ectx{f, ""}
	for i, p := range f.Params {
		name := roots[i]
		if name == "" {
			continue
		}
		in := e.inputObj(name, "", 0)
		e.copy(e.val(c, p), eloc{in, ""}, p.Type())
	}
	e.enter(c)
	for n := 0; ; n++ {
		e.changed = false
		for i := 0; i < len(e.order); i++ {
			e.fun(e.order[i])
		}
		if !e.changed || n > 200 {
			break
		}
	}
	return c
}

func (e *effects) enter(c ectx) {
	if !e.funcs[c] {
		e.funcs[c] = true
		e.order = append(e.order, c)
		e.changed = true
	}
}

func (e *effects) fun(c ectx) {
	for _, b := range c.f.Blocks {
		for _, ins := range b.Instrs {
			e.instr(c, ins)
		}
	}
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return "." + t.Underlying().(*types.Struct).Field(i).Name()
}

func (e *effects) instr(c ectx, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		e.add(e.val(c, x), eloc{e.fresh(c, x, "alloc"), ""})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := x.(ssa.Value)
		e.add(e.val(c, v), eloc{e.fresh(c, v, "make"), ""})
	case *ssa.MakeInterface:
		b := e.fresh(c, x, "box")
		e.copy(eloc{b, ""}, e.val(c, x.X), x.X.Type())
		e.add(e.val(c, x), eloc{b, ""})
	case *ssa.MakeClosure:
		o := e.fresh(c, x, "closure")
		o.fn = x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			e.copy(eloc{o, fmt.Sprintf("fv%d", i)}, e.val(c, b), b.Type())
		}
		e.add(e.val(c, x), eloc{o, ""})
	case *ssa.Phi:
		for _, v := range x.Edges {
			e.copy(e.val(c, x), e.val(c, v), x.Type())
		}
	case *ssa.ChangeType:
		e.copy(e.val(c, x), e.val(c, x.X), x.Type())
	case *ssa.ChangeInterface:
		e.addAll(e.val(c, x), e.get(e.val(c, x.X), x.X.Type()))
	case *ssa.SliceToArrayPointer:
		e.addAll(e.val(c, x), e.get(e.val(c, x.X), x.X.Type()))
	case *ssa.Convert:
		if len(leaves(x.Type())) == 1 {
			if len(leaves(x.X.Type())) == 1 {
				e.addAll(e.val(c, x), e.get(e.val(c, x.X), x.X.Type()))
			} else if _, ok := x.Type().Underlying().(*types.Slice); ok {
				e.add(e.val(c, x), eloc{e.fresh(c, x, "convert"), ""})
			}
		}
	case *ssa.FieldAddr:
		for _, t := range e.targets(c, x.X) {
			e.add(e.val(c, x), eloc{t.o, t.p + fieldName(x.X.Type(), x.Field)})
		}
	case *ssa.IndexAddr:
		for _, t := range e.targets(c, x.X) {
			e.add(e.val(c, x), eloc{t.o, t.p + "[*]"})
		}
	case *ssa.Field:
		s := e.val(c, x.X)
		e.copy(e.val(c, x), eloc{s.o, s.p + fieldName(x.X.Type(), x.Field)}, x.Type())
	case *ssa.Index:
		s := e.val(c, x.X)
		e.copy(e.val(c, x), eloc{s.o, s.p + "[*]"}, x.Type())
	case *ssa.Slice:
		e.addAll(e.val(c, x), e.get(e.val(c, x.X), x.X.Type()))
	case *ssa.Extract:
		s := e.val(c, x.Tuple)
		e.copy(e.val(c, x), eloc{s.o, s.p + fmt.Sprintf("#%d", x.Index)}, x.Type())
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			d := e.val(c, x)
			if x.CommaOk {
				d.p += "#0"
			}
			for _, t := range e.targets(c, x.X) {
				e.copy(d, eloc{t.o, t.p + "[v]"}, x.X.Type().Underlying().(*types.Map).Elem())
			}
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			e.addAll(e.val(c, x), e.get(e.val(c, x.X), x.X.Type()))
		}
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok && !x.IsString {
			mt := r.X.Type().Underlying().(*types.Map)
			d := e.val(c, x)
			for _, t := range e.targets(c, r.X) {
				e.copy(eloc{d.o, d.p + "#1"}, eloc{t.o, t.p + "[k]"}, mt.Key())
				e.copy(eloc{d.o, d.p + "#2"}, eloc{t.o, t.p + "[v]"}, mt.Elem())
			}
		}
	case *ssa.TypeAssert:
		d := e.val(c, x)
		if x.CommaOk {
			d.p += "#0"
		}
		if types.IsInterface(x.AssertedType) {
			e.addAll(d, e.get(e.val(c, x.X), x.X.Type()))
			break
		}
		for _, b := range e.targets(c, x.X) {
			e.copy(d, b, x.AssertedType)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			e.load(c, x)
		} else if x.Op == token.ARROW {
			for _, t := range e.targets(c, x.X) {
				e.copy(e.val(c, x), eloc{t.o, t.p + "[*]"}, x.Type())
			}
		}
	case *ssa.Send:
		for _, t := range e.targets(c, x.Chan) {
			e.copy(eloc{t.o, t.p + "[*]"}, e.val(c, x.X), x.X.Type())
			e.write(x, "send", t, x.X)
		}
	case *ssa.Store:
		for _, t := range e.targets(c, x.Addr) {
			e.copy(t, e.val(c, x.Val), x.Val.Type())
			e.write(x, "store", t, x.Val)
		}
	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		for _, t := range e.targets(c, x.Map) {
			e.copy(eloc{t.o, t.p + "[k]"}, e.val(c, x.Key), mt.Key())
			e.copy(eloc{t.o, t.p + "[v]"}, e.val(c, x.Value), mt.Elem())
			e.write(x, "map update", eloc{t.o, t.p + "[v]"}, x.Value)
		}
	case ssa.CallInstruction:
		e.callInstr(c, x)
	case *ssa.Return:
		d := e.obj("ret " + c.String())
		for i, r := range x.Results {
			e.copy(eloc{d, fmt.Sprintf("#%d", i)}, e.val(c, r), r.Type())
		}
	}
}

// load reads memory; from a struct that stays in its function only the
// stores that reach the load count.
func (e *effects) load(c ectx, x *ssa.UnOp) {
	ld := e.reach[c.f]
	if ld == nil {
		ld = newLocalDefs(c.f)
		e.reach[c.f] = ld
	}
	d := e.val(c, x)
	if a, field, ok := ld.local(x.X); ok {
		for _, st := range ld.reaching(x, a, field) {
			v := e.val(c, st.Val)
			_, sf, _ := ld.local(st.Addr)
			switch {
			case sf == field:
				e.copy(d, v, x.Type())
			case sf == -1: // the whole struct was stored, a field is read
				e.copy(d, eloc{v.o, v.p + fieldName(a.Type(), field)}, x.Type())
			case field == -1: // a field was stored, the struct is read
				n := fieldName(a.Type(), sf)
				e.copy(eloc{d.o, d.p + n}, v, st.Val.Type())
			}
		}
		return
	}
	for _, t := range e.targets(c, x.X) {
		e.copy(d, t, x.Type())
	}
}

// localDefs finds, for allocations whose address never leaves their function,
// the stores that reach a load.
type localDefs struct {
	f  *ssa.Function
	ok map[*ssa.Alloc]bool
}

func newLocalDefs(f *ssa.Function) *localDefs {
	l := &localDefs{f, map[*ssa.Alloc]bool{}}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if a, ok := ins.(*ssa.Alloc); ok {
				l.ok[a] = l.stays(a)
			}
		}
	}
	return l
}

func (l *localDefs) stays(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr != ssa.Value(a) {
				return false
			}
		case *ssa.FieldAddr:
			for _, r2 := range *x.Referrers() {
				switch y := r2.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if y.Addr != ssa.Value(x) {
						return false
					}
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// local: an address in a local allocation: the whole (-1) or one field.
func (l *localDefs) local(v ssa.Value) (*ssa.Alloc, int, bool) {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x, -1, l.ok[x]
	case *ssa.FieldAddr:
		if a, ok := x.X.(*ssa.Alloc); ok && l.ok[a] {
			return a, x.Field, true
		}
	}
	return nil, 0, false
}

func (l *localDefs) reaching(at ssa.Instruction, a *ssa.Alloc, field int) []*ssa.Store {
	var out []*ssa.Store
	seen := map[*ssa.BasicBlock]bool{}
	// fields still wanted: when the whole struct is read, a store of one field does not hide the others
	var scan func(b *ssa.BasicBlock, upto int)
	scan = func(b *ssa.BasicBlock, upto int) {
		for i := upto - 1; i >= 0; i-- {
			if b.Instrs[i] == ssa.Instruction(a) {
				return // made here: zero before
			}
			st, ok := b.Instrs[i].(*ssa.Store)
			if !ok {
				continue
			}
			x, f, ok := l.local(st.Addr)
			if !ok || x != a {
				continue
			}
			if f == field || f == -1 || field == -1 {
				out = append(out, st)
			}
			if f == field || f == -1 {
				return
			}
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				scan(p, len(p.Instrs))
			}
		}
	}
	b := at.Block()
	for i, x := range b.Instrs {
		if x == at {
			scan(b, i)
		}
	}
	return out
}

func (e *effects) callInstr(c ectx, x ssa.CallInstruction) {
	cc := x.Common()
	var res ssa.Value
	if v, ok := x.(*ssa.Call); ok {
		res = v
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		e.builtin(c, x, b.Name(), cc.Args, res)
		return
	}
	site := fmt.Sprintf("%p", x)
	ctx := func(f *ssa.Function) ectx {
		s := strings.Split(c.call, "/")
		s = append(s[max(0, len(s)-1):], site)
		return ectx{f, strings.Join(s, "/")}
	}
	enter := func(f *ssa.Function, args []eloc, ts []types.Type, cl *eobj) {
		n := ctx(f)
		e.enter(n)
		for i, a := range args {
			if i < len(f.Params) {
				_ = ts
				e.copy(e.val(n, f.Params[i]), a, f.Params[i].Type())
			}
		}
		if cl != nil {
			for i, fv := range f.FreeVars {
				e.copy(e.val(n, fv), eloc{cl, fmt.Sprintf("fv%d", i)}, fv.Type())
			}
		}
		if res != nil {
			r := e.obj("ret " + n.String())
			rs := f.Signature.Results()
			d := e.val(c, res)
			if rs.Len() == 1 {
				e.copy(d, eloc{r, "#0"}, rs.At(0).Type())
			} else {
				e.copy(d, eloc{r, ""}, rs)
			}
		}
	}
	var args []eloc
	for _, a := range cc.Args {
		args = append(args, e.val(c, a))
	}
	done := false
	switch {
	case cc.IsInvoke():
		for _, f := range e.g.Callees(x) {
			done = true
			// the receiver is what is in the boxes the interface may hold
			recv := e.obj(fmt.Sprintf("recv %s %s %p", c, site, f))
			for _, b := range e.targets(c, cc.Value) {
				e.copy(eloc{recv, ""}, b, f.Params[0].Type())
			}
			enter(f, append([]eloc{{recv, ""}}, args...), nil, nil)
		}
	case cc.StaticCallee() != nil && e.g.in[cc.StaticCallee()]:
		done = true
		var cl *eobj
		if m, ok := cc.Value.(*ssa.MakeClosure); ok {
			cl = e.fresh(c, m, "closure")
		}
		enter(cc.StaticCallee(), args, nil, cl)
	case cc.StaticCallee() == nil:
		known := false
		for _, t := range e.targets(c, cc.Value) {
			if t.o.fn != nil && len(t.o.fn.Blocks) > 0 && e.g.in[t.o.fn] {
				known, done = true, true
				enter(t.o.fn, args, nil, t.o)
			}
		}
		if !known {
			for _, f := range e.g.Callees(x) {
				done = true
				enter(f, args, nil, nil)
			}
		}
	}
	if !done {
		e.library(c, x, res)
	}
}

func (e *effects) elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	}
	return types.Typ[types.Byte]
}

// fullSlice: s[a:b:b], whose append never writes in place, or a nil slice.
func fullSlice(v ssa.Value) bool {
	if c, ok := v.(*ssa.Const); ok {
		return c.IsNil()
	}
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil {
		return false
	}
	if s.Max == s.High {
		return true
	}
	a, ok1 := s.Max.(*ssa.Const)
	b, ok2 := s.High.(*ssa.Const)
	return ok1 && ok2 && constant.Compare(a.Value, token.EQL, b.Value)
}

func (e *effects) builtin(c ectx, at ssa.CallInstruction, name string, args []ssa.Value, res ssa.Value) {
	switch name {
	case "append":
		et := e.elemType(args[0].Type())
		d := e.val(c, res)
		n := eloc{e.fresh(c, res, "append"), ""}
		e.add(d, n)
		var src []eloc
		if len(args) > 1 {
			src = e.targets(c, args[1])
		}
		for _, t := range e.targets(c, args[0]) {
			if !fullSlice(args[0]) {
				e.add(d, t)
				e.write(at, "append", eloc{t.o, t.p + "[*]"}, args[1])
				for _, s := range src {
					e.copy(eloc{t.o, t.p + "[*]"}, eloc{s.o, s.p + "[*]"}, et)
				}
			}
			e.copy(eloc{n.o, "[*]"}, eloc{t.o, t.p + "[*]"}, et)
		}
		for _, s := range src {
			e.copy(eloc{n.o, "[*]"}, eloc{s.o, s.p + "[*]"}, et)
		}
	case "copy":
		et := e.elemType(args[0].Type())
		for _, t := range e.targets(c, args[0]) {
			e.write(at, "copy", eloc{t.o, t.p + "[*]"}, args[1])
			if _, ok := args[1].Type().Underlying().(*types.Slice); ok {
				for _, s := range e.targets(c, args[1]) {
					e.copy(eloc{t.o, t.p + "[*]"}, eloc{s.o, s.p + "[*]"}, et)
				}
			}
		}
	case "delete":
		for _, t := range e.targets(c, args[0]) {
			e.write(at, "delete", eloc{t.o, t.p + "[v]"}, nil)
		}
	case "clear":
		for _, t := range e.targets(c, args[0]) {
			e.write(at, "clear", eloc{t.o, t.p + "[*]"}, nil)
		}
	}
}

// pure library packages: their functions write nothing through their
// arguments, except the receivers of the listed writing methods.
var purePkg = map[string]bool{"strings": true, "bytes": true, "fmt": true, "errors": true, "strconv": true, "math": true, "math/bits": true,
	"path": true, "path/filepath": true, "log": true, "time": true, "net": true, "unicode": true, "unicode/utf8": true, "os": true, "encoding/binary": true,
	"encoding/json": true, "math/big": true, "hash/fnv": true, "net/netip": true, "cmp": true, "regexp": true, "io": true}

var writesArg = map[string][]int{
	"sort.Strings": {0}, "sort.Ints": {0}, "sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Stable": {0},
	"slices.Sort": {0}, "slices.SortFunc": {0}, "slices.SortStableFunc": {0}, "slices.Reverse": {0}, "slices.Insert": {0}, "slices.Delete": {0}, "slices.Compact": {0}, "slices.CompactFunc": {0}, "slices.DeleteFunc": {0}, "slices.Replace": {0},
	"maps.Copy": {0}, "maps.DeleteFunc": {0},
	"encoding/json.Unmarshal": {1}, "io.ReadFull": {1}, "io.ReadAtLeast": {1}, "encoding/binary.Read": {2}, "io.Copy": {},
	"(encoding/binary.bigEndian).PutUint16": {1}, "(encoding/binary.bigEndian).PutUint32": {1}, "(encoding/binary.bigEndian).PutUint64": {1},
	"(encoding/binary.littleEndian).PutUint16": {1}, "(encoding/binary.littleEndian).PutUint32": {1}, "(encoding/binary.littleEndian).PutUint64": {1},
	"(*math/big.Int).SetBytes": {0}, "(*bytes.Buffer).Write": {0}, "(*strings.Builder).WriteString": {0},
	"strconv.AppendInt": {0}, "strconv.AppendUint": {0}, "strconv.AppendQuote": {0}, "fmt.Appendf": {0}, "fmt.Append": {0},
	"sync/atomic.AddInt64": {0}, "sync/atomic.AddInt32": {0}, "sync/atomic.AddUint64": {0}, "sync/atomic.AddUint32": {0}, "sync/atomic.StoreInt64": {0}, "sync/atomic.StorePointer": {0},
	"(*math/rand.Rand).Shuffle": {0},
}

// library functions whose results are new memory altogether
var freshResult = map[string]bool{
	"(net.IP).Mask": true, "net.ParseIP": true, "net.ParseCIDR": true, "net.CIDRMask": true, "net.IPv4": true, "slices.Clone": true, "bytes.Clone": true, "strings.Split": true, "maps.Clone": true,
	"encoding/json.Marshal": true, "os.ReadFile": true, "errors.New": true, "fmt.Errorf": true,
}

// sharedSafe: synchronised library state.
func sharedSafe(name string) bool {
	return strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "(*sync/atomic.")
}

func (e *effects) library(c ectx, at ssa.CallInstruction, res ssa.Value) {
	cc := at.Common()
	name := calleeName(cc)
	if strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "(reflect.") {
		e.reflect(c, at, name, res)
		return
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	pkg := ""
	if f := cc.StaticCallee(); f != nil {
		o := f
		if f.Origin() != nil {
			o = f.Origin()
		}
		if o.Pkg != nil {
			pkg = o.Pkg.Pkg.Path()
		} else if o.Object() != nil && o.Object().Pkg() != nil {
			pkg = o.Object().Pkg().Path()
		}
	} else if cc.IsInvoke() && cc.Method.Pkg() != nil {
		pkg = cc.Method.Pkg().Path()
	}
	writes := func(i int) {
		if i >= len(args) {
			return
		}
		for _, l := range leaves(args[i].Type()) {
			v := e.val(c, args[i])
			for t := range e.get(eloc{v.o, v.p + l.p}, l.t) {
				if types.IsInterface(l.t) { // what the interface holds
					for t2 := range e.cont[t] {
						e.write(at, "call of "+name, eloc{t2.o, t2.p + "[*]"}, nil)
					}
					continue
				}
				e.write(at, "call of "+name, eloc{t.o, t.p + "[*]"}, nil)
			}
		}
	}
	if w, ok := writesArg[name]; ok {
		for _, i := range w {
			writes(i)
		}
	} else if sharedSafe(name) || cc.IsInvoke() {
		// synchronised, or an interface of the caller's
	} else if strings.HasPrefix(name, "(*") && len(args) > 0 && !readOnlyMethod(name) {
		writes(0) // a pointer method of a library type may write its receiver
	} else if !purePkg[pkg] && !strings.HasPrefix(name, "slices.") && !strings.HasPrefix(name, "maps.") && !strings.HasPrefix(name, "sort.") && !strings.HasPrefix(name, "(*") {
		e.unknown[name] = true
		for i := range args {
			writes(i)
		}
	}
	// function arguments run with library-made arguments
	for _, a := range args {
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			for _, t := range e.targets(c, a) {
				if t.o.fn != nil && e.g.in[t.o.fn] {
					n := ectx{t.o.fn, fmt.Sprintf("%p", at)}
					e.enter(n)
					for i, fv := range t.o.fn.FreeVars {
						e.copy(e.val(n, fv), eloc{t.o, fmt.Sprintf("fv%d", i)}, fv.Type())
					}
				}
			}
		}
	}
	if res == nil {
		return
	}
	d := e.val(c, res)
	for _, l := range leaves(res.Type()) {
		n := e.obj(fmt.Sprintf("lib %s %p %s", c, at, l.p))
		e.add(eloc{d.o, d.p + l.p}, eloc{n, ""})
		if freshResult[name] {
			continue
		}
		for _, a := range args {
			v := e.val(c, a)
			for _, al := range leaves(a.Type()) {
				if types.Identical(al.t.Underlying(), l.t.Underlying()) {
					e.addAll(eloc{d.o, d.p + l.p}, e.get(eloc{v.o, v.p + al.p}, al.t))
				}
			}
		}
	}
	if name == "slices.Clone" || name == "maps.Clone" {
		for _, t := range e.targets(c, args[0]) {
			for _, n := range e.targets(c, res) {
				e.copy(eloc{n.o, n.p + "[*]"}, eloc{t.o, t.p + "[*]"}, e.elemType(args[0].Type()))
			}
		}
	}
}

func readOnlyMethod(name string) bool {
	for _, s := range []string{").String", ").Err", ").Error", ").Len", ").Bytes", ").Contains", ").Size", ").Replace", ").MatchString", ").FindString", ").Name", ").Cmp"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}

// reflect: a reflect.Value stands for the places its value may live in.
func (e *effects) reflect(c ectx, at ssa.CallInstruction, name string, res ssa.Value) {
	cc := at.Common()
	args := cc.Args
	up := types.Typ[types.UnsafePointer]
	places := func(v ssa.Value) []eloc {
		l := e.val(c, v)
		return e.list(e.get(eloc{l.o, l.p + ".ptr"}, up))
	}
	ret := func(t eloc) {
		d := e.val(c, res)
		e.add(eloc{d.o, d.p + ".ptr"}, t)
	}
	if !strings.HasPrefix(name, "(reflect.Value)") {
		switch name {
		case "reflect.ValueOf":
			for _, t := range e.targets(c, args[0]) {
				ret(t)
			}
		case "reflect.New", "reflect.MakeSlice", "reflect.MakeMap", "reflect.MakeMapWithSize", "reflect.Zero":
			b := e.fresh(c, res, "rbox")
			e.add(eloc{b, ""}, eloc{e.fresh(c, res, "robj"), ""})
			ret(eloc{b, ""})
		case "reflect.Copy", "reflect.Append", "reflect.AppendSlice":
			for _, p := range places(args[0]) {
				for t := range e.get(p, types.NewSlice(types.Typ[types.Byte])) {
					e.write(at, "call of "+name, t, nil)
				}
			}
		}
		return
	}
	m := strings.TrimPrefix(name, "(reflect.Value).")
	anyT := types.NewInterfaceType(nil, nil)
	switch {
	case m == "Elem":
		for _, p := range places(args[0]) {
			for t := range e.get(p, anyT) {
				ret(t)
			}
		}
	case m == "Field" || m == "Index" || m == "MapIndex" || m == "FieldByName":
		for _, p := range places(args[0]) {
			ret(eloc{p.o, strings.TrimSuffix(p.p, "~") + "~"})
			if m != "Field" {
				for t := range e.get(p, anyT) {
					ret(eloc{t.o, strings.TrimSuffix(t.p, "~") + "~"})
				}
			}
		}
	case m == "Addr":
		b := e.fresh(c, res, "raddr")
		for _, p := range places(args[0]) {
			e.add(eloc{b, ""}, p)
		}
		ret(eloc{b, ""})
	case m == "Interface":
		for _, p := range places(args[0]) {
			e.add(e.val(c, res), p)
		}
	case m == "SetMapIndex":
		for _, p := range places(args[0]) {
			for t := range e.get(p, anyT) {
				e.write(at, "call of "+name, t, nil)
				for _, q := range places(args[2]) {
					e.addAll(eloc{t.o, t.p + "[v]"}, e.get(q, anyT))
				}
			}
		}
	case m == "Set":
		for _, p := range places(args[0]) {
			e.write(at, "call of "+name, p, nil)
			for _, q := range places(args[1]) {
				e.addAll(p, e.get(q, anyT))
			}
		}
	case strings.HasPrefix(m, "Set"):
		for _, p := range places(args[0]) {
			e.write(at, "call of "+name, p, nil)
		}
	}
}

// Effects lists the writes found, in a stable order.
func (e *effects) Effects() []effect {
	var l []effect
	for _, x := range e.found {
		l = append(l, x)
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := e.g.Site(l[i].at), e.g.Site(l[j].at)
		if a != b {
			return a < b
		}
		return l[i].loc.o.path+l[i].loc.p < l[j].loc.o.path+l[j].loc.p
	})
	return l
}

// ResultHolds lists the caller-owned memory result i of the entry may reach.
func (e *effects) ResultHolds(c ectx, i int) []eloc {
	r := e.obj("ret " + c.String())
	var st []eloc
	t := c.f.Signature.Results().At(i).Type()
	for _, l := range leaves(t) {
		st = append(st, e.list(e.cont[eloc{r, fmt.Sprintf("#%d", i) + l.p}])...)
	}
	seen := map[*eobj]bool{}
	var out []eloc
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x.o] {
			continue
		}
		seen[x.o] = true
		if x.o.input {
			out = append(out, x)
			continue
		}
		for l, m := range e.cont {
			if l.o == x.o {
				st = append(st, e.list(m)...)
			}
		}
	}
	return out
}

// Functions lists the functions analysed.
func (e *effects) Functions() []string {
	m := map[string]bool{}
	for c := range e.funcs {
		m[short(c.f)] = true
	}
	var l []string
	for f := range m {
		l = append(l, f)
	}
	sort.Strings(l)
	return l
}
