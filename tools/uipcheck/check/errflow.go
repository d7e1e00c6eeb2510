package check

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/load"
)

// Failure-flow analysis. A forward dataflow over the SSA form whose facts say
// of a nilable or boolean value that it is nil/false (1) or not (2); branches
// refine them, phis carry them along the edge taken, calls inside the
// repository are followed through summaries. For an operation that can fail
// the analysis assumes it just did and asks what every exit of the function
// reports.

const (
	fNil    = 1 // nil, false
	fNonnil = 2 // not nil, true
)

type fkey struct {
	v   ssa.Value
	idx int // element of a tuple, -1 for the value itself
}

type ckey struct {
	v     ssa.Value // an Alloc or a Global
	typ   string    // or a field of a struct type
	field int
	ft    string // the type of the field
}

const (
	flStatus = 1 << iota // an HTTP error status was sent
	flBody               // an HTTP body was sent before any error status
	flScan               // the failure is that of a bufio.Scanner
	flOpened             // a file was created for writing
)

type fst struct {
	val    map[fkey]int8
	cell   map[ckey]int8
	holds  map[ckey]ssa.Value // the value a cell was last seen to hold
	failed bool
	flags  int
}

func newState() *fst {
	return &fst{val: map[fkey]int8{}, cell: map[ckey]int8{}, holds: map[ckey]ssa.Value{}}
}

func (s *fst) clone() *fst {
	n := &fst{val: make(map[fkey]int8, len(s.val)), cell: make(map[ckey]int8, len(s.cell)),
		holds: make(map[ckey]ssa.Value, len(s.holds)), failed: s.failed, flags: s.flags}
	for k, v := range s.val {
		n.val[k] = v
	}
	for k, v := range s.cell {
		n.cell[k] = v
	}
	for k, v := range s.holds {
		n.holds[k] = v
	}
	return n
}

// learn records a fact of a value, and of the cells that hold it.
func (s *fst) learn(v ssa.Value, f int8) {
	k := canon(v)
	s.val[k] = f
	for c, h := range s.holds {
		if canon(h) == k {
			s.cell[c] = f
		}
	}
}

func (e *errFlow) key(s *fst) string {
	var l []string
	for k, v := range s.val {
		l = append(l, fmt.Sprintf("%p.%d=%d", k.v, k.idx, v))
	}
	for k, v := range s.cell {
		l = append(l, fmt.Sprintf("c%p.%s.%d=%d", k.v, k.typ, k.field, v))
	}
	for k, v := range s.holds {
		l = append(l, fmt.Sprintf("h%p.%s.%d=%p", k.v, k.typ, k.field, v))
	}
	sort.Strings(l)
	return fmt.Sprintf("%v %d ", s.failed, s.flags) + strings.Join(l, " ")
}

type fexit struct {
	kind  string // return, exit (process ends with a failure status), panic
	res   []int8
	cell  map[ckey]int8
	fail  bool
	flags int
	at    ssa.Instruction
}

type trigger struct {
	at    ssa.Instruction
	apply func(s *fst) []*fst // states after the instruction, instead of the usual transfer
}

type errFlow struct {
	g       *Graph
	depth   int
	memo    map[string][]fexit
	busy    map[string]bool
	writes  map[*ssa.Function]map[ckey]bool
	gl      map[*ssa.Global]int8
	badCall func(s *fst, c ssa.CallInstruction) string // a call that must not happen in this state
	bad     []string
	badAt   []ssa.Instruction
	scanner ssa.Value // the scanner whose failure is followed
	keepAll bool      // keep the facts of dead values too
}

func newErrFlow(g *Graph) *errFlow {
	return &errFlow{g: g, memo: map[string][]fexit{}, busy: map[string]bool{},
		writes: map[*ssa.Function]map[ckey]bool{}, gl: map[*ssa.Global]int8{}}
}

func nilable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return true
	case *types.Basic:
		return u.Info()&types.IsBoolean != 0
	}
	return false
}

// cellOf names the memory an address designates, if it can be named.
func (e *errFlow) cellOf(a ssa.Value) (ckey, bool) {
	for i := 0; i < 6; i++ {
		switch x := a.(type) {
		case *ssa.Alloc:
			return ckey{v: x}, true
		case *ssa.Global:
			return ckey{v: x}, true
		case *ssa.FieldAddr:
			st := x.X.Type().Underlying().(*types.Pointer).Elem()
			return ckey{typ: st.String(), field: x.Field, ft: x.Type().Underlying().(*types.Pointer).Elem().String()}, true
		case *ssa.FreeVar:
			ms := e.g.makes[x.Parent()]
			if len(ms) != 1 {
				return ckey{}, false
			}
			for j, fv := range x.Parent().FreeVars {
				if fv == x {
					a = ms[0].Bindings[j]
				}
			}
		default:
			return ckey{}, false
		}
	}
	return ckey{}, false
}

func canon(v ssa.Value) fkey {
	for {
		switch x := v.(type) {
		case *ssa.Extract:
			return fkey{x.Tuple, x.Index}
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return fkey{v, -1}
	}
}

func (e *errFlow) eval(s *fst, v ssa.Value) int8 {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil && nilable(x.Type()) {
			return fNil
		}
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return fNonnil
			}
			return fNil
		}
		return 0
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.MakeChan, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Function, *ssa.Global:
		return fNonnil
	case *ssa.ChangeInterface:
		return e.eval(s, x.X)
	case *ssa.ChangeType:
		return e.eval(s, x.X)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if f, ok := s.val[fkey{x, -1}]; ok {
				return f
			}
			if gl, ok := x.X.(*ssa.Global); ok {
				return e.global(gl)
			}
		case token.NOT:
			switch e.eval(s, x.X) {
			case fNil:
				return fNonnil
			case fNonnil:
				return fNil
			}
			return 0
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			r := e.same(s, x.X, x.Y)
			if r != 0 && x.Op == token.NEQ {
				r = fNil + fNonnil - r
			}
			if r != 0 {
				return r
			}
		}
	}
	return s.val[canon(v)]
}

// same decides x == y where one of them is nil or a boolean constant.
func (e *errFlow) same(s *fst, x, y ssa.Value) int8 {
	if !nilable(x.Type()) {
		return 0
	}
	a, b := e.eval(s, x), e.eval(s, y)
	if _, ok := x.Type().Underlying().(*types.Basic); ok {
		if a != 0 && b != 0 {
			if a == b {
				return fNonnil
			}
			return fNil
		}
		return 0
	}
	if a == fNil && b == fNil {
		return fNonnil
	}
	if a != 0 && b != 0 && a != b {
		return fNil
	}
	return 0
}

// refine adds what holds when v is true (or false); ok is false when it cannot be.
func (e *errFlow) refine(s *fst, v ssa.Value, want bool) bool {
	w := int8(fNil)
	if want {
		w = fNonnil
	}
	if f := e.eval(s, v); f != 0 && f != w {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.refine(s, x.X, !want)
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			eq := want == (x.Op == token.EQL)
			if nilable(x.X.Type()) {
				a, b := e.eval(s, x.X), e.eval(s, x.Y)
				_, isBool := x.X.Type().Underlying().(*types.Basic)
				set := func(t ssa.Value, f int8) { s.learn(t, f) }
				if isBool {
					if b != 0 {
						f := b
						if !eq {
							f = fNil + fNonnil - b
						}
						set(x.X, f)
					} else if a != 0 {
						f := a
						if !eq {
							f = fNil + fNonnil - a
						}
						set(x.Y, f)
					}
				} else if eq {
					if b != 0 && a == 0 {
						set(x.X, b)
					}
					if a != 0 && b == 0 {
						set(x.Y, a)
					}
					if isEOF(x.X) || isEOF(x.Y) {
						s.failed = false // the end of the input, not a failure
					}
				} else {
					if b == fNil {
						set(x.X, fNonnil)
					}
					if a == fNil {
						set(x.Y, fNonnil)
					}
				}
			}
		}
	case *ssa.Call:
		if calleeName(x.Common()) == "errors.Is" && want && len(x.Call.Args) == 2 {
			if isEOF(x.Call.Args[1]) {
				s.failed = false
			}
			s.learn(x.Call.Args[0], fNonnil)
		}
	}
	if _, ok := v.(*ssa.Const); !ok {
		s.learn(v, w)
	}
	return true
}

func isEOF(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	gl, ok := u.X.(*ssa.Global)
	return ok && gl.Name() == "EOF" && gl.Pkg.Pkg.Path() == "io"
}

// global is the fact of a package variable that is set once, in its initialiser.
func (e *errFlow) global(gl *ssa.Global) int8 {
	if f, ok := e.gl[gl]; ok {
		return f
	}
	e.gl[gl] = 0
	t := gl.Type().Underlying().(*types.Pointer).Elem()
	if !load.InRepo(gl.Pkg.Pkg.Path()) {
		if isError(t) {
			e.gl[gl] = fNonnil // io.EOF and its like
		}
		return e.gl[gl]
	}
	n, f := 0, int8(fNonnil)
	for _, fn := range e.g.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != ssa.Value(gl) {
						continue
					}
					switch x := ins.(type) {
					case *ssa.Store:
						n++
						if x.Addr != ssa.Value(gl) || fn.Name() != "init" || e.constNonnil(x.Val) != fNonnil {
							f = 0
						}
					case *ssa.UnOp:
					default:
						f = 0
					}
				}
			}
		}
	}
	if n == 0 {
		f = 0
	}
	e.gl[gl] = f
	return f
}

func (e *errFlow) constNonnil(v ssa.Value) int8 {
	if c, ok := v.(*ssa.Call); ok {
		return e.external(c.Common())
	}
	return e.eval(newState(), v)
}

// external is the fact of the single result of a library call.
func (e *errFlow) external(c *ssa.CallCommon) int8 {
	switch calleeName(c) {
	case "errors.New", "fmt.Errorf", "net.IPv4", "bytes.NewBuffer", "bytes.NewReader", "bufio.NewScanner", "bufio.NewWriter", "bufio.NewReader", "strings.NewReader", "strings.NewReplacer":
		return fNonnil
	}
	return 0
}

// mayWrite lists the cells a function and its callees may store to.
func (e *errFlow) mayWrite(f *ssa.Function) map[ckey]bool {
	if w, ok := e.writes[f]; ok {
		return w
	}
	w := map[ckey]bool{}
	for x := range e.g.Reach([]*ssa.Function{f}, nil) {
		for _, b := range x.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if c, ok := e.cellOf(st.Addr); ok {
						w[c] = true
					} else {
						w[ckey{typ: "*" + st.Val.Type().String()}] = true
					}
				}
			}
		}
	}
	e.writes[f] = w
	return w
}

func (e *errFlow) cellType(c ckey) string {
	if c.v != nil {
		return c.v.Type().Underlying().(*types.Pointer).Elem().String()
	}
	return c.ft
}

// holdsType: a value of type t has one of type name in it.
func holdsType(t types.Type, name string) bool {
	if t.String() == name {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsType(u.Field(i).Type(), name) {
				return true
			}
		}
	case *types.Array:
		return holdsType(u.Elem(), name)
	}
	return false
}

// run follows a function from a state; tr applies at its instruction.
func (e *errFlow) run(f *ssa.Function, start *fst, tr *trigger) []fexit {
	type item struct {
		b *ssa.BasicBlock
		s *fst
	}
	var exits []fexit
	seenExit := map[string]bool{}
	addExit := func(x fexit) {
		k := fmt.Sprint(x.kind, x.res, x.fail, x.flags, x.at.Pos(), len(x.cell))
		t := newState()
		t.cell = x.cell
		k += e.key(t)
		if !seenExit[k] {
			seenExit[k] = true
			exits = append(exits, x)
		}
	}
	seen := map[string]bool{}
	count := map[*ssa.BasicBlock]int{}
	work := []item{{f.Blocks[0], start.clone()}}
	push := func(from, to *ssa.BasicBlock, s *fst) {
		n := s.clone()
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		type up struct {
			v ssa.Value
			f int8
		}
		var ups []up
		for _, ins := range to.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if nilable(ph.Type()) {
				ups = append(ups, up{ph, e.eval(s, ph.Edges[pi])})
			}
		}
		for _, u := range ups {
			if u.f == 0 {
				delete(n.val, fkey{u.v, -1})
			} else {
				n.val[fkey{u.v, -1}] = u.f
			}
		}
		if !e.keepAll {
			e.prune(n, to)
		}
		count[to]++
		if count[to] > 600 { // widen: keep the cells, drop the value facts
			n.val = map[fkey]int8{}
		}
		k := fmt.Sprint(to.Index, " ") + e.key(n)
		if seen[k] {
			return
		}
		seen[k] = true
		work = append(work, item{to, n})
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		states := []*fst{it.s}
		for _, ins := range it.b.Instrs {
			var next []*fst
			for _, s := range states {
				if tr != nil && tr.at == ins {
					next = append(next, tr.apply(s)...)
					continue
				}
				next = append(next, e.step(s, ins, addExit)...)
			}
			states = next
			if len(states) == 0 {
				break
			}
		}
		for _, s := range states {
			switch t := it.b.Instrs[len(it.b.Instrs)-1].(type) {
			case *ssa.If:
				a, b := s.clone(), s
				if e.refine(a, t.Cond, true) {
					push(it.b, it.b.Succs[0], a)
				}
				if e.refine(b, t.Cond, false) {
					push(it.b, it.b.Succs[1], b)
				}
			case *ssa.Jump:
				push(it.b, it.b.Succs[0], s)
			case *ssa.Return:
				x := fexit{kind: "return", fail: s.failed, flags: s.flags, at: t, cell: s.cell}
				for _, r := range t.Results {
					x.res = append(x.res, e.eval(s, r))
				}
				addExit(x)
			case *ssa.Panic:
				addExit(fexit{kind: "panic", fail: s.failed, flags: s.flags, at: t, cell: s.cell})
			}
		}
	}
	return exits
}

// prune drops the facts of values that are not used at or after a block.
func (e *errFlow) prune(s *fst, b *ssa.BasicBlock) {
	for k := range s.val {
		d := k.v
		ins, ok := d.(ssa.Instruction)
		if !ok || ins.Block() == nil || ins.Parent() != b.Parent() {
			continue
		}
		if !usedFrom(d, b, map[ssa.Value]bool{}) {
			delete(s.val, k)
		}
	}
	for c, h := range s.holds {
		ins, ok := h.(ssa.Instruction)
		if !ok || ins.Block() == nil || ins.Parent() != b.Parent() || !usedFrom(canon(h).v, b, map[ssa.Value]bool{}) {
			delete(s.holds, c)
		}
	}
}

var reachMemo = map[[2]*ssa.BasicBlock]bool{}

func reaches(a, b *ssa.BasicBlock) bool {
	if a == b {
		return true
	}
	k := [2]*ssa.BasicBlock{a, b}
	if r, ok := reachMemo[k]; ok {
		return r
	}
	seen := map[*ssa.BasicBlock]bool{}
	var st = []*ssa.BasicBlock{a}
	r := false
	for len(st) > 0 && !r {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		for _, y := range x.Succs {
			if y == b {
				r = true
			}
			if !seen[y] {
				seen[y] = true
				st = append(st, y)
			}
		}
	}
	reachMemo[k] = r
	return r
}

func usedFrom(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		blk := r.Block()
		if ph, ok := r.(*ssa.Phi); ok {
			for i, x := range ph.Edges {
				if x == v && reaches(b, ph.Block().Preds[i]) {
					return true
				}
			}
			continue
		}
		if reaches(b, blk) {
			return true
		}
		if w, ok := r.(ssa.Value); ok {
			switch r.(type) {
			case *ssa.Extract, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.BinOp, *ssa.UnOp:
				if usedFrom(w, b, seen) {
					return true
				}
			}
		}
	}
	return false
}

func (e *errFlow) step(s *fst, ins ssa.Instruction, addExit func(fexit)) []*fst {
	switch x := ins.(type) {
	case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic, *ssa.DebugRef:
		return []*fst{s}
	case *ssa.Store:
		f := e.eval(s, x.Val)
		if c, ok := e.cellOf(x.Addr); ok {
			if nilable(x.Val.Type()) {
				if f == 0 {
					delete(s.cell, c)
				} else {
					s.cell[c] = f
				}
				s.holds[c] = x.Val
			} else {
				s.drop(func(k ckey) bool { return k.v == nil && holdsType(x.Val.Type(), k.typ) })
			}
		} else {
			s.drop(func(k ckey) bool {
				return e.cellType(k) == x.Val.Type().String() || k.v == nil && holdsType(x.Val.Type(), k.typ)
			})
		}
		return []*fst{s}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			e.forget(s, x)
			if c, ok := e.cellOf(x.X); ok && nilable(x.Type()) {
				if f, ok := s.cell[c]; ok {
					s.val[fkey{x, -1}] = f
				}
				s.holds[c] = x
			}
			return []*fst{s}
		}
	case *ssa.RunDefers:
		return e.runDefers(s, x, addExit)
	case *ssa.Defer, *ssa.Go:
		return []*fst{s}
	case *ssa.Call:
		return e.call(s, x, addExit)
	}
	if v, ok := ins.(ssa.Value); ok {
		e.forget(s, v)
	}
	return []*fst{s}
}

// forget drops the facts of an earlier evaluation of the instruction.
func (e *errFlow) forget(s *fst, v ssa.Value) {
	for k := range s.val {
		if k.v == v {
			delete(s.val, k)
		}
	}
	for c, h := range s.holds {
		if canon(h).v == v {
			delete(s.holds, c)
		}
	}
}

// drop forgets what some cells hold.
func (s *fst) drop(which func(ckey) bool) {
	for k := range s.cell {
		if which(k) {
			delete(s.cell, k)
		}
	}
	for k := range s.holds {
		if which(k) {
			delete(s.holds, k)
		}
	}
}

func (e *errFlow) runDefers(s *fst, at *ssa.RunDefers, addExit func(fexit)) []*fst {
	states := []*fst{s}
	for _, b := range at.Parent().Blocks {
		for _, ins := range b.Instrs {
			d, ok := ins.(*ssa.Defer)
			if !ok || !reaches(d.Block(), at.Block()) {
				continue
			}
			var next []*fst
			for _, t := range states {
				next = append(next, e.effect(t, d, nil, addExit)...)
			}
			states = next
		}
	}
	return states
}

func (e *errFlow) call(s *fst, x *ssa.Call, addExit func(fexit)) []*fst {
	e.forget(s, x)
	name := calleeName(x.Common())
	if e.badCall != nil {
		if m := e.badCall(s, x); m != "" {
			e.bad = append(e.bad, m)
			e.badAt = append(e.badAt, x)
		}
	}
	switch name {
	case "os.Exit":
		if c, ok := x.Call.Args[0].(*ssa.Const); !ok || c.Value == nil || constant.Sign(c.Value) != 0 {
			addExit(fexit{kind: "exit", fail: s.failed, flags: s.flags, at: x, cell: s.cell})
		} else {
			addExit(fexit{kind: "exit0", fail: s.failed, flags: s.flags, at: x, cell: s.cell})
		}
		return nil
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln":
		addExit(fexit{kind: "exit", fail: s.failed, flags: s.flags, at: x, cell: s.cell})
		return nil
	case "log.Panic", "log.Panicf", "log.Panicln":
		addExit(fexit{kind: "panic", fail: s.failed, flags: s.flags, at: x, cell: s.cell})
		return nil
	case "(*bufio.Scanner).Err":
		if r := x.Call.Args[0]; s.failed && s.flags&flScan != 0 && (e.scanner == nil || e.scanner == r || sameLoad(e.scanner, r) || e.scanner.Parent() != r.Parent()) {
			s.val[fkey{x, -1}] = fNonnil
		}
		return []*fst{s}
	}
	e.http(s, x, name)
	if f := e.external(x.Common()); f != 0 {
		s.val[fkey{x, -1}] = f
		return []*fst{s}
	}
	return e.effect(s, x, x, addExit)
}

// sameLoad: two loads from the same place.
func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	if x.X == y.X {
		return true
	}
	f, ok1 := x.X.(*ssa.FieldAddr)
	h, ok2 := y.X.(*ssa.FieldAddr)
	return ok1 && ok2 && f.Field == h.Field && (f.X == h.X || sameLoad(f.X, h.X))
}

// http follows what a handler sends.
func (e *errFlow) http(s *fst, x *ssa.Call, name string) {
	bad := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() >= 400
	}
	writer := func(v ssa.Value) bool {
		for {
			switch y := v.(type) {
			case *ssa.MakeInterface:
				v = y.X
				continue
			case *ssa.ChangeInterface:
				v = y.X
				continue
			}
			break
		}
		return v.Type().String() == "net/http.ResponseWriter"
	}
	switch name {
	case "(net/http.ResponseWriter).WriteHeader":
		if bad(x.Call.Args[0]) && s.flags&flBody == 0 {
			s.flags |= flStatus
		} else if s.flags&flStatus == 0 {
			s.flags |= flBody
		}
		return
	case "net/http.Error":
		if bad(x.Call.Args[2]) && s.flags&flBody == 0 {
			s.flags |= flStatus
		}
		return
	case "net/http.NotFound":
		if s.flags&flBody == 0 {
			s.flags |= flStatus
		}
		return
	case "(net/http.ResponseWriter).Write":
		if s.flags&flStatus == 0 {
			s.flags |= flBody
		}
		return
	}
	if len(e.g.Callees(x)) == 0 && name != "(net/http.ResponseWriter).Header" {
		for _, a := range x.Call.Args {
			if writer(a) && s.flags&flStatus == 0 {
				s.flags |= flBody // handed to the library, which may write
			}
		}
	}
}

// effect applies the callees of a call to a state.
func (e *errFlow) effect(s *fst, c ssa.CallInstruction, res *ssa.Call, addExit func(fexit)) []*fst {
	fs := e.g.Callees(c)
	cc := c.Common()
	if len(fs) == 0 {
		for _, a := range cc.Args {
			if k, ok := e.cellOf(a); ok && k.v != nil {
				delete(s.cell, k)
				delete(s.holds, k)
			}
		}
		return []*fst{s}
	}
	var out []*fst
	seen := map[string]bool{}
	for _, f := range fs {
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		in := newState()
		in.failed, in.flags = s.failed, s.flags
		if len(args) == len(f.Params) {
			for i, a := range args {
				if v := e.eval(s, a); v != 0 {
					in.val[fkey{f.Params[i], -1}] = v
				}
			}
		}
		w := e.mayWrite(f)
		relevant := map[ckey]bool{}
		for k := range s.cell {
			if w[k] || w[ckey{typ: "*" + e.cellType(k)}] || e.reads(f, k) {
				relevant[k] = true
				in.cell[k] = s.cell[k]
			}
		}
		for _, x := range e.summary(f, in) {
			if x.kind != "return" {
				if x.kind == "exit0" {
					addExit(fexit{kind: "exit0", fail: x.fail, flags: x.flags, at: c, cell: s.cell})
				}
				continue // the process ends, or the panic goes on, where no error is reported as success
			}
			n := s.clone()
			n.failed, n.flags = x.fail, x.flags
			for k := range relevant {
				delete(n.cell, k)
			}
			for k := range n.holds {
				if w[k] || w[ckey{typ: "*" + e.cellType(k)}] {
					delete(n.holds, k)
				}
			}
			for k, v := range x.cell {
				n.cell[k] = v
			}
			if res != nil {
				e.forget(n, res)
				for i, r := range x.res {
					if r == 0 {
						continue
					}
					if len(x.res) == 1 {
						n.val[fkey{res, -1}] = r
					} else {
						n.val[fkey{res, i}] = r
					}
				}
			}
			if k := e.key(n); !seen[k] {
				seen[k] = true
				out = append(out, n)
			}
		}
	}
	return out
}

var readMemo = map[*ssa.Function]map[ckey]bool{}

func (e *errFlow) reads(f *ssa.Function, c ckey) bool {
	m, ok := readMemo[f]
	if !ok {
		m = map[ckey]bool{}
		for x := range e.g.Reach([]*ssa.Function{f}, nil) {
			for _, b := range x.Blocks {
				for _, ins := range b.Instrs {
					if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
						if k, ok := e.cellOf(u.X); ok {
							m[k] = true
						}
					}
				}
			}
		}
		readMemo[f] = m
	}
	return m[c]
}

// summary is what a function may return from a state at its entry.
func (e *errFlow) summary(f *ssa.Function, in *fst) []fexit {
	k := fmt.Sprintf("%p ", f) + e.key(in)
	if r, ok := e.memo[k]; ok {
		return r
	}
	if e.busy[k] || e.depth > 30 {
		// a recursive call: anything may come back
		return []fexit{{kind: "return", res: make([]int8, f.Signature.Results().Len()), fail: in.failed, flags: in.flags}}
	}
	e.busy[k] = true
	e.depth++
	xs := e.run(f, in, nil)
	e.depth--
	delete(e.busy, k)
	// what distinguishes exits for a caller
	var out []fexit
	seen := map[string]bool{}
	for _, x := range xs {
		t := newState()
		t.cell = map[ckey]int8{}
		for c, v := range x.cell {
			if c.v == nil || c.v.Parent() != f {
				t.cell[c] = v
			}
		}
		x.cell = t.cell
		kk := fmt.Sprint(x.kind, x.res, x.fail, x.flags) + e.key(t)
		if !seen[kk] {
			seen[kk] = true
			out = append(out, x)
		}
	}
	if len(out) > 12 { // one exit for each outcome, with what all of them know of the cells
		at := map[string]int{}
		var l []fexit
		for _, x := range out {
			kk := fmt.Sprint(x.kind, x.res, x.fail, x.flags)
			i, ok := at[kk]
			if !ok {
				at[kk] = len(l)
				l = append(l, x)
				continue
			}
			m := map[ckey]int8{}
			for c, v := range l[i].cell {
				if x.cell[c] == v {
					m[c] = v
				}
			}
			l[i].cell = m
		}
		out = l
	}
	if len(out) > 24 {
		j := fexit{kind: "return", res: make([]int8, f.Signature.Results().Len()), fail: in.failed, flags: in.flags}
		for _, x := range out {
			j.flags |= x.flags
		}
		out = []fexit{j}
	}
	e.memo[k] = out
	return out
}
