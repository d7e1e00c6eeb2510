package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ob is one obligation: a place where the program could go wrong.
type Ob struct {
	Rule, Site, Func, What, Why string
	Entry                       string
	N                           int
	Failed                      bool
}

type Eng struct {
	prog         *ssa.Program
	fset         *token.FileSet
	tab          *symTab
	ids          int
	nobj         int
	initHeap     map[ObjID]*Obj
	initSt       *State
	globals      map[*ssa.Global]ObjID
	roots        []ObjID
	dry          int
	obs          map[string]*Ob
	entry        string
	sccs         map[*ssa.Function]int
	sccSize      map[int]int
	ctxs         map[string]*recCtx
	ctxQueue     []*recCtx
	recRel       map[[2]*ssa.Function]map[[2]int]int
	loops        map[*ssa.Function]*loopInfo
	live         map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	models       map[string]model
	syncM        map[string]*Alt
	stats        stats
	steps        int
	maxSteps     int
	failedFn     string
	mode         modes
	analysed     map[*ssa.Function]bool
	callHook     func(st *State, fn *ssa.Function, args []Val, site ssa.Instruction)
	retHook      func(st *State, fn *ssa.Function, args []Val, ret []Val)
	modelHk      func(st *State, name string, args []Val, site ssa.Instruction)
	storeHk      func(st *State, p PtrV, v Val, in *ssa.Store)
	exitHook     func(st *State, code Val)
	pendOn       bool
	loopMax      int
	allFns       []*ssa.Function
	methodsNamed map[string][]*ssa.Function
	selfRec      map[*ssa.Function]bool
	recEdges     []recEdge
	syncChanged  bool
	globalIDs    map[ObjID]bool
}

func originName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

type modes struct {
	panics bool // record panic obligations
}

type stats struct {
	Calls, Loops, Joins, MaxStates int
}

func newEng(prog *ssa.Program) *Eng {
	e := &Eng{prog: prog, fset: prog.Fset, tab: &symTab{}, initHeap: map[ObjID]*Obj{},
		globals: map[*ssa.Global]ObjID{}, globalIDs: map[ObjID]bool{}, obs: map[string]*Ob{}, ctxs: map[string]*recCtx{},
		recRel: map[[2]*ssa.Function]map[[2]int]int{}, loops: map[*ssa.Function]*loopInfo{},
		live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, models: map[string]model{},
		syncM: map[string]*Alt{}, maxSteps: 40_000_000, analysed: map[*ssa.Function]bool{}}
	e.mode.panics = true
	e.registerModels()
	return e
}

func (e *Eng) newState() *State {
	return &State{eng: e, cs: consSet{tab: e.tab}, facts: map[int]bool{}, strs: map[int]strFact{}, heap: map[ObjID]*Obj{}}
}

const modPath = "github.com/qiniu/uip"

func inRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

func fnPkg(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// where names the construct: the innermost repository frame.
func (e *Eng) where(st *State, in ssa.Instruction) (site, fn string) {
	pos := token.NoPos
	if in != nil {
		pos = in.Pos()
		if pos == token.NoPos {
			pos = nearPos(in)
		}
	}
	f := st.top
	if f != nil && !inRepo(f.fn) {
		// attribute to the call in the repository
		c := f.call
		for i := len(st.frames) - 1; i >= 0; i-- {
			if inRepo(st.frames[i].fn) {
				f = st.frames[i]
				break
			}
			c = st.frames[i].call
		}
		if c != nil {
			pos = c.Pos()
		}
	}
	if f != nil {
		fn = f.fn.String()
	}
	p := e.fset.Position(pos)
	return fmt.Sprintf("%s:%d:%d", trimRepo(p.Filename), p.Line, p.Column), fn
}

func nearPos(in ssa.Instruction) token.Pos {
	b := in.Block()
	if b == nil {
		return token.NoPos
	}
	at := -1
	for i, x := range b.Instrs {
		if x == in {
			at = i
		}
	}
	for i := at; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p != token.NoPos {
			return p
		}
	}
	return token.NoPos
}

var repoDir = "/repo"

func trimRepo(s string) string { return strings.TrimPrefix(s, repoDir+"/") }

func (e *Eng) record(st *State, in ssa.Instruction, rule, what string, ok bool, why string) {
	if e.dry > 0 {
		return
	}
	site, fn := e.where(st, in)
	k := rule + "|" + site + "|" + what
	o := e.obs[k]
	if o == nil {
		o = &Ob{Rule: rule, Site: site, Func: fn, What: what}
		e.obs[k] = o
	}
	o.N++
	if !ok && !o.Failed {
		o.Failed = true
		o.Why = why
		o.Entry = e.entry + chain(st)
		if os.Getenv("UIPDEBUG") != "" {
			fmt.Fprintf(os.Stderr, "FAIL %s %s %s: %s\n", rule, site, what, why)
			if os.Getenv("UIPDEBUG") == "2" {
				for _, c := range st.cs.list {
					fmt.Fprintf(os.Stderr, "    %s eq=%v\n", c.e, c.eq)
				}
				seen := map[Sym]bool{}
				for _, c := range st.cs.list {
					for _, t := range c.e.t {
						if !seen[t.s] {
							seen[t.s] = true
							i := st.cs.tab.info[t.s]
							fmt.Fprintf(os.Stderr, "      s%d %s [%v %v,%v %v] prod=%v", t.s, i.name, i.hasLo, i.lo, i.hasHi, i.hi, i.prod)
							for _, d := range i.cons {
								fmt.Fprintf(os.Stderr, " (%s eq=%v)", d.e, d.eq)
							}
							fmt.Fprintln(os.Stderr)
						}
					}
				}
			}
		}
	}
}

func chain(st *State) string {
	var b strings.Builder
	for _, f := range st.frames {
		if f.fn != nil {
			b.WriteString(" > " + f.fn.Name())
		}
	}
	if st.top != nil && st.top.fn != nil {
		b.WriteString(" > " + st.top.fn.Name())
	}
	return b.String()
}

// need requires c at in; it returns the states in which it holds.
func (e *Eng) need(st *State, in ssa.Instruction, rule, what string, c Cond) []*State {
	r := st.evalCond(c)
	if e.mode.panics {
		why := ""
		if r != 1 && e.dry == 0 {
			why = "cannot show " + condKey(c)
		}
		e.record(st, in, rule, what, r == 1, why)
	}
	if r == 1 {
		return []*State{st}
	}
	if r == 0 {
		return nil
	}
	return st.assume(c, true)
}

// undecided records a construct the analysis does not handle.
func (e *Eng) undecided(st *State, in ssa.Instruction, what string) {
	e.record(st, in, "undecided", what, false, "construct not handled by the analysis")
}

type ret struct {
	st   *State
	vals []Val
}

type edge struct {
	st       *State
	from, to *ssa.BasicBlock
}

// call runs fn on args.
func (e *Eng) callFn(st *State, fn *ssa.Function, args []Val, binds []Val, site ssa.Instruction) []ret {
	e.stats.Calls++
	if len(fn.Blocks) == 0 || !inRepo(fn) && !inlineStd(fn) {
		return e.external(st, fn, args, site)
	}
	if m := e.models[originName(fn)]; m != nil {
		return m(e, st, &cctx{name: originName(fn), fn: fn, sig: fn.Signature, args: args, site: site})
	}
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if st.top != nil && st.top.fn == fn {
		n++
	}
	if e.recursive(fn) {
		if rs, ok := e.recCall(st, fn, args, site); ok {
			return rs
		}
		if n >= 3 {
			e.undecided(st, site, "recursion of "+fn.Name()+" not bounded")
			return e.havocCall(st, fn.Signature, args, fn.Name())
		}
	}
	if len(st.frames) > 40 {
		e.undecided(st, site, "call depth")
		return e.havocCall(st, fn.Signature, args, fn.Name())
	}
	if e.callHook != nil {
		e.callHook(st, fn, args, site)
	}
	if inRepo(fn) {
		e.analysed[fn] = true
	}
	st = st.clone()
	old := st.top
	if old != nil {
		st.frames = append(st.frames[:len(st.frames):len(st.frames)], old)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, call: site}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.env[p] = binds[i]
		}
	}
	st.top = fr
	_, _, rets := e.runRegion(fn, nil, []edge{{st, nil, fn.Blocks[0]}}, nil)
	for i := range rets {
		s := rets[i].st
		if old != nil {
			s.top = s.frames[len(s.frames)-1].copy()
			s.frames = s.frames[:len(s.frames)-1]
		} else {
			s.top = nil
		}
		if e.retHook != nil {
			e.retHook(s, fn, args, rets[i].vals)
		}
	}
	return e.mergeRets(rets)
}

const retCap = 10

func (e *Eng) mergeRets(rets []ret) []ret {
	if len(rets) < 2 {
		return rets
	}
	// carry the results in the frame while joining
	pack := func(r ret) *State {
		s := r.st
		if s.top == nil {
			s.top = &Frame{fn: dummyFn, env: map[ssa.Value]Val{}}
		}
		s.top.env[retKey] = TupleV(r.vals)
		return s
	}
	var sts []*State
	for _, r := range rets {
		sts = append(sts, pack(r))
	}
	sts = e.join(sts, retCap)
	var out []ret
	for _, s := range sts {
		v := s.top.env[retKey].(TupleV)
		delete(s.top.env, retKey)
		if s.top.fn == dummyFn {
			s.top = nil
		}
		out = append(out, ret{s, []Val(v)})
	}
	return out
}

var dummyFn = &ssa.Function{}
var retKey ssa.Value = &ssa.Parameter{}

func init() { orderCache[dummyFn] = map[ssa.Value]int{} }

// join merges equal states, and states of one shape beyond limit.
func (e *Eng) join(sts []*State, limit int) []*State {
	if len(sts) < 2 {
		return sts
	}
	if len(sts) > e.stats.MaxStates {
		e.stats.MaxStates = len(sts)
	}
	type grp struct {
		st []*State
		fl []*flatState
	}
	by := map[string]*grp{}
	var keys []string
	for _, s := range sts {
		f := flatten(s)
		g := by[f.key]
		if g == nil {
			g = &grp{}
			by[f.key] = g
			keys = append(keys, f.key)
		}
		g.st = append(g.st, s)
		g.fl = append(g.fl, f)
	}
	var out []*State
	type pendg struct {
		st []*State
		fl []*flatState
	}
	var groups []*pendg
	total := 0
	for _, k := range keys {
		g := by[k]
		// merge states with the same leaves
		sub := map[string][]int{}
		var sk []string
		for i, f := range g.fl {
			lk := leafKey(e, g.st[i], f)
			if sub[lk] == nil {
				sk = append(sk, lk)
			}
			sub[lk] = append(sub[lk], i)
		}
		p := &pendg{}
		for _, lk := range sk {
			ix := sub[lk]
			if len(ix) == 1 {
				p.st = append(p.st, g.st[ix[0]])
				p.fl = append(p.fl, g.fl[ix[0]])
				continue
			}
			c := newStateClass(e, g.st[ix[0]], g.fl[ix[0]])
			for _, i := range ix[1:] {
				c.add(g.st[i], g.fl[i])
			}
			e.stats.Joins++
			s := c.state()
			p.st = append(p.st, s)
			p.fl = append(p.fl, flatten(s))
		}
		groups = append(groups, p)
		total += len(p.st)
	}
	if total > limit {
		// join the biggest groups
		regroup := map[string]*pendg{}
		var order []*pendg
		for _, p := range groups {
			for i, f := range p.fl {
				g := regroup[f.key]
				if g == nil {
					g = &pendg{}
					regroup[f.key] = g
					order = append(order, g)
				}
				g.st = append(g.st, p.st[i])
				g.fl = append(g.fl, f)
			}
		}
		groups = order
		for _, p := range groups {
			if len(p.st) < 2 {
				continue
			}
			c := newStateClass(e, p.st[0], p.fl[0])
			for i := 1; i < len(p.st); i++ {
				c.add(p.st[i], p.fl[i])
			}
			e.stats.Joins++
			p.st = []*State{c.state()}
		}
	}
	for _, p := range groups {
		out = append(out, p.st...)
	}
	if len(out) > limit {
		out = e.reduce(out, limit)
	}
	return out
}

func leafKey(e *Eng, s *State, f *flatState) string {
	var b strings.Builder
	for _, l := range f.leaves {
		switch l.kind {
		case 'i':
			b.WriteString(l.l.String())
		case 's':
			if l.s.c != nil {
				fmt.Fprintf(&b, "%q", *l.s.c)
			} else {
				fmt.Fprintf(&b, "s%d", l.s.id)
				if fa, ok := s.strs[l.s.id]; ok && fa.eq != nil {
					fmt.Fprintf(&b, "=%q", *fa.eq)
				}
			}
		case 'n':
			fmt.Fprintf(&b, "n%d", l.n.id)
		case 'b':
			b.WriteString(condKey(l.c))
		}
		b.WriteByte(';')
	}
	for _, sl := range f.slots {
		o := s.heap[sl.obj]
		for _, a := range o.slotAlts(sl.low) {
			fmt.Fprintf(&b, "|%p", a)
		}
	}
	return b.String()
}

// runRegion runs the blocks of region (nil: the whole function) from the
// given entries. Edges back to stop and edges leaving the region are returned.
func (e *Eng) runRegion(fn *ssa.Function, region map[*ssa.BasicBlock]bool, in []edge, stop *ssa.BasicBlock) (back, exits []edge, rets []ret) {
	li := e.loopInfo(fn)
	pending := map[*ssa.BasicBlock][]*State{}
	deliver := func(ed edge) {
		if ed.to == stop && ed.from != nil {
			back = append(back, ed)
			return
		}
		if region != nil && !region[ed.to] {
			exits = append(exits, ed)
			return
		}
		pending[ed.to] = append(pending[ed.to], ed.st)
	}
	for _, ed := range in {
		pending[ed.to] = append(pending[ed.to], ed.st)
	}
	for {
		var b *ssa.BasicBlock
		for x, l := range pending {
			if len(l) > 0 && (b == nil || li.rpo[x] < li.rpo[b]) {
				b = x
			}
		}
		if b == nil {
			return
		}
		sts := pending[b]
		delete(pending, b)
		if len(b.Preds) > 1 || len(sts) > 4 {
			sts = e.join(sts, blockCap)
		}
		if L := li.header[b]; L != nil && b != stop {
			ex, rs := e.runLoop(fn, L, sts)
			for _, x := range ex {
				deliver(x)
			}
			rets = append(rets, rs...)
			continue
		}
		for _, st := range sts {
			outs, rs := e.runBlock(st, b)
			rets = append(rets, rs...)
			for _, o := range outs {
				deliver(o)
			}
		}
	}
}

const blockCap = 12
const headCap = 4

// runLoop analyses a natural loop to a fixed point.
func (e *Eng) runLoop(fn *ssa.Function, L *loop, sts []*State) ([]edge, []ret) {
	e.stats.Loops++
	sts = e.join(sts, headCap)
	var classes []*stateClass
	byKey := map[string]*stateClass{}
	merged := false
	addState := func(s *State) bool {
		f := flatten(s)
		if c := byKey[f.key]; c != nil {
			n := len(c.tops)
			ch := c.add(s, f)
			if len(c.tops) > n {
				// its shape has changed
				t := c.state()
				ft := flatten(t)
				delete(byKey, f.key)
				for i, o := range classes {
					if o == c {
						if d := byKey[ft.key]; d != nil {
							d.add(t, ft)
							classes = append(classes[:i:i], classes[i+1:]...)
						} else {
							classes[i] = newStateClass(e, t, ft)
							byKey[ft.key] = classes[i]
						}
						break
					}
				}
				merged = true
			}
			return ch
		}
		if len(classes) >= headCap || merged {
			// join with the class of the closest shape
			best, bc := -1, 1<<30
			for i, c := range classes {
				if _, _, cost, ok := e.unify(c.state(), s); ok && cost < bc {
					best, bc = i, cost
				}
			}
			if best >= 0 {
				old := classes[best]
				a, b, _, _ := e.unify(old.state(), s)
				fa, fb := flatten(a), flatten(b)
				if fa.key == fb.key && fa.key == old.key {
					return old.add(b, fb)
				}
				if fa.key == fb.key {
					n := byKey[fa.key]
					if n == nil {
						n = newStateClass(e, a, fa)
						classes[best] = n
						byKey[fa.key] = n
					} else if n != old {
						n.add(a, fa)
						classes = append(classes[:best:best], classes[best+1:]...)
					}
					// the shape now joined into n
					for k, c := range byKey {
						if c == old {
							delete(byKey, k)
						}
					}
					merged = true
					n.add(b, fb)
					return true
				}
			}
		}
		c := newStateClass(e, s, f)
		byKey[f.key] = c
		classes = append(classes, c)
		return true
	}
	for _, s := range sts {
		addState(s)
	}
	var last []edge
	heads := func() []edge {
		var in []edge
		for _, c := range classes {
			s := c.state()
			in = append(in, edge{s, nil, L.head})
		}
		return in
	}
	for iter := 0; ; iter++ {
		in := heads()
		e.dry++
		back, _, _ := e.runRegion(fn, L.blocks, in, L.head)
		e.dry--
		changed := false
		for _, b := range back {
			if addState(b.st) {
				changed = true
			}
		}
		if os.Getenv("UIPLOOP") != "" && e.dry == 0 {
			fmt.Fprintf(os.Stderr, "loop %s b%d iter %d classes %d back %d changed %v\n", fn.Name(), L.head.Index, iter, len(classes), len(back), changed)
			if os.Getenv("UIPLOOP") == "2" {
				for _, c := range classes {
					fmt.Fprintf(os.Stderr, "  key %s\n  gen %v\n", c.key, c.main.gen)
					for _, x := range c.main.cands {
						fmt.Fprintf(os.Stderr, "    %s eq=%v\n", x.e, x.eq)
					}
				}
			}
		}
		if !changed {
			last = back
			break
		}
		if iter > e.loopLimit() || len(classes) > 60 {
			var st *State
			if len(in) > 0 {
				st = in[0].st
			}
			e.undecided(st, L.head.Instrs[0], "loop invariant not found")
			break
		}
	}
	if last != nil {
		// what enters and what comes round under the invariant is all there is
		classes, byKey, merged = nil, map[string]*stateClass{}, false
		for _, s := range sts {
			addState(s)
		}
		for _, b := range last {
			addState(b.st)
		}
	}
	_, exits, rets := e.runRegion(fn, L.blocks, heads(), L.head)
	return exits, rets
}

func (e *Eng) loopLimit() int {
	if e.loopMax > 0 {
		return e.loopMax
	}
	return 14
}

// runBlock runs one block to its end.
func (e *Eng) runBlock(st *State, b *ssa.BasicBlock) (outs []edge, rets []ret) {
	cur := []*State{st}
	for _, in := range b.Instrs {
		e.steps++
		if e.steps > e.maxSteps {
			if e.failedFn == "" {
				e.failedFn = b.Parent().String()
				d := e.dry
				e.dry = 0
				e.undecided(st, in, "analysis budget exhausted")
				e.dry = d
			}
			return nil, nil
		}
		if len(cur) > 24 {
			cur = e.join(cur, 12)
		}
		var next []*State
		switch in := in.(type) {
		case *ssa.Phi:
			next = cur // done on the edge
		case *ssa.Jump:
			for _, s := range cur {
				outs = append(outs, e.edgeTo(s, b, b.Succs[0], 0)...)
			}
		case *ssa.If:
			for _, s := range cur {
				v, ok := e.get(s, in.Cond).(BoolV)
				if !ok {
					v = BoolV{CFact{e.freshID()}}
				}
				s2 := s.clone()
				for _, t := range s.assume(v.c, true) {
					outs = append(outs, e.edgeTo(t, b, b.Succs[0], 0)...)
				}
				for _, t := range s2.assume(v.c, false) {
					outs = append(outs, e.edgeTo(t, b, b.Succs[1], 1)...)
				}
			}
		case *ssa.Return:
			for _, s := range cur {
				var vs []Val
				for _, r := range in.Results {
					vs = append(vs, e.get(s, r))
				}
				rets = append(rets, ret{s, vs})
			}
		case *ssa.Panic:
			for _, s := range cur {
				if e.mode.panics {
					e.record(s, in, "panic", "explicit panic", false, "reachable")
				}
			}
		default:
			for _, s := range cur {
				next = append(next, e.step(s, in)...)
			}
		}
		cur = next
	}
	return
}

// edgeTo moves s along an edge, setting the φs of the target.
func (e *Eng) edgeTo(s *State, from, to *ssa.BasicBlock, succ int) []edge {
	pi := -1
	seen := 0
	// the succ-th occurrence matters when both branches meet
	for i := 0; i <= succ; i++ {
		if from.Succs[i] == to {
			seen++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			seen--
			if seen == 0 {
				pi = i
				break
			}
		}
	}
	type kv struct {
		k ssa.Value
		v Val
	}
	var set []kv
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		set = append(set, kv{p, e.get(s, p.Edges[pi])})
	}
	for _, x := range set {
		s.top.env[x.k] = x.v
	}
	live := e.liveIn(from.Parent())[to]
	for k := range s.top.env {
		if !live[k] {
			delete(s.top.env, k)
		}
	}
	return []edge{{s, from, to}}
}

// liveIn computes the values needed at the start of each block, φs included.
func (e *Eng) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := e.live[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		l[b] = map[ssa.Value]bool{}
	}
	isVal := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				phis := map[ssa.Value]bool{}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[p] = true
					for j, pr := range s.Preds {
						if pr == b && isVal(p.Edges[j]) {
							cur[p.Edges[j]] = true
						}
					}
				}
				for v := range l[s] {
					if !phis[v] {
						cur[v] = true
					}
				}
			}
			var buf [16]*ssa.Value
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					if _, phi := in.(*ssa.Phi); !phi {
						delete(cur, v)
					}
				}
				if _, phi := in.(*ssa.Phi); phi {
					cur[in.(ssa.Value)] = true
					continue
				}
				for _, op := range in.Operands(buf[:0]) {
					if *op != nil && isVal(*op) {
						cur[*op] = true
					}
				}
			}
			if len(cur) != len(l[b]) {
				l[b] = cur
				changed = true
				continue
			}
			for v := range cur {
				if !l[b][v] {
					l[b] = cur
					changed = true
					break
				}
			}
		}
	}
	e.live[fn] = l
	return l
}

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	rpo    map[*ssa.BasicBlock]int
	header map[*ssa.BasicBlock]*loop
}

func (e *Eng) loopInfo(fn *ssa.Function) *loopInfo {
	if l, ok := e.loops[fn]; ok {
		return l
	}
	li := &loopInfo{rpo: map[*ssa.BasicBlock]int{}, header: map[*ssa.BasicBlock]*loop{}}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		li.rpo[b] = len(post) - 1 - i
	}
	// the exits of a loop must come after its body: number by reverse postorder
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				L := li.header[s]
				if L == nil {
					L = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.header[s] = L
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if L.blocks[x] {
						return
					}
					L.blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	e.loops[fn] = li
	return li
}

// get evaluates an operand.
func (e *Eng) get(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(st, v)
	case *ssa.Global:
		return PtrV{obj: e.global(st, v)}
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Builtin:
		return FuncV{}
	}
	if x, ok := st.top.env[v]; ok {
		return x
	}
	return e.topVal(st, v.Type(), v.Name(), 2, false)
}

func (e *Eng) global(st *State, g *ssa.Global) ObjID {
	if id, ok := e.globals[g]; ok {
		if st.heap[id] == nil && e.initHeap[id] != nil {
			st.heap[id] = e.initHeap[id]
		}
		if st.heap[id] == nil {
			st.heap[id] = e.globalObj(st, g, id)
		}
		return id
	}
	e.nobj++
	id := ObjID(e.nobj)
	e.globals[g] = id
	e.globalIDs[id] = true
	o := e.globalObj(st, g, id)
	st.heap[id] = o
	return id
}

func (e *Eng) globalObj(st *State, g *ssa.Global, id ObjID) *Obj {
	t := g.Type().(*types.Pointer).Elem()
	own := g.Pkg != nil && (g.Pkg.Pkg.Path() == modPath || strings.HasPrefix(g.Pkg.Pkg.Path(), modPath+"/"))
	var v Val
	switch {
	case own:
		v = e.zero(st, t)
	case isErrorType(t):
		v = IfaceV{n: nonNil, id: e.freshID(), tag: g.String()}
	default:
		v = e.topVal(st, t, g.Name(), 2, true)
		switch g.String() {
		case "net.IPv4zero", "net.IPv6zero", "net.IPv4bcast", "net.IPv6loopback", "net.IPv6unspecified":
			v = e.makeBytes(st, lc(16))
		}
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return &Obj{id: id, kind: kArr, t: a.Elem(), site: g.Name(), top: !untracked(a.Elem())}
	}
	return &Obj{id: id, kind: kCell, t: t, cell: v, site: g.Name()}
}

func (e *Eng) makeBytes(st *State, n Lin) SliceV {
	o := &Obj{kind: kArr, t: types.Typ[types.Uint8], site: "bytes"}
	return SliceV{n: nonNil, obj: e.newObj(st, o), off: lc(0), len: n, cap: n}
}

func (e *Eng) set(st *State, in ssa.Value, v Val) []*State {
	st.top.env[in] = v
	return []*State{st}
}

func (e *Eng) setAll(rs []valSt, in ssa.Value) []*State {
	var out []*State
	for _, r := range rs {
		r.st.top.env[in] = r.v
		out = append(out, r.st)
	}
	return out
}

// step runs one instruction.
func (e *Eng) step(st *State, in ssa.Instruction) []*State {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return []*State{st}
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		if a, ok := t.Underlying().(*types.Array); ok {
			o := &Obj{kind: kArr, t: a.Elem(), site: in.Name()}
			if a.Len() <= 64 && !isByte(a.Elem()) || a.Len() <= 4 {
				o.known = map[int64]Val{}
				for i := int64(0); i < a.Len(); i++ {
					o.known[i] = e.zero(st, a.Elem())
				}
			} else if !untracked(a.Elem()) {
				o.alts = []*Alt{e.capture(st, e.zero(st, a.Elem()))}
			}
			return e.set(st, in, PtrV{obj: e.newObj(st, o)})
		}
		return e.set(st, in, PtrV{obj: e.newObj(st, &Obj{kind: kCell, t: t, cell: e.zero(st, t), site: in.Name()})})
	case *ssa.BinOp:
		return e.binop(st, in)
	case *ssa.UnOp:
		return e.unop(st, in)
	case *ssa.Call:
		var out []*State
		for _, r := range e.call(st, &in.Call, in) {
			var v Val
			if len(r.vals) == 1 {
				v = r.vals[0]
			} else {
				v = TupleV(r.vals)
			}
			r.st.top.env[in] = v
			out = append(out, r.st)
		}
		return out
	case *ssa.ChangeInterface:
		return e.set(st, in, e.get(st, in.X))
	case *ssa.ChangeType:
		return e.set(st, in, e.get(st, in.X))
	case *ssa.Convert:
		return e.convert(st, in)
	case *ssa.MultiConvert:
		return e.set(st, in, e.topVal(st, in.Type(), "conv", 2, false))
	case *ssa.MakeInterface:
		return e.set(st, in, IfaceV{n: nonNil, t: in.X.Type(), v: e.get(st, in.X)})
	case *ssa.MakeClosure:
		var b []Val
		for _, x := range in.Bindings {
			b = append(b, e.get(st, x))
		}
		return e.set(st, in, FuncV{fn: in.Fn.(*ssa.Function), bind: b})
	case *ssa.MakeMap:
		return e.set(st, in, MapV{n: nonNil, obj: e.newObj(st, &Obj{kind: kMap, t: in.Type(), site: in.Name()})})
	case *ssa.MakeSlice:
		return e.makeSlice(st, in)
	case *ssa.MakeChan:
		return e.set(st, in, TopV{in.Type()})
	case *ssa.Extract:
		if tv, ok := e.get(st, in.Tuple).(TupleV); ok && in.Index < len(tv) {
			return e.set(st, in, tv[in.Index])
		}
		return e.set(st, in, e.topVal(st, in.Type(), "ext", 2, false))
	case *ssa.Field:
		switch s := e.get(st, in.X).(type) {
		case StructV:
			return e.set(st, in, s.f[in.Field])
		}
		return e.set(st, in, e.topVal(st, in.Type(), "field", 2, false))
	case *ssa.FieldAddr:
		return e.withPtr(st, in, in.X, "nil", "field of nil pointer", func(s *State, p PtrV) []*State {
			q := p
			q.path = append(p.path[:len(p.path):len(p.path)], pathElem{field: in.Field})
			return e.set(s, in, q)
		}, in)
	case *ssa.IndexAddr:
		return e.indexAddr(st, in)
	case *ssa.Index:
		return e.index(st, in)
	case *ssa.Lookup:
		return e.lookup(st, in)
	case *ssa.MapUpdate:
		return e.mapUpdate(st, in)
	case *ssa.Slice:
		return e.slice(st, in)
	case *ssa.SliceToArrayPointer:
		return e.set(st, in, e.topVal(st, in.Type(), "s2a", 2, false))
	case *ssa.Store:
		return e.withPtr(st, in, in.Addr, "nil", "store through nil pointer", func(s *State, p PtrV) []*State {
			v := e.get(s, in.Val)
			if e.storeHk != nil {
				e.storeHk(s, p, v, in)
			}
			return e.store(s, p, v)
		}, nil)
	case *ssa.TypeAssert:
		return e.typeAssert(st, in)
	case *ssa.Range:
		x := e.get(st, in.X)
		if isStr(in.X.Type()) {
			id := e.newObj(st, &Obj{kind: kCell, t: types.Typ[types.Int], cell: IntV{lc(0)}, site: "pos"})
			return e.set(st, in, iterV{m: x, str: true, pos: id})
		}
		if m, ok := x.(MapV); ok {
			if o := st.heap[m.obj]; o != nil && st.nilOf(m.n) != 1 {
				if n, ok := o.ext["size"].(IntV); ok {
					pos := e.newObj(st, &Obj{kind: kCell, t: types.Typ[types.Int], cell: IntV{lc(0)}, site: "count"})
					lim := e.newObj(st, &Obj{kind: kCell, t: types.Typ[types.Int], cell: n, site: "size"})
					return e.set(st, in, iterV{m: x, cnt: true, pos: pos, lim: lim})
				}
			}
		}
		return e.set(st, in, iterV{m: x})
	case *ssa.Next:
		return e.next(st, in)
	case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select:
		e.undecided(st, in.(ssa.Instruction), fmt.Sprintf("%T", in))
		if v, ok := in.(ssa.Value); ok {
			return e.set(st, v, e.topVal(st, v.Type(), "sel", 2, false))
		}
		return []*State{st}
	case *ssa.RunDefers:
		return []*State{st}
	}
	e.undecided(st, in, fmt.Sprintf("%T", in))
	if v, ok := in.(ssa.Value); ok {
		return e.set(st, v, e.topVal(st, v.Type(), "unk", 2, false))
	}
	return []*State{st}
}

// withPtr resolves a pointer operand, checking for nil.
func (e *Eng) withPtr(st *State, at ssa.Instruction, x ssa.Value, rule, what string, f func(*State, PtrV) []*State, res ssa.Value) []*State {
	v := e.get(st, x)
	p, ok := v.(PtrV)
	if !ok {
		if _, isTop := v.(TopV); isTop {
			// a pointer nothing is known about
			e.record(st, at, rule, what, false, "unknown pointer")
		}
		if res != nil {
			return e.set(st, res, e.topVal(st, res.Type(), "p", 1, true))
		}
		return []*State{st}
	}
	switch x.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		return f(st, p)
	}
	var out []*State
	for _, s := range e.need(st, at, rule, what, CNot{nilCond(p.n)}) {
		out = append(out, f(s, p)...)
	}
	return out
}

// fit wraps the exact value l into the range of t.
func (e *Eng) fit(st *State, l Lin, t types.Type) IntV {
	lo, hi, bits, _, ok := basicRange(t)
	if !ok {
		return IntV{l}
	}
	b := st.cs.interval(l)
	inLo := b.hasLo && b.lo.cmp(lo) >= 0
	inHi := b.hasHi && b.hi.cmp(hi) <= 0
	if !inLo {
		inLo = st.cs.entailsLE(lz(lo).sub(l))
	}
	if !inHi {
		inHi = st.cs.entailsLE(l.addScaled(lz(hi), zi(-1)))
	}
	if inLo && inHi {
		return IntV{l}
	}
	w := e.tab.freshIn("wrap", lo, hi)
	k := e.tab.fresh("k")
	M := zpow2(bits)
	c := &Con{e: l.sub(ls(w)).addScaled(ls(k), M.neg()), eq: true}
	e.tab.info[w].cons = append(e.tab.info[w].cons, c)
	ki := &e.tab.info[k]
	if b.hasLo {
		ki.lo, ki.hasLo = b.lo.sub(lo).floorDiv(M), true
	} else if inLo {
		ki.lo, ki.hasLo = zi(0), true
	}
	if b.hasHi {
		ki.hi, ki.hasHi = b.hi.sub(lo).floorDiv(M), true
	} else if inHi {
		ki.hi, ki.hasHi = zi(0), true
	}
	return IntV{ls(w)}
}

// divFloor is floor(l / m) for m > 0.
func (e *Eng) divFloor(st *State, l Lin, m Z) Lin {
	if l.isConst() {
		return lz(l.k.floorDiv(m))
	}
	if l.divisibleBy(m) {
		return l.divExact(m)
	}
	q := e.tab.fresh("q")
	r := l.addScaled(ls(q), m.neg()) // remainder
	cons := []*Con{{e: r.neg()}, {e: r.addScaled(lz(m.sub(zi(1))), zi(-1))}}
	b := st.cs.interval(l)
	i := &e.tab.info[q]
	i.cons = cons
	if b.hasLo {
		i.lo, i.hasLo = b.lo.floorDiv(m), true
	}
	if b.hasHi {
		i.hi, i.hasHi = b.hi.floorDiv(m), true
	}
	return ls(q)
}

func (e *Eng) nonNeg(st *State, l Lin) bool {
	if b := st.cs.interval(l); b.hasLo && b.lo.sign() >= 0 {
		return true
	}
	return st.cs.entailsLE(l.neg())
}

// freshBetween is an unknown in [lo,hi] with extra facts.
func (e *Eng) freshWith(t types.Type, cons ...func(x Lin) Lin) Lin {
	lo, hi, _, _, _ := basicRange(t)
	s := e.tab.freshIn("v", lo, hi)
	for _, c := range cons {
		e.tab.info[s].cons = append(e.tab.info[s].cons, &Con{e: c(ls(s))})
	}
	return ls(s)
}

func (e *Eng) product(st *State, a, b Lin) Lin {
	if a.isConst() {
		return b.mulz(a.k)
	}
	if b.isConst() {
		return a.mulz(b.k)
	}
	p := e.tab.fresh("prod")
	i := &e.tab.info[p]
	i.prod = &[2]Lin{a, b}
	ba, bb := st.cs.interval(a), st.cs.interval(b)
	if ba.hasLo && bb.hasLo && ba.lo.sign() >= 0 && bb.lo.sign() >= 0 {
		i.lo, i.hasLo = ba.lo.mul(bb.lo), true
		if ba.hasHi && bb.hasHi {
			i.hi, i.hasHi = ba.hi.mul(bb.hi), true
		}
	}
	return ls(p)
}

func pow2log(z Z) (uint, bool) {
	if z.sign() <= 0 {
		return 0, false
	}
	b := z.big()
	n := uint(b.BitLen() - 1)
	if zpow2(n).eq(z) {
		return n, true
	}
	return 0, false
}

func (e *Eng) binop(st *State, in *ssa.BinOp) []*State {
	x, y := e.get(st, in.X), e.get(st, in.Y)
	t := in.Type()
	a, aok := x.(IntV)
	b, bok := y.(IntV)
	switch in.Op {
	case token.EQL, token.NEQ:
		c := e.eqCond(st, x, y)
		if in.Op == token.NEQ {
			c = negate(c)
		}
		return e.set(st, in, BoolV{c})
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if aok && bok {
			var c Cond
			switch in.Op {
			case token.LSS:
				c = CCmp{e: a.L.sub(b.L).addc(1)}
			case token.LEQ:
				c = CCmp{e: a.L.sub(b.L)}
			case token.GTR:
				c = CCmp{e: b.L.sub(a.L).addc(1)}
			case token.GEQ:
				c = CCmp{e: b.L.sub(a.L)}
			}
			return e.set(st, in, BoolV{c})
		}
		return e.set(st, in, BoolV{CFact{e.freshID()}})
	}
	if !aok || !bok {
		if in.Op == token.ADD {
			if s, ok := x.(StrV); ok {
				if u, ok := y.(StrV); ok {
					if s.c != nil && u.c != nil {
						return e.set(st, in, strVal(*s.c+*u.c))
					}
					return e.set(st, in, StrV{n: s.n.add(u.n), id: e.freshID()})
				}
			}
		}
		if p, ok := x.(BoolV); ok {
			if q, ok := y.(BoolV); ok {
				l, r := st.evalCond(p.c), st.evalCond(q.c)
				switch in.Op {
				case token.AND, token.OR:
					if l < 2 && r < 2 {
						v := l == 1 && r == 1
						if in.Op == token.OR {
							v = l == 1 || r == 1
						}
						return e.set(st, in, bconst(v))
					}
				}
			}
		}
		if isInt(t) {
			return e.set(st, in, e.topInt(t, "op"))
		}
		return e.set(st, in, e.topVal(st, t, "op", 1, false))
	}
	L, R := a.L, b.L
	switch in.Op {
	case token.ADD:
		return e.set(st, in, e.fit(st, L.add(R), t))
	case token.SUB:
		return e.set(st, in, e.fit(st, L.sub(R), t))
	case token.MUL:
		return e.set(st, in, e.fit(st, e.product(st, L, R), t))
	case token.QUO, token.REM:
		var out []*State
		if R.isConst() && R.k.sign() != 0 {
			out = []*State{st}
		} else {
			out = e.need(st, in, "div", "division by zero", CNot{CCmp{R, true}})
		}
		var res []*State
		for _, s := range out {
			res = append(res, e.set(s, in, e.divmod(s, in.Op, L, R, t))...)
		}
		return res
	case token.SHL, token.SHR:
		out := []*State{st}
		if _, _, _, signed, _ := basicRange(in.Y.Type()); signed && !(R.isConst() && R.k.sign() >= 0) {
			out = e.need(st, in, "shift", "negative shift count", CCmp{e: R.neg()})
		}
		var res []*State
		for _, s := range out {
			res = append(res, e.set(s, in, e.shift(s, in.Op, L, R, t))...)
		}
		return res
	case token.AND:
		return e.set(st, in, IntV{e.and(st, L, R, t)})
	case token.OR:
		return e.set(st, in, IntV{e.or(st, L, R, t)})
	case token.XOR:
		if e.nonNeg(st, L) && e.nonNeg(st, R) {
			if L.isConst() && R.isConst() && L.k.b == nil && R.k.b == nil {
				return e.set(st, in, IntV{lc(L.k.v ^ R.k.v)})
			}
			return e.set(st, in, IntV{e.freshWith(t, func(v Lin) Lin { return v.neg() }, func(v Lin) Lin { return v.sub(L).sub(R) })})
		}
		return e.set(st, in, e.topInt(t, "xor"))
	case token.AND_NOT:
		if e.nonNeg(st, L) {
			return e.set(st, in, IntV{e.freshWith(t, func(v Lin) Lin { return v.neg() }, func(v Lin) Lin { return v.sub(L) })})
		}
		return e.set(st, in, e.topInt(t, "andnot"))
	}
	return e.set(st, in, e.topInt(t, "op"))
}

func (e *Eng) divmod(st *State, op token.Token, L, R Lin, t types.Type) IntV {
	if L.isConst() && R.isConst() && L.k.b == nil && R.k.b == nil {
		if op == token.QUO {
			return e.fit(st, lc(L.k.v/R.k.v), t)
		}
		return IntV{lc(L.k.v % R.k.v)}
	}
	if R.isConst() && R.k.sign() > 0 {
		if e.nonNeg(st, L) {
			q := e.divFloor(st, L, R.k)
			if op == token.QUO {
				return IntV{q}
			}
			return IntV{L.addScaled(q, R.k.neg())}
		}
		m := R.k
		if op == token.REM {
			return IntV{e.freshWith(t, func(v Lin) Lin { return v.addScaled(lz(m.sub(zi(1))), zi(-1)) }, func(v Lin) Lin { return v.neg().addScaled(lz(m.sub(zi(1))), zi(-1)) })}
		}
		// truncated: |m*q - L| <= m-1
		return IntV{e.freshWith(t, func(v Lin) Lin { return v.mulz(m).sub(L).addScaled(lz(m.sub(zi(1))), zi(-1)) }, func(v Lin) Lin { return L.sub(v.mulz(m)).addScaled(lz(m.sub(zi(1))), zi(-1)) })}
	}
	if e.nonNeg(st, L) && e.nonNeg(st, R) {
		if op == token.QUO {
			return IntV{e.freshWith(t, func(v Lin) Lin { return v.neg() }, func(v Lin) Lin { return v.sub(L) })}
		}
		return IntV{e.freshWith(t, func(v Lin) Lin { return v.neg() }, func(v Lin) Lin { return v.sub(L) }, func(v Lin) Lin { return v.sub(R).addc(1) })}
	}
	return e.topInt(t, "div")
}

func (e *Eng) shift(st *State, op token.Token, L, R Lin, t types.Type) IntV {
	if c, ok := R.constInt(); ok && c >= 0 && c < 64 {
		m := zpow2(uint(c))
		if op == token.SHL {
			return e.fit(st, L.mulz(m), t)
		}
		return IntV{e.divFloor(st, L, m)}
	}
	if op == token.SHR && e.nonNeg(st, L) {
		if b := st.cs.interval(R); b.hasHi && b.hi.cmp(zi(64)) < 0 && b.hasLo && b.lo.sign() >= 0 {
			return IntV{e.freshWith(t, func(v Lin) Lin { return v.neg() }, func(v Lin) Lin { return v.sub(L) })}
		}
		return IntV{e.freshWith(t, func(v Lin) Lin { return v.neg() }, func(v Lin) Lin { return v.sub(L) })}
	}
	if op == token.SHL && L.isConst() && L.k.sign() >= 0 {
		if b := st.cs.interval(R); b.hasHi && b.hi.cmp(zi(200)) < 0 && b.hasLo && b.lo.sign() >= 0 {
			n, _ := b.hi.big().Int64(), 0
			hi := L.k.mul(zpow2(uint(n)))
			_, thi, _, _, _ := basicRange(t)
			if hi.cmp(thi) <= 0 {
				return IntV{e.freshWith(t, func(v Lin) Lin { return lz(L.k).sub(v) }, func(v Lin) Lin { return v.addScaled(lz(hi), zi(-1)) })}
			}
		}
	}
	return e.topInt(t, "shift")
}

func (e *Eng) and(st *State, L, R Lin, t types.Type) Lin {
	if L.isConst() {
		L, R = R, L
	}
	if R.isConst() && L.isConst() && L.k.b == nil && R.k.b == nil {
		return lc(L.k.v & R.k.v)
	}
	if R.isConst() && R.k.sign() >= 0 {
		if n, ok := pow2log(R.k.add(zi(1))); ok {
			// low n bits
			if b := st.cs.interval(L); b.hasLo && b.hasHi && b.lo.sign() >= 0 && b.hi.cmp(R.k) <= 0 {
				return L
			}
			m := zpow2(n)
			q := e.divFloor(st, L, m)
			return L.addScaled(q, m.neg())
		}
		if R.k.sign() == 0 {
			return lc(0)
		}
		cs := []func(Lin) Lin{func(v Lin) Lin { return v.neg() }, func(v Lin) Lin { return v.addScaled(lz(R.k), zi(-1)) }}
		if e.nonNeg(st, L) {
			cs = append(cs, func(v Lin) Lin { return v.sub(L) })
		}
		// a contiguous high mask: divisible by its lowest bit
		low := lowbit(R.k)
		if low.cmp(zi(1)) > 0 {
			lo, hi, _, _, _ := basicRange(t)
			_ = lo
			_ = hi
			u := e.tab.freshIn("hi", zi(0), R.k.floorDiv(low))
			if e.nonNeg(st, L) {
				e.tab.info[u].cons = append(e.tab.info[u].cons, &Con{e: ls(u).mulz(low).sub(L)})
			}
			return ls(u).mulz(low)
		}
		return e.freshWith(t, cs...)
	}
	nl, nr := e.nonNeg(st, L), e.nonNeg(st, R)
	var cs []func(Lin) Lin
	if nl || nr {
		cs = append(cs, func(v Lin) Lin { return v.neg() })
	}
	if nl {
		cs = append(cs, func(v Lin) Lin { return v.sub(L) })
	}
	if nr {
		cs = append(cs, func(v Lin) Lin { return v.sub(R) })
	}
	return e.freshWith(t, cs...)
}

func lowbit(z Z) Z {
	b := z.big()
	return zpow2(b.TrailingZeroBits())
}

func (e *Eng) or(st *State, L, R Lin, t types.Type) Lin {
	if L.isConst() && R.isConst() && L.k.b == nil && R.k.b == nil {
		return lc(L.k.v | R.k.v)
	}
	for i := 0; i < 2; i++ {
		// L a multiple of 2^n, 0 <= R < 2^n
		if b := st.cs.interval(R); b.hasLo && b.hasHi && b.lo.sign() >= 0 {
			n := uint(b.hi.big().BitLen())
			if L.divisibleBy(zpow2(n)) && e.nonNeg(st, L) {
				return L.add(R)
			}
		}
		L, R = R, L
	}
	if e.nonNeg(st, L) && e.nonNeg(st, R) {
		return e.freshWith(t, func(v Lin) Lin { return v.sub(L).sub(R) }, func(v Lin) Lin { return L.sub(v) }, func(v Lin) Lin { return R.sub(v) })
	}
	return e.topInt(t, "or").L
}

func negate(c Cond) Cond {
	switch c := c.(type) {
	case CConst:
		return CConst(!c)
	case CNot:
		return c.c
	}
	return CNot{c}
}

func (e *Eng) eqCond(st *State, x, y Val) Cond {
	switch a := x.(type) {
	case IntV:
		if b, ok := y.(IntV); ok {
			return CCmp{a.L.sub(b.L), true}
		}
	case BoolV:
		if b, ok := y.(BoolV); ok {
			switch st.evalCond(b.c) {
			case 1:
				return a.c
			case 0:
				return negate(a.c)
			}
			switch st.evalCond(a.c) {
			case 1:
				return b.c
			case 0:
				return negate(b.c)
			}
		}
	case StrV:
		if b, ok := y.(StrV); ok {
			if c, ok := st.strConst(b); ok {
				if d, ok := st.strConst(a); ok {
					return CConst(c == d)
				}
				return CStr{a, c}
			}
			if c, ok := st.strConst(a); ok {
				return CStr{b, c}
			}
			if a.id == b.id {
				return CConst(true)
			}
			return CImp{id: e.freshID(), t: []row{{a.n.sub(b.n), true}}}
		}
	}
	nx, okx := valNil(x)
	ny, oky := valNil(y)
	if okx && oky {
		kx, ky := st.nilOf(nx), st.nilOf(ny)
		if kx == 1 && ky == 1 {
			return CConst(true)
		}
		if ky == 1 {
			if kx == 0 {
				return CConst(false)
			}
			return nilCond(nx)
		}
		if kx == 1 {
			if ky == 0 {
				return CConst(false)
			}
			return nilCond(ny)
		}
		if a, ok := x.(IfaceV); ok {
			if b, ok := y.(IfaceV); ok {
				if a.t != nil && b.t != nil {
					ra, ok1 := a.v.(RTypeV)
					rb, ok2 := b.v.(RTypeV)
					if ok1 && ok2 && ra.t != nil && rb.t != nil {
						return CConst(types.Identical(ra.t, rb.t))
					}
					if !types.Identical(a.t, b.t) {
						return CConst(false)
					}
					return e.eqCond(st, a.v, b.v)
				}
			}
		}
		if a, ok := x.(PtrV); ok {
			if b, ok := y.(PtrV); ok && len(a.path) == 0 && len(b.path) == 0 && a.obj != b.obj && kx == 0 && ky == 0 {
				return CFact{e.freshID()}
			}
		}
	}
	return CFact{e.freshID()}
}

func (e *Eng) unop(st *State, in *ssa.UnOp) []*State {
	switch in.Op {
	case token.MUL:
		return e.withPtr(st, in, in.X, "nil", "load through nil pointer", func(s *State, p PtrV) []*State {
			return e.setAll(e.load(s, p, in.Type()), in)
		}, in)
	case token.NOT:
		if b, ok := e.get(st, in.X).(BoolV); ok {
			return e.set(st, in, BoolV{negate(b.c)})
		}
	case token.SUB:
		if a, ok := e.get(st, in.X).(IntV); ok {
			return e.set(st, in, e.fit(st, a.L.neg(), in.Type()))
		}
	case token.XOR:
		if a, ok := e.get(st, in.X).(IntV); ok {
			_, hi, _, signed, _ := basicRange(in.Type())
			if signed {
				return e.set(st, in, IntV{a.L.neg().addc(-1)})
			}
			return e.set(st, in, IntV{lz(hi).sub(a.L)})
		}
	case token.ARROW:
		e.undecided(st, in, "channel receive")
	}
	return e.set(st, in, e.topVal(st, in.Type(), "un", 2, false))
}

func (e *Eng) convert(st *State, in *ssa.Convert) []*State {
	x := e.get(st, in.X)
	from, to := in.X.Type(), in.Type()
	switch v := x.(type) {
	case IntV:
		if isInt(to) {
			return e.set(st, in, e.fit(st, v.L, to))
		}
		if isStr(to) {
			return e.set(st, in, e.freshStr("rune"))
		}
	case StrV:
		if s, ok := to.Underlying().(*types.Slice); ok {
			n := v.n
			if !isByte(s.Elem()) {
				k := e.tab.freshIn("runes", zi(0), maxLen)
				e.tab.info[k].cons = append(e.tab.info[k].cons, &Con{e: ls(k).sub(v.n)})
				n = ls(k)
				o := &Obj{kind: kArr, t: s.Elem(), site: "runes", top: true}
				return e.set(st, in, SliceV{n: nonNil, obj: e.newObj(st, o), off: lc(0), len: n, cap: n})
			}
			return e.set(st, in, e.makeBytes(st, n))
		}
		return e.set(st, in, v)
	case SliceV:
		if isStr(to) {
			if st.nilOf(v.n) == 1 {
				return e.set(st, in, strVal(""))
			}
			r := StrV{n: v.len, id: e.freshID(), src: &strSrc{kind: "bytes", obj: v.obj, idx: v.off}}
			if s, ok := from.Underlying().(*types.Slice); ok && !isByte(s.Elem()) {
				r = e.freshStr("runes")
			}
			return e.set(st, in, r)
		}
		return e.set(st, in, v)
	case PtrV:
		return e.set(st, in, v) // through unsafe.Pointer
	}
	return e.set(st, in, e.topVal(st, to, "conv", 2, false))
}

// inBounds requires 0 <= i < n.
func (e *Eng) inBounds(st *State, in ssa.Instruction, what string, i, n Lin) []*State {
	if i.isConst() && n.isConst() {
		ok := i.k.sign() >= 0 && i.k.cmp(n.k) < 0
		if e.mode.panics {
			e.record(st, in, "index", what, ok, fmt.Sprintf("index %s of %s", i.k, n.k))
		}
		if !ok {
			return nil
		}
		return []*State{st}
	}
	lo := st.cs.entailsLE(i.neg())
	hi := st.cs.entailsLE(i.sub(n).addc(1))
	if e.mode.panics {
		why := ""
		if e.dry == 0 && !(lo && hi) {
			why = fmt.Sprintf("cannot show 0 <= %s < %s", i, n)
		}
		e.record(st, in, "index", what, lo && hi, why)
	}
	if !lo && !st.assumeLin(i.neg(), false) {
		return nil
	}
	if !hi && !st.assumeLin(i.sub(n).addc(1), false) {
		return nil
	}
	return []*State{st}
}

func (e *Eng) indexAddr(st *State, in *ssa.IndexAddr) []*State {
	iv, ok := e.get(st, in.Index).(IntV)
	if !ok {
		iv = e.topInt(in.Index.Type(), "idx")
	}
	switch x := e.get(st, in.X).(type) {
	case SliceV:
		n := x.len
		if st.nilOf(x.n) == 1 {
			n = lc(0)
		}
		var out []*State
		for _, s := range e.inBounds(st, in, "slice index", iv.L, n) {
			out = append(out, e.set(s, in, PtrV{obj: x.obj, path: []pathElem{{-1, x.off.add(iv.L)}}})...)
		}
		return out
	case PtrV:
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		return e.withPtr(st, in, in.X, "nil", "index of nil array", func(s *State, p PtrV) []*State {
			var out []*State
			for _, s := range e.inBounds(s, in, "array index", iv.L, lc(at.Len())) {
				q := p
				q.path = append(p.path[:len(p.path):len(p.path)], pathElem{-1, iv.L})
				out = append(out, e.set(s, in, q)...)
			}
			return out
		}, in)
	}
	e.record(st, in, "index", "index of unknown value", false, "unknown slice")
	return e.set(st, in, e.topVal(st, in.Type(), "ia", 1, true))
}

func (e *Eng) index(st *State, in *ssa.Index) []*State {
	iv, ok := e.get(st, in.Index).(IntV)
	if !ok {
		iv = e.topInt(in.Index.Type(), "idx")
	}
	switch x := e.get(st, in.X).(type) {
	case StrV:
		var out []*State
		for _, s := range e.inBounds(st, in, "string index", iv.L, x.n) {
			var v Val = e.topInt(in.Type(), "ch")
			if c, ok := s.strConst(x); ok {
				if i, ok := iv.L.constInt(); ok && i >= 0 && int(i) < len(c) {
					v = IntV{lc(int64(c[i]))}
				}
			}
			out = append(out, e.set(s, in, v)...)
		}
		return out
	case ArrV:
		var out []*State
		for _, s := range e.inBounds(st, in, "array index", iv.L, lc(x.t.Len())) {
			out = append(out, e.setAll(e.project(s, x, []pathElem{{-1, iv.L}}, in.Type()), in)...)
		}
		return out
	}
	return e.set(st, in, e.topVal(st, in.Type(), "ix", 1, false))
}

func (e *Eng) makeSlice(st *State, in *ssa.MakeSlice) []*State {
	n, ok1 := e.get(st, in.Len).(IntV)
	c, ok2 := e.get(st, in.Cap).(IntV)
	if !ok1 || !ok2 {
		e.undecided(st, in, "make")
		return e.set(st, in, e.topVal(st, in.Type(), "make", 1, true))
	}
	var out []*State
	elem := in.Type().Underlying().(*types.Slice).Elem()
	for _, s := range e.need(st, in, "make", "negative make size", CCmp{e: n.L.neg()}) {
		for _, s := range e.need(s, in, "make", "make length beyond capacity", CCmp{e: n.L.sub(c.L)}) {
			for _, s := range e.needSize(s, in, c.L) {
				o := &Obj{kind: kArr, t: elem, site: in.Name()}
				if !untracked(elem) && !(n.L.isConst() && n.L.k.sign() == 0) {
					o.alts = []*Alt{e.capture(s, e.zero(s, elem))}
				}
				out = append(out, e.set(s, in, SliceV{n: nonNil, obj: e.newObj(s, o), off: lc(0), len: n.L, cap: c.L})...)
			}
		}
	}
	return out
}

// needSize requires an allocation to be no larger than memory allows: it
// must be bounded by something the program already holds or by 2^33 elements.
func (e *Eng) needSize(st *State, in ssa.Instruction, n Lin) []*State {
	return e.need(st, in, "alloc", "allocation size not bounded", CCmp{e: n.addScaled(lz(maxLen.mul(zi(16))), zi(-1))})
}

func (e *Eng) slice(st *State, in *ssa.Slice) []*State {
	opt := func(v ssa.Value, d Lin) Lin {
		if v == nil {
			return d
		}
		if i, ok := e.get(st, v).(IntV); ok {
			return i.L
		}
		return e.topInt(types.Typ[types.Int], "b").L
	}
	check := func(s *State, lo, hi, max, limit Lin, what string) []*State {
		// 0 <= lo <= hi <= max <= limit
		triv := lo.isConst() && lo.k.sign() == 0 && in.High == nil && in.Max == nil
		if triv {
			return []*State{s}
		}
		ok := true
		var fail string
		for _, c := range []struct {
			e Lin
			m string
		}{{lo.neg(), "low >= 0"}, {lo.sub(hi), "low <= high"}, {hi.sub(max), "high <= max"}, {max.sub(limit), "max <= cap"}} {
			if c.e.isConst() && c.e.k.sign() <= 0 {
				continue
			}
			if !s.cs.entailsLE(c.e) {
				ok = false
				if fail == "" {
					fail = "cannot show " + c.m + ": " + c.e.String() + " <= 0"
				}
				if !s.assumeLin(c.e, false) {
					if e.mode.panics {
						e.record(s, in, "slice", what, false, fail)
					}
					return nil
				}
			}
		}
		if e.mode.panics {
			e.record(s, in, "slice", what, ok, fail)
		}
		return []*State{s}
	}
	switch x := e.get(st, in.X).(type) {
	case StrV:
		lo, hi := opt(in.Low, lc(0)), opt(in.High, x.n)
		var out []*State
		for _, s := range check(st, lo, hi, hi, x.n, "string slice") {
			if lo.isConst() && lo.k.sign() == 0 && in.High == nil {
				out = append(out, e.set(s, in, x)...)
				continue
			}
			r := StrV{n: hi.sub(lo), id: e.freshID()}
			if c, ok := s.strConst(x); ok {
				l, ok1 := lo.constInt()
				h, ok2 := hi.constInt()
				if ok1 && ok2 {
					r = strVal(c[l:h])
				}
			}
			out = append(out, e.set(s, in, r)...)
		}
		return out
	case SliceV:
		n, c := x.len, x.cap
		nilk := st.nilOf(x.n)
		if nilk == 1 {
			n, c = lc(0), lc(0)
		}
		lo, hi := opt(in.Low, lc(0)), opt(in.High, n)
		max := opt(in.Max, c)
		var out []*State
		for _, s := range check(st, lo, hi, max, c, "slice bounds") {
			if nilk == 1 {
				out = append(out, e.set(s, in, x)...)
				continue
			}
			y := x
			y.off = x.off.add(lo)
			y.len = hi.sub(lo)
			y.cap = max.sub(lo)
			out = append(out, e.set(s, in, y)...)
		}
		return out
	case PtrV:
		at, ok := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			break
		}
		N := lc(at.Len())
		lo, hi := opt(in.Low, lc(0)), opt(in.High, N)
		max := opt(in.Max, N)
		var out []*State
		for _, s := range check(st, lo, hi, max, N, "array slice") {
			if len(x.path) > 0 {
				// an array inside a larger value: contents not tracked
				o := &Obj{kind: kArr, t: at.Elem(), site: "sub", top: !untracked(at.Elem())}
				out = append(out, e.set(s, in, SliceV{n: nonNil, obj: e.newObj(s, o), off: lo, len: hi.sub(lo), cap: max.sub(lo)})...)
				continue
			}
			out = append(out, e.set(s, in, SliceV{n: nonNil, obj: x.obj, off: lo, len: hi.sub(lo), cap: max.sub(lo)})...)
		}
		return out
	}
	e.record(st, in, "slice", "slice of unknown value", false, "unknown")
	return e.set(st, in, e.topVal(st, in.Type(), "sl", 1, false))
}

func (e *Eng) keyCmp(a, b Val) int {
	x, y := keyString(a), keyString(b)
	if x == "" || y == "" {
		return 2
	}
	if x == y {
		return 1
	}
	return 0
}

func (e *Eng) resolveKey(st *State, k Val) Val {
	if s, ok := k.(StrV); ok && s.c == nil {
		if c, ok := st.strConst(s); ok {
			return strVal(c)
		}
	}
	return k
}

type lookRes struct {
	v  Val
	ok bool
	st *State
}

// mapGet enumerates what a lookup may find.
func (e *Eng) mapGet(st *State, m MapV, k Val, vt types.Type) []lookRes {
	zero := func(s *State) lookRes { return lookRes{e.zero(s, vt), false, s} }
	if st.nilOf(m.n) == 1 {
		return []lookRes{zero(st)}
	}
	o := st.heap[m.obj]
	k = e.resolveKey(st, k)
	var out []lookRes
	unsure := false
	for _, en := range o.ents {
		switch e.keyCmp(en.k, k) {
		case 1:
			return []lookRes{{en.v, true, st}}
		case 2:
			unsure = true
		}
	}
	if unsure && keyString(k) == "" {
		// unknown key against named entries
		if sv, ok := k.(StrV); ok && len(o.ents) <= 16 && e.precise(vt) {
			n := st.clone()
			dead := false
			for _, en := range o.ents {
				c := keyConst(en.k)
				t := n.clone()
				for _, r := range t.assume(CStr{sv, c}, true) {
					out = append(out, lookRes{en.v, true, r})
				}
				if len(n.assume(CStr{sv, c}, false)) == 0 {
					dead = true
					break
				}
			}
			if dead {
				return out
			}
			st = n
		} else if untracked(vt) {
			n := st.clone()
			out = append(out, lookRes{e.topVal(n, vt, "mv", 2, false), true, n})
		} else {
			for _, en := range o.ents {
				n := st.clone()
				out = append(out, lookRes{en.v, true, n})
			}
		}
	}
	if o.more {
		if o.top || untracked(vt) {
			n := st.clone()
			v := e.topVal(n, vt, "mv", 2, false)
			if sv, ok := v.(StrV); ok {
				sv.src = &strSrc{kind: "map", obj: m.obj, name: keyString(k)}
				v = sv
			}
			out = append(out, lookRes{v, true, n})
		} else {
			for _, a := range mergeAlts(e, st, o.alts) {
				n := st.clone()
				v := e.instance(n, a)
				out = append(out, lookRes{v, true, n})
			}
		}
	}
	out = append(out, zero(st))
	return out
}

func keyConst(k Val) string {
	if s, ok := k.(StrV); ok && s.c != nil {
		return *s.c
	}
	return ""
}

// precise maps are looked up entry by entry.
func (e *Eng) precise(vt types.Type) bool {
	switch vt.Underlying().(type) {
	case *types.Signature, *types.Map:
		return true
	}
	return false
}

func (e *Eng) lookup(st *State, in *ssa.Lookup) []*State {
	x := e.get(st, in.X)
	if s, ok := x.(StrV); ok {
		iv, ok := e.get(st, in.Index).(IntV)
		if !ok {
			iv = e.topInt(in.Index.Type(), "idx")
		}
		var out []*State
		for _, s2 := range e.inBounds(st, in, "string index", iv.L, s.n) {
			out = append(out, e.set(s2, in, e.topInt(in.Type(), "ch"))...)
		}
		return out
	}
	m, ok := x.(MapV)
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	if !ok {
		e.undecided(st, in, "lookup in unknown map")
		return e.set(st, in, e.topVal(st, in.Type(), "look", 1, false))
	}
	var out []*State
	for _, r := range e.mapGet(st, m, e.get(st, in.Index), vt) {
		if in.CommaOk {
			out = append(out, e.set(r.st, in, TupleV{r.v, bconst(r.ok)})...)
		} else {
			out = append(out, e.set(r.st, in, r.v)...)
		}
	}
	if len(out) > 16 {
		out = e.join(out, 16)
	}
	return out
}

func (e *Eng) mapUpdate(st *State, in *ssa.MapUpdate) []*State {
	m, ok := e.get(st, in.Map).(MapV)
	if !ok {
		e.undecided(st, in, "update of unknown map")
		return []*State{st}
	}
	var out []*State
	for _, s := range e.need(st, in, "nil", "write to nil map", CNot{nilCond(m.n)}) {
		e.mapPut(s, m, e.get(s, in.Key), e.get(s, in.Value))
		out = append(out, s)
	}
	return out
}

func (e *Eng) mapPut(st *State, m MapV, k, v Val) {
	o := st.heap[m.obj]
	k = e.resolveKey(st, k)
	mt := o.t.Underlying().(*types.Map)
	if keyString(k) != "" && len(o.ents) < 64 {
		c := o.copy()
		c.ents, c.ext = nil, nil
		done := false
		for _, en := range o.ents {
			if e.keyCmp(en.k, k) == 1 {
				en.v = v
				done = true
			}
			c.ents = append(c.ents, en)
		}
		if !done {
			c.ents = append(c.ents, mapEnt{k, v})
			sort.SliceStable(c.ents, func(i, j int) bool { return keyString(c.ents[i].k) < keyString(c.ents[j].k) })
		}
		st.setObj(c)
		e.escapedStore(st, o, untracked(mt.Elem()))
		return
	}
	c := o.copy()
	c.more, c.ext = true, nil
	if !c.top && !untracked(mt.Elem()) {
		a := e.capture(st, v)
		c = st.heap[m.obj].copy()
		c.more, c.ext = true, nil
		c.alts = addAlt(e, st, c.alts, a)
		// an unknown key may name an entry
		for _, en := range c.ents {
			c.alts = addAlt(e, st, c.alts, e.capture(st, en.v))
		}
		c.ents = nil
	} else {
		var es []mapEnt
		for _, en := range c.ents {
			es = append(es, mapEnt{en.k, e.topVal(st, mt.Elem(), "mv", 1, false)})
		}
		c.ents = es
	}
	st.setObj(c)
	e.escapedStore(st, o, untracked(mt.Elem()))
}

func (e *Eng) next(st *State, in *ssa.Next) []*State {
	it, ok := e.get(st, in.Iter).(iterV)
	if !ok {
		e.undecided(st, in, "range")
		return e.set(st, in, e.topVal(st, in.Type(), "next", 1, false))
	}
	var out []*State
	if it.str {
		s := it.m.(StrV)
		o := st.heap[it.pos]
		pos := o.cell.(IntV).L
		d := st.clone()
		if d.assumeLin(s.n.sub(pos), false) {
			out = append(out, e.set(d, in, TupleV{bconst(false), IntV{pos}, e.topInt(types.Typ[types.Rune], "r")})...)
		}
		if st.assumeLin(pos.sub(s.n).addc(1), false) {
			w := e.tab.freshIn("w", zi(1), zi(4))
			c := o.copy()
			c.cell = IntV{pos.add(ls(w))}
			st.assumeLin(pos.add(ls(w)).sub(s.n), false)
			st.setObj(c)
			out = append(out, e.set(st, in, TupleV{bconst(true), IntV{pos}, e.topInt(types.Typ[types.Rune], "r")})...)
		}
		return out
	}
	m := it.m.(MapV)
	tt := in.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	zk := func(s *State, t types.Type) Val {
		if t == nil || t == types.Typ[types.Invalid] {
			return TopV{t}
		}
		return e.zero(s, t)
	}
	done := st.clone()
	out = append(out, e.set(done, in, TupleV{bconst(false), zk(done, kt), zk(done, vt)})...)
	if st.nilOf(m.n) == 1 {
		return out
	}
	o := st.heap[m.obj]
	if it.cnt {
		// as many keys as the map has, while it stays as it is
		pos, lim := st.heap[it.pos], st.heap[it.lim].cell.(IntV).L
		if n, ok := o.ext["size"].(IntV); ok && (n.L.same(lim) || st.cs.entailsEQ(n.L.sub(lim))) {
			at := pos.cell.(IntV).L
			if !st.assumeLin(at.sub(lim).addc(1), false) {
				return out
			}
			c := pos.copy()
			c.cell = IntV{at.addc(1)}
			st.setObj(c)
		}
	}
	mt := o.t.Underlying().(*types.Map)
	many := untracked(mt.Elem()) && len(o.ents) > 0
	if !many {
		for _, en := range o.ents {
			n := st.clone()
			out = append(out, e.set(n, in, TupleV{bconst(true), en.k, en.v})...)
		}
	}
	if o.more || many {
		if o.top || untracked(mt.Elem()) || many {
			n := st.clone()
			out = append(out, e.set(n, in, TupleV{bconst(true), e.topVal(n, mt.Key(), "key", 2, false), e.topVal(n, mt.Elem(), "mv", 2, false)})...)
		} else {
			for _, a := range mergeAlts(e, st, o.alts) {
				n := st.clone()
				v := e.instance(n, a)
				out = append(out, e.set(n, in, TupleV{bconst(true), e.topVal(n, mt.Key(), "key", 2, false), v})...)
			}
		}
	}
	return out
}

func (e *Eng) typeAssert(st *State, in *ssa.TypeAssert) []*State {
	x, ok := e.get(st, in.X).(IfaceV)
	if !ok {
		e.undecided(st, in, "type assertion")
		return e.set(st, in, e.topVal(st, in.Type(), "ta", 1, false))
	}
	toIface := types.IsInterface(in.AssertedType)
	var out []*State
	good := func(s *State, v Val) {
		if in.CommaOk {
			out = append(out, e.set(s, in, TupleV{v, bconst(true)})...)
		} else {
			if e.mode.panics {
				e.record(s, in, "assert", "type assertion", true, "")
			}
			out = append(out, e.set(s, in, v)...)
		}
	}
	bad := func(s *State) {
		if in.CommaOk {
			out = append(out, e.set(s, in, TupleV{e.zero(s, in.AssertedType), bconst(false)})...)
		} else if e.mode.panics {
			e.record(s, in, "assert", "type assertion", false, "may hold another type")
		}
	}
	n := st.clone()
	if r := n.assume(nilCond(x.n), true); len(r) > 0 {
		bad(r[0])
	}
	r := st.assume(nilCond(x.n), false)
	if len(r) == 0 {
		return out
	}
	st = r[0]
	if x.t != nil {
		match := false
		if toIface {
			match = types.Implements(x.t, in.AssertedType.Underlying().(*types.Interface))
		} else {
			match = types.Identical(x.t, in.AssertedType)
		}
		if match {
			if toIface {
				good(st, x)
			} else {
				good(st, x.v)
			}
		} else {
			bad(st)
		}
		return out
	}
	// unknown dynamic type
	b := st.clone()
	bad(b)
	if toIface {
		y := x
		y.n = nonNil
		good(st, y)
	} else {
		good(st, e.topVal(st, in.AssertedType, "asserted", 2, true))
	}
	return out
}
