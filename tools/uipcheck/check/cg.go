package check

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"uipcheck/load"
)

// Graph resolves the calls of the repository: static callees, interface
// calls to every repository type that implements the interface, and calls of
// function values to every repository function of that signature whose value
// is taken somewhere.
type Graph struct {
	P       *load.Prog
	Funcs   []*ssa.Function // every repository function with a body, wrappers included
	in      map[*ssa.Function]bool
	taken   []*ssa.Function
	named   []types.Type
	memo    map[ssa.CallInstruction][]*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction
	makes   map[*ssa.Function][]*ssa.MakeClosure
}

func NewGraph(p *load.Prog) *Graph {
	g := &Graph{P: p, in: map[*ssa.Function]bool{}, memo: map[ssa.CallInstruction][]*ssa.Function{},
		callers: map[*ssa.Function][]ssa.CallInstruction{}, makes: map[*ssa.Function][]*ssa.MakeClosure{}}
	for f := range ssautil.AllFunctions(p.SSA) {
		if len(f.Blocks) > 0 && load.InRepo(load.PkgOf(f)) {
			g.Funcs = append(g.Funcs, f)
			g.in[f] = true
		}
	}
	sort.Slice(g.Funcs, func(i, j int) bool { return g.Funcs[i].String() < g.Funcs[j].String() })
	for _, k := range p.Pkgs {
		sc := k.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				t := tn.Type()
				if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				g.named = append(g.named, t, types.NewPointer(t))
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range g.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var callee ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				if m, ok := ins.(*ssa.MakeClosure); ok {
					fn := m.Fn.(*ssa.Function)
					g.makes[fn] = append(g.makes[fn], m)
				}
				first := true
				for _, op := range ins.Operands(nil) {
					fn, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if ssa.Value(fn) == callee && first {
						first = false
						continue
					}
					if !seen[fn] {
						seen[fn] = true
						g.taken = append(g.taken, fn)
					}
				}
			}
		}
	}
	sort.Slice(g.taken, func(i, j int) bool { return g.taken[i].String() < g.taken[j].String() })
	for _, f := range g.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					for _, t := range g.Callees(c) {
						g.callers[t] = append(g.callers[t], c)
					}
				}
			}
		}
	}
	return g
}

// Callees are the repository functions a call may run.
func (g *Graph) Callees(c ssa.CallInstruction) []*ssa.Function {
	if r, ok := g.memo[c]; ok {
		return r
	}
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && g.in[f] {
			for _, x := range out {
				if x == f {
					return
				}
			}
			out = append(out, f)
		}
	}
	cc := c.Common()
	switch {
	case cc.IsInvoke():
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		for _, t := range g.named {
			if it == nil || types.IsInterface(t) || !types.Implements(t, it) {
				continue
			}
			sel := g.P.SSA.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name())
			if sel == nil {
				continue
			}
			add(g.unwrap(g.P.SSA.MethodValue(sel)))
		}
	case cc.StaticCallee() != nil:
		add(g.unwrap(cc.StaticCallee()))
	default:
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			break
		}
		sig, _ := cc.Value.Type().Underlying().(*types.Signature)
		for _, f := range g.taken {
			if sig != nil && g.in[f] && sameSig(f.Signature, sig) {
				add(g.unwrap(f))
			}
		}
	}
	g.memo[c] = out
	return out
}

// unwrap follows a synthetic method wrapper to the function it calls.
func (g *Graph) unwrap(f *ssa.Function) *ssa.Function {
	for i := 0; i < 3 && f != nil && f.Synthetic != "" && len(f.Blocks) == 1; i++ {
		var to *ssa.Function
		for _, ins := range f.Blocks[0].Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if s := c.Common().StaticCallee(); s != nil && s.Name() == f.Name() {
					to = s
				}
			}
		}
		if to == nil || !g.in[to] {
			break
		}
		f = to
	}
	return f
}

func sameSig(a, b *types.Signature) bool {
	return a.Variadic() == b.Variadic() && sameTuple(a.Params(), b.Params()) && sameTuple(a.Results(), b.Results())
}

func sameTuple(a, b *types.Tuple) bool {
	if a.Len() != b.Len() {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		if !types.Identical(a.At(i).Type(), b.At(i).Type()) {
			return false
		}
	}
	return true
}

// Reach lists the functions reachable from roots; stop cuts at a function
// (which is left out), and calls of a skipped instruction are not followed.
// A closure counts as reached when its parent is.
func (g *Graph) Reach(roots []*ssa.Function, stop func(f *ssa.Function) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || out[f] || !g.in[f] || stop != nil && stop(f) {
			return
		}
		out[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					for _, t := range g.Callees(c) {
						visit(t)
					}
				}
				if m, ok := ins.(*ssa.MakeClosure); ok {
					visit(m.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return out
}

func sorted(m map[*ssa.Function]bool) []*ssa.Function {
	var l []*ssa.Function
	for f := range m {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

// Site is the position of an instruction, or of the nearest one that has any.
func (g *Graph) Site(ins ssa.Instruction) string {
	p := ins.Pos()
	if !p.IsValid() {
		for _, x := range ins.Block().Instrs {
			if x.Pos().IsValid() {
				p = x.Pos()
			}
			if x == ins && p.IsValid() {
				break
			}
		}
	}
	if !p.IsValid() {
		p = ins.Parent().Pos()
	}
	x := g.P.Fset.Position(p)
	return rel(g.P, x.Filename) + ":" + itoa(x.Line)
}
