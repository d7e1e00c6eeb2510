package check

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/load"
)

func init() {
	register("C14", "other", mapOrder)
	register("C27", "other", recursion)
	register("C28", "other", noExit)
}

// isMain tells the commands from the library.
func isMain(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && f.Pkg.Pkg.Name() == "main"
}

func noExit(c *Ctx) (*Result, error) {
	g := NewGraph(c.P)
	res := &Result{Rules: []string{"no function of the library contains a panic, an os.Exit, a log.Fatal or log.Panic, a runtime.Goexit, an unchecked type assertion or a Must call on data that is not constant"},
		Explain: "Every instruction of every library function (package initialisers included) is examined."}
	for _, f := range g.Funcs {
		if isMain(f) {
			continue
		}
		n := 0
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Panic:
					n++
					res.Fail("no panic", g.Site(ins), short(f), "panics")
				case *ssa.TypeAssert:
					n++
					if !x.CommaOk && !ownStore(x.X) && !types.Identical(x.X.Type(), x.AssertedType) {
						res.Fail("checked assertion", g.Site(ins), short(f), "asserts "+x.AssertedType.String()+" unchecked")
					}
				case ssa.CallInstruction:
					n++
					name := calleeName(x.Common())
					switch {
					case name == "os.Exit" || name == "runtime.Goexit" || name == "syscall.Exit",
						strings.HasPrefix(name, "log.Fatal"), strings.HasPrefix(name, "log.Panic"),
						strings.HasPrefix(name, "(*log.Logger).Fatal"), strings.HasPrefix(name, "(*log.Logger).Panic"):
						res.Fail("no exit", g.Site(ins), short(f), "calls "+name)
					case name == "regexp.MustCompile" || strings.HasSuffix(name, ".MustParse") || strings.Contains(name, ".MustParse"):
						for _, a := range x.Common().Args {
							if _, ok := a.(*ssa.Const); !ok {
								res.Fail("no panic", g.Site(ins), short(f), name+" of data that is not constant")
							}
						}
					}
				}
			}
		}
		res.Obligations += n
		res.Functions = append(res.Functions, short(f))
	}
	if len(res.Functions) < 40 {
		return nil, fmt.Errorf("only %d library functions found", len(res.Functions))
	}
	return res, nil
}

// ownStore: the value was put into a sync.Map, sync.Pool or atomic.Value by
// the program itself.
func ownStore(v ssa.Value) bool {
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	switch calleeName(&c.Call) {
	case "(*sync.Map).Load", "(*sync.Map).LoadOrStore", "(*sync.Map).LoadAndDelete", "(*sync.Pool).Get", "(*sync/atomic.Value).Load":
		return true
	}
	return false
}

// affine writes an integer value as parameter + constant.
func affine(v ssa.Value) (p *ssa.Parameter, c int64, ok bool) {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x, 0, true
	case *ssa.BinOp:
		if k, is := intConst(x.Y); is && (x.Op == token.ADD || x.Op == token.SUB) {
			p, c, ok = affine(x.X)
			if x.Op == token.SUB {
				k = -k
			}
			return p, c + k, ok
		}
		if k, is := intConst(x.X); is && x.Op == token.ADD {
			p, c, ok = affine(x.Y)
			return p, c + k, ok
		}
	case *ssa.Convert:
		return affine(x.X)
	case *ssa.UnOp:
		// a parameter kept in a variable that is stored once
		if a, is := x.X.(*ssa.Alloc); is && x.Op == token.MUL {
			var only ssa.Value
			for _, r := range *a.Referrers() {
				if st, is := r.(*ssa.Store); is && st.Addr == ssa.Value(a) {
					if only != nil {
						return nil, 0, false
					}
					only = st.Val
				}
			}
			if only != nil {
				return affine(only)
			}
		}
	}
	return nil, 0, false
}

// recEdge is a call within a recursive group.
type recEdge struct {
	from, to *ssa.Function
	at       ssa.CallInstruction
}

func recursion(c *Ctx) (*Result, error) {
	g := NewGraph(c.P)
	res := &Result{Rules: []string{"every recursive group of functions carries a counter that moves one way around each cycle of calls, and that is compared with a bound before some call on each cycle; or the recursive call is made only for an argument that the call's own argument cannot be"},
		Explain: "Strongly connected components of the call graph; the integer parameters of their functions are followed through each recursive call."}
	// strongly connected components
	idx, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var st []*ssa.Function
	var comps [][]*ssa.Function
	edges := map[*ssa.Function][]recEdge{}
	for _, f := range g.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if cl, ok := ins.(ssa.CallInstruction); ok {
					for _, t := range g.Callees(cl) {
						edges[f] = append(edges[f], recEdge{f, t, cl})
					}
				}
			}
		}
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		idx[f] = len(idx) + 1
		low[f] = idx[f]
		st = append(st, f)
		on[f] = true
		for _, e := range edges[f] {
			if idx[e.to] == 0 {
				visit(e.to)
				low[f] = min(low[f], low[e.to])
			} else if on[e.to] {
				low[f] = min(low[f], idx[e.to])
			}
		}
		if low[f] == idx[f] {
			var k []*ssa.Function
			for {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				on[x] = false
				k = append(k, x)
				if x == f {
					break
				}
			}
			comps = append(comps, k)
		}
	}
	for _, f := range g.Funcs {
		if idx[f] == 0 {
			visit(f)
		}
		res.Obligations++
	}
	for _, k := range comps {
		in := map[*ssa.Function]bool{}
		for _, f := range k {
			in[f] = true
		}
		var es []recEdge
		for _, f := range k {
			for _, e := range edges[f] {
				if in[e.to] {
					es = append(es, e)
				}
			}
		}
		if len(es) == 0 {
			continue
		}
		res.Obligations += len(es)
		for _, f := range k {
			res.Functions = append(res.Functions, short(f))
		}
		// calls that are made only where they cannot repeat
		var rest []recEdge
		for _, e := range es {
			if e.from == e.to && oneShot(e) {
				res.Samples = append(res.Samples, g.Site(e.at)+": recursive call only for an argument the call's own argument is not")
				continue
			}
			if typeDescent(e) {
				res.Samples = append(res.Samples, g.Site(e.at)+": recursive call on a field of the Go value being filled, bounded by its type")
				continue
			}
			rest = append(rest, e)
		}
		if len(rest) == 0 || !cyclic(rest) {
			continue
		}
		if msg, at := counter(g, k, rest, &res.Samples); msg != "" {
			res.Fail("recursion bounded", g.Site(at), short(at.Parent()), msg)
		}
	}
	return res, nil
}

// typeDescent: the call passes a field of a reflect.Value it was given, so
// that it goes down the (finite) Go type the data is decoded into.
func typeDescent(e recEdge) bool {
	for _, a := range e.at.Common().Args {
		c, ok := a.(*ssa.Call)
		if !ok || calleeName(&c.Call) != "(reflect.Value).Field" {
			continue
		}
		for _, p := range e.from.Params {
			if dependsOn(c.Call.Args[0], p) {
				return true
			}
		}
	}
	return false
}

func cyclic(es []recEdge) bool { return len(cycleOf(es)) > 0 }

// cycleOf finds a cycle among edges.
func cycleOf(es []recEdge) []recEdge {
	out := map[*ssa.Function][]recEdge{}
	for _, e := range es {
		out[e.from] = append(out[e.from], e)
	}
	state := map[*ssa.Function]int{}
	var path []recEdge
	var found []recEdge
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		state[f] = 1
		for _, e := range out[f] {
			path = append(path, e)
			if state[e.to] == 1 {
				for i := len(path) - 1; i >= 0; i-- {
					found = append(found, path[i])
					if path[i].from == e.to {
						return true
					}
				}
				return true
			}
			if state[e.to] == 0 && visit(e.to) {
				return true
			}
			path = path[:len(path)-1]
		}
		state[f] = 2
		return false
	}
	for _, e := range es {
		if state[e.from] == 0 && visit(e.from) {
			return found
		}
	}
	return nil
}

// counter looks for a bounded counter through a recursive group.
func counter(g *Graph, k []*ssa.Function, es []recEdge, samples *[]string) (string, ssa.Instruction) {
	args := func(e recEdge) []ssa.Value {
		cc := e.at.Common()
		a := cc.Args
		if cc.IsInvoke() {
			a = append([]ssa.Value{cc.Value}, a...)
		}
		return a
	}
	// every choice of a counter parameter for the first function fixes those
	// of the others; keep those for which each call passes counter + c
	f0 := es[0].from
	var why string
	var whyAt ssa.Instruction = es[0].at
	for _, p0 := range f0.Params {
		if b, ok := p0.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		sel := map[*ssa.Function]*ssa.Parameter{f0: p0}
		steps := make([]int64, len(es))
		ok := true
		for changed := true; changed && ok; {
			changed = false
			for _, e := range es {
				a := args(e)
				from, to := sel[e.from], sel[e.to]
				switch {
				case from != nil && to == nil:
					for i, v := range a {
						if p, _, is := affine(v); is && p == from && i < len(e.to.Params) {
							sel[e.to] = e.to.Params[i]
							changed = true
							break
						}
					}
				case from == nil && to != nil:
					for i, p := range e.to.Params {
						if p == to && i < len(a) {
							if q, _, is := affine(a[i]); is && q.Parent() == e.from {
								sel[e.from] = q
								changed = true
							}
						}
					}
				}
			}
		}
		sign := int64(0)
		for i, e := range es {
			from, to := sel[e.from], sel[e.to]
			if from == nil || to == nil {
				ok = false
				if why == "" {
					why, whyAt = "no counter is passed on by the recursive call of "+short(e.to), e.at
				}
				break
			}
			good := false
			for j, p := range e.to.Params {
				if p == to && j < len(args(e)) {
					q, cst, is := affine(args(e)[j])
					if is && q == from {
						steps[i] = cst
						good = true
					}
				}
			}
			if !good {
				ok = false
				why, whyAt = "the recursive call of "+short(e.to)+" does not pass the counter "+p0.Name()+" on", e.at
				break
			}
			if steps[i] != 0 {
				s := int64(1)
				if steps[i] < 0 {
					s = -1
				}
				if sign != 0 && sign != s {
					ok = false
					why, whyAt = "the counter "+p0.Name()+" moves both ways", e.at
					break
				}
				sign = s
			}
		}
		if !ok {
			continue
		}
		var still []recEdge
		for i, e := range es {
			if steps[i] == 0 {
				still = append(still, e)
			}
		}
		if cy := cycleOf(still); len(cy) > 0 {
			why, whyAt = "the counter "+p0.Name()+" does not move on this cycle of calls", cy[0].at
			continue
		}
		var unguarded []recEdge
		for _, e := range es {
			if !bounded(sel[e.from], e.at.Block(), sign) {
				unguarded = append(unguarded, e)
			}
		}
		if cy := cycleOf(unguarded); len(cy) > 0 {
			why, whyAt = "the counter "+p0.Name()+" is compared with no bound on this cycle of calls", cy[0].at
			continue
		}
		*samples = append(*samples, fmt.Sprintf("%d functions, %d recursive calls bounded by counter %s of %s", len(k), len(es), p0.Name(), short(f0)))
		return "", nil
	}
	if why == "" {
		why = "no function of the group has a counter"
	}
	return why, whyAt
}

// bounded: entering b implies that p is on the near side of a constant.
func bounded(p *ssa.Parameter, b *ssa.BasicBlock, sign int64) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		f, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		o, ok := f.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := o.Op
		x, y := o.X, o.Y
		if _, isC := bound(x); isC {
			x, y = y, x
			op = flip(op)
		}
		if _, isC := bound(y); !isC {
			continue
		}
		if q, _, is := affine(x); !is || q != p {
			continue
		}
		if pr.Succs[0] != d {
			op = negate(op)
		}
		switch op {
		case token.LSS, token.LEQ:
			if sign > 0 {
				return true
			}
		case token.GTR, token.GEQ:
			if sign < 0 {
				return true
			}
		case token.NEQ:
			// counting down to exactly the bound, or up to it, one at a time
			return true
		}
	}
	return false
}

func bound(v ssa.Value) (int64, bool) { return intConst(v) }

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

// oneShot: the call is made only when a mask length of an argument is one
// constant, and passes an argument whose mask is made with another.
func oneShot(e recEdge) bool {
	for _, gd := range guards(e.at.Block()) {
		k, ok := intConst(gd.Ks[0])
		if !ok || len(gd.Ks) != 1 {
			continue
		}
		ex, ok := gd.X.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			continue
		}
		cl, ok := ex.Tuple.(*ssa.Call)
		if !ok || calleeName(&cl.Call) != "(net.IPMask).Size" {
			continue
		}
		for _, a := range e.at.Common().Args {
			al, ok := a.(*ssa.Alloc)
			if !ok {
				continue
			}
			for _, r := range *al.Referrers() {
				fa, ok := r.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, r2 := range *fa.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
						if m, ok := st.Val.(*ssa.Call); ok && calleeName(&m.Call) == "net.CIDRMask" {
							if n, ok := intConst(m.Call.Args[0]); ok && n != k && n > 0 {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// mapOrder decides whether the order in which a map is walked can show.
func mapOrder(c *Ctx) (*Result, error) {
	g := NewGraph(c.P)
	res := &Result{Rules: []string{"a loop over a map does nothing whose outcome depends on the order of the keys: it stores under the key itself, adds up, collects into a list that is sorted before anything else is done with it, or acts for one key only (compared with a fixed key, or with a fixed value of a table whose values all differ)"},
		Explain: "Every range over a map in the repository: the effects of its body, the values that survive it and its exits are classified."}
	for _, f := range g.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				r, ok := ins.(*ssa.Range)
				if !ok {
					continue
				}
				if _, ok := r.X.Type().Underlying().(*types.Map); !ok {
					continue
				}
				res.Obligations++
				ml := &mapLoop{g: g, f: f, r: r}
				if msg, at := ml.check(); msg != "" {
					if at == nil {
						at = r
					}
					res.Fail("map order does not show", g.Site(at), short(f), msg)
				} else {
					res.Samples = append(res.Samples, g.Site(r)+": "+ml.how)
				}
				res.Functions = append(res.Functions, short(f))
			}
		}
	}
	// collected keys
	for _, f := range g.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if cl, ok := ins.(*ssa.Call); ok {
					switch n := calleeName(&cl.Call); n {
					case "(reflect.Value).MapKeys":
						res.Obligations++
						ml := &mapLoop{g: g, f: f}
						if !ml.sortedFirst(cl, nil, 2) {
							res.Fail("map order does not show", g.Site(ins), short(f), "uses the keys of a map in no fixed order")
						}
					}
				}
			}
		}
	}
	res.Functions = dedup(res.Functions)
	return res, nil
}

type mapLoop struct {
	g     *Graph
	f     *ssa.Function
	r     *ssa.Range
	next  *ssa.Next
	k, v  ssa.Value
	loop  map[*ssa.BasicBlock]bool
	how   string
	nseen int
}

func (m *mapLoop) check() (string, ssa.Instruction) {
	for _, r := range *m.r.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			m.next = n
		}
	}
	if m.next == nil {
		m.how = "not walked"
		return "", nil
	}
	for _, r := range *m.next.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			switch e.Index {
			case 1:
				m.k = e
			case 2:
				m.v = e
			}
		}
	}
	h := m.next.Block()
	// the natural loop of h
	m.loop = map[*ssa.BasicBlock]bool{h: true}
	for _, b := range m.f.Blocks {
		if b != h && h.Dominates(b) && reaches(b, h) {
			// reaches h again without leaving the loop's region
			m.loop[b] = true
		}
	}
	// blocks that leave the loop for good (return, break)
	for _, b := range m.f.Blocks {
		if !m.loop[b] {
			continue
		}
		for i, s := range b.Succs {
			if m.loop[s] || b == h && i == 1 {
				continue
			}
			// an early exit
			if m.once(s, b) {
				m.how = "leaves the loop for one key only"
				continue
			}
			if msg := m.exit(b, s); msg != "" {
				return msg, b.Instrs[len(b.Instrs)-1]
			}
			m.how = "leaves the loop with the same outcome whatever the key"
		}
	}
	for _, b := range m.f.Blocks {
		if !m.loop[b] {
			// straight exits are looked at with the exit above
			continue
		}
		for _, ins := range b.Instrs {
			if m.once(b, nil) {
				m.how = "acts for one key only"
				continue
			}
			switch x := ins.(type) {
			case *ssa.MapUpdate:
				if m.isKey(x.Key) || m.isInner(x.Map) {
					m.how = "stores under the key itself"
					continue
				}
				if !m.varies(x.Value) {
					m.how = "stores one value"
					continue
				}
				return "stores under something else than the key, the last one wins", x
			case *ssa.Store:
				if m.local(x.Addr) || !m.varies(x.Val) && !m.varies(x.Addr) {
					continue
				}
				if msg := m.carriedStore(x); msg != "" {
					return msg, x
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				return "the order of keys shows outside", ins
			case *ssa.Call:
				if msg := m.call(x); msg != "" {
					return msg, x
				}
			}
		}
	}
	for _, ins := range h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if msg := m.carried(p); msg != "" {
			return msg, p
		}
	}
	if m.how == "" {
		m.how = "no effect"
	}
	return "", nil
}

// strip removes conversions that keep keys apart.
func strip(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func (m *mapLoop) isKey(v ssa.Value) bool { return m.k != nil && strip(v) == m.k }

// isInner: a map made in the loop.
func (m *mapLoop) isInner(v ssa.Value) bool {
	mm, ok := v.(*ssa.MakeMap)
	return ok && m.loop[mm.Block()]
}

// varies: the value depends on which key it is.
func (m *mapLoop) varies(v ssa.Value) bool {
	return m.k != nil && dependsOn(v, m.k) || m.v != nil && dependsOn(v, m.v)
}

func (m *mapLoop) local(a ssa.Value) bool {
	switch x := a.(type) {
	case *ssa.Alloc:
		return m.loop[x.Block()]
	case *ssa.FieldAddr:
		return m.local(x.X)
	case *ssa.IndexAddr:
		return m.local(x.X)
	case *ssa.MakeSlice:
		return m.loop[x.Block()]
	case *ssa.Slice:
		return m.local(x.X)
	}
	return false
}

// once: b only runs for one key.
func (m *mapLoop) once(b, from *ssa.BasicBlock) bool {
	var list []*ssa.BasicBlock
	for d := b; d != nil && d != m.next.Block(); d = d.Idom() {
		list = append(list, d)
	}
	test := func(p *ssa.BasicBlock, d *ssa.BasicBlock) bool {
		if !m.loop[p] {
			return false
		}
		f, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		o, ok := f.Cond.(*ssa.BinOp)
		if !ok || o.Op != token.EQL && o.Op != token.NEQ {
			return false
		}
		i := 0
		if o.Op == token.NEQ {
			i = 1
		}
		if p.Succs[i] != d || p.Succs[1-i] == d {
			return false
		}
		for _, s := range [][2]ssa.Value{{o.X, o.Y}, {o.Y, o.X}} {
			if m.varies(s[1]) || m.carriedValue(s[1]) {
				continue
			}
			if m.isKey(s[0]) {
				return true
			}
			if m.v != nil && strip(s[0]) == m.v && m.injective(m.r.X, 3) {
				return true
			}
		}
		return false
	}
	for _, d := range list {
		if len(d.Preds) == 1 && test(d.Preds[0], d) {
			return true
		}
	}
	if from != nil {
		if test(from, b) {
			return true
		}
		return m.once(from, nil)
	}
	return false
}

// carriedValue: changes from one round to the next.
func (m *mapLoop) carriedValue(v ssa.Value) bool {
	for _, ins := range m.next.Block().Instrs {
		if p, ok := ins.(*ssa.Phi); ok && dependsOn(v, p) {
			// only if it changes within this loop
			for i, e := range p.Edges {
				if m.loop[p.Block().Preds[i]] && e != ssa.Value(p) {
					return true
				}
			}
		}
	}
	return false
}

// injective: the map is a table whose values all differ.
func (m *mapLoop) injective(v ssa.Value, depth int) bool {
	if depth == 0 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		gl, ok := x.X.(*ssa.Global)
		if !ok {
			return false
		}
		return m.injGlobal(gl)
	case *ssa.Parameter:
		cs := m.g.callers[x.Parent()]
		if len(cs) == 0 {
			return false
		}
		for _, c := range cs {
			for i, p := range x.Parent().Params {
				if p != x {
					continue
				}
				a := c.Common().Args
				if c.Common().IsInvoke() {
					a = append([]ssa.Value{c.Common().Value}, a...)
				}
				if i >= len(a) || !m.injective(a[i], depth-1) {
					return false
				}
			}
		}
		return true
	case *ssa.Call:
		// a table built with each key as its own value
		f := x.Call.StaticCallee()
		if f == nil || !m.g.in[f] {
			return false
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch y := ins.(type) {
				case *ssa.MapUpdate:
					if key(y.Key) != key(y.Value) {
						return false
					}
				case *ssa.Return:
					if _, ok := y.Results[0].(*ssa.MakeMap); !ok {
						return false
					}
				}
			}
		}
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !m.injective(e, depth-1) {
				return false
			}
		}
		return true
	}
	return false
}

// injGlobal: a package variable set once to a map literal with different
// values and never changed.
func (m *mapLoop) injGlobal(gl *ssa.Global) bool {
	vals := map[string]string{}
	sets := 0
	for _, f := range m.g.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if x.Addr == ssa.Value(gl) {
						sets++
						mk, ok := x.Val.(*ssa.MakeMap)
						if !ok {
							return false
						}
						for _, r := range *mk.Referrers() {
							if u, ok := r.(*ssa.MapUpdate); ok {
								k, ok1 := strConst(u.Key)
								v, ok2 := strConst(u.Value)
								if !ok1 || !ok2 {
									return false
								}
								if o, dup := vals[v]; dup && o != k {
									return false
								}
								vals[v] = k
							}
						}
					}
				case *ssa.MapUpdate:
					if mapGlobal(x.Map) == gl {
						return false
					}
				}
			}
		}
	}
	return sets == 1
}

// exit: leaving the loop early from b to s, with which outcome?
func (m *mapLoop) exit(b, s *ssa.BasicBlock) string {
	seen := map[*ssa.BasicBlock]bool{}
	for x := s; x != nil && !seen[x]; {
		seen[x] = true
		for _, ins := range x.Instrs {
			switch y := ins.(type) {
			case *ssa.Phi:
				for i, p := range x.Preds {
					if (p == b || seen[p]) && (m.varies(y.Edges[i]) || m.carriedValue(y.Edges[i])) {
						return "which key it stops at shows"
					}
				}
			case *ssa.Return:
				for _, r := range y.Results {
					if isError(r.Type()) {
						continue
					}
					if m.varies(r) || m.carriedValue(r) && len(x.Preds) == 1 {
						return "which key it stops at shows in the result"
					}
				}
			case *ssa.Store:
				if m.varies(y.Val) && len(x.Preds) == 1 {
					return "which key it stops at is stored"
				}
			case *ssa.MapUpdate:
				if (m.varies(y.Value) || m.varies(y.Key)) && len(x.Preds) == 1 {
					return "which key it stops at is stored"
				}
			}
		}
		if len(x.Succs) == 1 {
			x = x.Succs[0]
		} else {
			break
		}
	}
	return ""
}

var quiet = map[string]bool{"len": true, "cap": true, "append": true, "copy": true, "delete": true, "min": true, "max": true,
	"fmt.Sprint": true, "fmt.Sprintf": true, "fmt.Sprintln": true, "fmt.Errorf": true, "errors.New": true, "reflect.DeepEqual": true,
	"bytes.Equal": true, "bytes.Compare": true, "bytes.Contains": true, "net.ParseIP": true, "net.ParseCIDR": true}

func (m *mapLoop) call(x *ssa.Call) string {
	n := calleeName(&x.Call)
	switch {
	case quiet[n], strings.HasPrefix(n, "strings.") && !strings.Contains(n, "Reader") && !strings.Contains(n, "Builder"),
		strings.HasPrefix(n, "strconv."), strings.HasPrefix(n, "log.Print"), strings.HasPrefix(n, "unicode"), strings.HasPrefix(n, "math"):
		return ""
	}
	cs := m.g.Callees(x)
	if len(cs) == 0 {
		return "calls " + n + " in the order of the keys"
	}
	for _, f := range cs {
		if m.effectful(f, map[*ssa.Function]bool{}) {
			return "calls " + short(f) + ", which has effects, in the order of the keys"
		}
	}
	return ""
}

// effectful: writes memory that is not its own, or calls what may.
func (m *mapLoop) effectful(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	own := func(a ssa.Value) bool {
		for {
			switch x := a.(type) {
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
				return true
			case *ssa.FieldAddr:
				a = x.X
			case *ssa.IndexAddr:
				a = x.X
			case *ssa.Slice:
				a = x.X
			default:
				return false
			}
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if !own(x.Addr) {
					return true
				}
			case *ssa.MapUpdate:
				if !own(x.Map) {
					return true
				}
			case *ssa.Send, *ssa.Go:
				return true
			case ssa.CallInstruction:
				n := calleeName(x.Common())
				if quiet[n] || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "strconv.") || strings.HasPrefix(n, "log.Print") || strings.HasPrefix(n, "(net.") || strings.HasPrefix(n, "encoding/binary") {
					continue
				}
				cs := m.g.Callees(x)
				if len(cs) == 0 {
					return true
				}
				for _, t := range cs {
					if m.effectful(t, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// accumulates classifies how a value is carried from round to round: ""
// when the order of rounds does not matter, "list" for a collected list.
func (m *mapLoop) accumulates(old func(v ssa.Value) bool, upd ssa.Value, depth int) string {
	if depth == 0 {
		return "other"
	}
	if old(upd) || !m.varies(upd) && !uses(upd, old) {
		return ""
	}
	switch x := upd.(type) {
	case *ssa.Phi:
		worst := ""
		for i, e := range x.Edges {
			if m.once(x.Block(), x.Block().Preds[i]) || m.edgeOnce(x.Block().Preds[i], x.Block()) {
				continue
			}
			if c := m.minmax(x, i, old); c {
				continue
			}
			switch m.accumulates(old, e, depth-1) {
			case "other":
				return "other"
			case "list":
				worst = "list"
			}
		}
		return worst
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 || ok && b.Info()&types.IsBoolean != 0 {
				for _, s := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					if !uses(s[1], old) && m.accumulates(old, s[0], depth-1) == "" {
						return ""
					}
				}
			}
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "append":
			if c := m.accumulates(old, x.Call.Args[0], depth-1); c != "other" {
				return "list"
			}
		case "max", "min":
			return ""
		}
	}
	return "other"
}

func uses(v ssa.Value, old func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value) bool
	f = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if old(v) {
			return true
		}
		if ins, ok := v.(ssa.Instruction); ok {
			for _, op := range ins.Operands(nil) {
				if *op != nil && f(*op) {
					return true
				}
			}
		}
		return false
	}
	return f(v)
}

func (m *mapLoop) edgeOnce(p, b *ssa.BasicBlock) bool {
	return m.loop[p] && p != m.next.Block() && m.once(p, nil)
}

// minmax: edge i of a phi brings a value in because it is smaller or larger
// than the carried one.
func (m *mapLoop) minmax(x *ssa.Phi, i int, old func(ssa.Value) bool) bool {
	e := x.Edges[i]
	p := x.Block().Preds[i]
	for d := p; d != nil && m.loop[d]; d = d.Idom() {
		for _, q := range d.Preds {
			f, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			o, ok := f.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch o.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if key(o.X) == key(e) && old(o.Y) || key(o.Y) == key(e) && old(o.X) {
					return true
				}
			}
		}
	}
	return false
}

func (m *mapLoop) carried(p *ssa.Phi) string {
	old := func(v ssa.Value) bool { return v == ssa.Value(p) }
	worst := ""
	for i, e := range p.Edges {
		if !m.loop[p.Block().Preds[i]] {
			continue
		}
		if m.edgeOnce(p.Block().Preds[i], p.Block()) {
			m.how = "acts for one key only"
			continue
		}
		switch m.accumulates(old, e, 8) {
		case "other":
			return "a value carried from key to key depends on their order"
		case "list":
			worst = "list"
		}
	}
	if worst == "list" {
		if m.sortedFirst(p, m.loop, 2) {
			m.how = "collects a list that is sorted before it is used"
			return ""
		}
		return "collects a list in the order of the keys, which is not sorted before it is used"
	}
	if m.how == "" && len(p.Edges) > 0 {
		m.how = "adds up"
	}
	return ""
}

// carriedStore: a variable that lives in memory.
func (m *mapLoop) carriedStore(x *ssa.Store) string {
	a, ok := x.Addr.(*ssa.Alloc)
	if ia, isElem := x.Addr.(*ssa.IndexAddr); isElem && isSlice(ia.X.Type()) {
		// an element of a list filled in the order of the keys
		if u, ok := ia.X.(*ssa.UnOp); ok {
			if l, ok := u.X.(*ssa.Alloc); ok && !m.loop[l.Block()] {
				return m.sortedVar(l)
			}
		}
		if l, ok := ia.X.(*ssa.MakeSlice); ok {
			if m.sortedFirst(l, m.loop, 2) {
				m.how = "collects a list that is sorted before it is used"
				return ""
			}
			return "collects a list in the order of the keys, which is not sorted before it is used"
		}
	}
	if !ok {
		if k := key(x.Addr); k != "" {
			old := func(v ssa.Value) bool {
				u, ok := v.(*ssa.UnOp)
				return ok && u.Op == token.MUL && key(u.X) == k
			}
			if !m.varies(x.Addr) && m.accumulates(old, x.Val, 8) == "" {
				m.how = "adds up"
				return ""
			}
		}
		return "stores what depends on the key"
	}
	old := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == ssa.Value(a)
	}
	switch m.accumulates(old, x.Val, 8) {
	case "":
		m.how = "adds up"
		return ""
	case "list":
		return m.sortedVar(a)
	}
	return "a value carried from key to key depends on their order"
}

// sortedVar: the list kept in a variable is sorted before it is used.
func (m *mapLoop) sortedVar(a *ssa.Alloc) string {
	// the first read after the loop must be for sorting
	var first *ssa.UnOp
	for _, r := range *a.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok || m.loop[u.Block()] {
			continue
		}
		if isSorted(u) {
			first = u
			break
		}
	}
	if first == nil {
		return "collects a list in the order of the keys, which is not sorted before it is used"
	}
	for _, r := range *a.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok || m.loop[u.Block()] || u == first {
			continue
		}
		if !before(first, u) && m.next.Block().Dominates(u.Block()) {
			return "collects a list in the order of the keys, which is used before it is sorted"
		}
	}
	m.how = "collects a list that is sorted before it is used"
	return ""
}

// before: a runs before b whenever b runs.
func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// isSorted: the value is handed to a sorting function.
func isSorted(v ssa.Value) bool { return sortCall(v, 4) != nil }

func sortCall(v ssa.Value, depth int) ssa.Instruction {
	if depth == 0 || v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Call:
			n := calleeName(&x.Call)
			if strings.HasPrefix(n, "sort.S") || strings.HasPrefix(n, "sort.Ints") || strings.HasPrefix(n, "slices.Sort") {
				return x
			}
		case *ssa.MakeInterface:
			if c := sortCall(x, depth-1); c != nil {
				return c
			}
		case *ssa.ChangeType:
			if c := sortCall(x, depth-1); c != nil {
				return c
			}
		case *ssa.Slice:
			if c := sortCall(x, depth-1); c != nil {
				return c
			}
		case *ssa.Store:
			// kept in a variable that a comparison closure shares
			if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
				for _, r2 := range *a.Referrers() {
					if u, ok := r2.(*ssa.UnOp); ok {
						if c := sortCall(u, depth-1); c != nil {
							return c
						}
					}
				}
			}
		}
	}
	return nil
}

// sortedFirst: outside the loop, the list is sorted before any other use.
func (m *mapLoop) sortedFirst(v ssa.Value, loop map[*ssa.BasicBlock]bool, depth int) bool {
	s := sortCall(v, 4)
	if s == nil || loop[s.Block()] {
		// returned to callers who sort it?
		if depth == 0 {
			return false
		}
		for _, r := range *v.Referrers() {
			if loop[r.Block()] {
				continue
			}
			ret, ok := r.(*ssa.Return)
			if !ok {
				if c, ok := r.(*ssa.Call); ok && calleeName(&c.Call) == "len" {
					continue
				}
				return false
			}
			f := ret.Parent()
			cs := m.g.callers[f]
			if len(cs) == 0 {
				return false
			}
			ri := 0
			for i, x := range ret.Results {
				if x == v {
					ri = i
				}
			}
			for _, c := range cs {
				cv, ok := c.(*ssa.Call)
				if !ok {
					return false
				}
				var rv ssa.Value = cv
				if len(ret.Results) > 1 {
					rv = nil
					for _, r2 := range *cv.Referrers() {
						if e, ok := r2.(*ssa.Extract); ok && e.Index == ri {
							rv = e
						}
					}
					if rv == nil {
						continue
					}
				}
				if !m.sortedFirst(rv, nil, depth-1) {
					return false
				}
			}
		}
		return true
	}
	for _, r := range *v.Referrers() {
		if loop[r.Block()] || r == s || before(s, r) {
			continue
		}
		switch x := r.(type) {
		case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Slice:
			continue
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.Alloc); ok {
				continue
			}
		case *ssa.Phi:
			continue
		case *ssa.Call:
			if n := calleeName(&x.Call); n == "len" || n == "cap" {
				continue
			}
		}
		return false
	}
	return true
}

var _ = load.ModPath

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
