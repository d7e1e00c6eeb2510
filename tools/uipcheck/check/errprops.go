package check

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/load"
)

// errIndex is the position of the error among a call's results, -1 if none.
func errIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isError(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// infallible: library calls whose error is documented to be nil always, or
// that write to the terminal.
func infallible(g *Graph, c *ssa.CallCommon) bool {
	n := calleeName(c)
	switch n {
	case "fmt.Print", "fmt.Println", "fmt.Printf",
		"(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune",
		"(*strings.Builder).Write", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune":
		return true
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		if m, ok := c.Args[0].(*ssa.MakeInterface); ok {
			switch m.X.Type().String() {
			case "*bytes.Buffer", "*strings.Builder":
				return true
			}
			if u, ok := m.X.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" {
					return true
				}
			}
		}
	case "encoding/json.Marshal":
		return plainArg(g, c.Args[0], 6)
	case "(*os.File).Close":
		return openedForReading(c.Args[0])
	}
	return false
}

// plainArg: whatever v holds at run time, json.Marshal cannot fail on its type.
func plainArg(g *Graph, v ssa.Value, depth int) bool {
	if depth == 0 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return plainJSON(x.X.Type(), map[types.Type]bool{})
	case *ssa.ChangeInterface:
		return plainArg(g, x.X, depth-1)
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Phi:
		for _, y := range x.Edges {
			if !plainArg(g, y, depth-1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		return atCalls(g, x, func(a ssa.Value) bool { return plainArg(g, a, depth-1) })
	}
	return false
}

// atCalls: what is passed for a parameter satisfies ok at every call, and
// there are calls.
func atCalls(g *Graph, p *ssa.Parameter, ok func(a ssa.Value) bool) bool {
	f := p.Parent()
	cs := g.callers[f]
	if len(cs) == 0 {
		return false
	}
	i := 0
	for i < len(f.Params) && f.Params[i] != p {
		i++
	}
	for _, c := range cs {
		args := c.Common().Args
		if c.Common().IsInvoke() {
			args = append([]ssa.Value{c.Common().Value}, args...)
		}
		if len(args) != len(f.Params) || !ok(args[i]) {
			return false
		}
	}
	return true
}

// constStr: a string that is a constant, or an element of a table of
// constants.
func constStr(g *Graph, v ssa.Value, depth int) bool {
	if depth == 0 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, y := range x.Edges {
			if !constStr(g, y, depth-1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		return atCalls(g, x, func(a ssa.Value) bool { return constStr(g, a, depth-1) })
	case *ssa.UnOp:
		return x.Op == token.MUL && constTable(g, tableOf(x.X), depth-1)
	case *ssa.Field:
		return constStr(g, x.X, depth-1)
	case *ssa.Index:
		return constStr(g, x.X, depth-1)
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return constTable(g, tableOf(r.X), depth-1)
			}
		}
	case *ssa.Lookup:
		return constTable(g, tableOf(x.X), depth-1)
	}
	return false
}

// tableOf is the variable or literal an address or a collection belongs to.
func tableOf(v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		default:
			return v
		}
	}
	return v
}

// constTable: everything stored into the table is a string constant, or a
// table of them itself.
func constTable(g *Graph, t ssa.Value, depth int) bool {
	if depth == 0 {
		return false
	}
	switch t := t.(type) {
	case *ssa.Parameter:
		return atCalls(g, t, func(a ssa.Value) bool { return constTable(g, tableOf(a), depth-1) })
	case *ssa.Alloc, *ssa.Global, *ssa.MakeMap:
	default:
		return false
	}
	n := 0
	for _, f := range g.Funcs {
		if ins, ok := t.(ssa.Instruction); ok && ins.Parent() != f {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var vals []ssa.Value
				switch x := ins.(type) {
				case *ssa.Store:
					if tableOf(x.Addr) == t {
						vals = append(vals, x.Val)
					}
				case *ssa.MapUpdate:
					if tableOf(x.Map) == t {
						vals = append(vals, x.Key, x.Value)
					}
				}
				for _, v := range vals {
					n++
					if _, ok := v.(*ssa.Const); ok {
						continue
					}
					if o := tableOf(v); o == t || !constTable(g, o, depth-1) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// plainJSON: a type json.Marshal cannot fail on.
func plainJSON(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false // a cycle
	}
	if n, ok := t.(*types.Named); ok {
		for _, m := range []string{"MarshalJSON", "MarshalText"} {
			if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), m); o != nil {
				if _, ok := o.(*types.Func); ok {
					return false
				}
			}
		}
	}
	s2 := map[types.Type]bool{t: true}
	for k := range seen {
		s2[k] = true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsString|types.IsBoolean) != 0
	case *types.Pointer:
		return plainJSON(u.Elem(), s2)
	case *types.Slice:
		return plainJSON(u.Elem(), s2)
	case *types.Map:
		k, ok := u.Key().Underlying().(*types.Basic)
		return ok && k.Info()&types.IsString != 0 && plainJSON(u.Elem(), s2)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !plainJSON(u.Field(i).Type(), s2) {
				return false
			}
		}
		return true
	}
	return false
}

func openedForReading(v ssa.Value) bool {
	if x, ok := v.(*ssa.Extract); ok {
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return calleeName(c.Common()) == "os.Open"
		}
	}
	return false
}

type failMode int

const (
	wantError failMode = iota // an exit must return an error, or end the process with a failure status
	wantHTTP                  // a handler must have sent an error status
)

// errCheck decides for calls in scope that their failure is reported.
type errCheck struct {
	e     *errFlow
	res   *Result
	scope map[*ssa.Function]bool
	roots map[*ssa.Function]bool
	mode  failMode
	rule  string
}

// lost lists where the failure started by tr in f gets lost.
func (k *errCheck) lost(f *ssa.Function, tr *trigger, depth int) []string {
	var out []string
	exits := k.e.run(f, newState(), tr)
	type esc struct {
		x fexit
	}
	var up []fexit
	for _, x := range exits {
		if !x.fail || x.kind == "exit" || x.kind == "panic" {
			continue
		}
		if k.mode == wantHTTP && isHandler(f) {
			if x.flags&flStatus == 0 {
				out = append(out, fmt.Sprintf("the handler answers at %s without an error status", k.e.g.Site(x.at)))
			}
			continue
		}
		good, info := false, false
		for i, r := range x.res {
			t := f.Signature.Results().At(i).Type()
			if isError(t) && r == fNonnil {
				good = true
			}
			if nilable(t) && r == fNil && !isError(t) {
				info = true
			}
		}
		for c, v := range x.cell {
			if v == fNonnil && (c.v == nil || c.v.Parent() != f) {
				info = true
			}
		}
		if good {
			continue
		}
		if k.roots[f] || !info && k.mode != wantHTTP || depth == 0 {
			out = append(out, fmt.Sprintf("%s %s at %s without reporting it", short(f), map[string]string{"return": "returns", "exit0": "ends the process with status 0"}[x.kind], k.e.g.Site(x.at)))
			continue
		}
		up = append(up, x)
	}
	if len(up) == 0 {
		return dedup(out)
	}
	// the failure is handed to the callers in another form: a nil result, a
	// false, or a variable
	n := 0
	var sites []ssa.Instruction
	for _, c := range k.e.g.callers[f] {
		if !k.scope[c.Parent()] {
			continue
		}
		switch c.(type) {
		case *ssa.Call:
			sites = append(sites, c)
		case *ssa.Defer:
			for _, b := range c.Parent().Blocks {
				for _, ins := range b.Instrs {
					if r, ok := ins.(*ssa.RunDefers); ok && reaches(c.Block(), b) {
						sites = append(sites, r)
					}
				}
			}
		}
	}
	for _, at := range sites {
		n++
		at := at
		t := &trigger{at: at, apply: func(s *fst) []*fst {
			ok := s.clone()
			l := []*fst{ok}
			if c, isCall := at.(*ssa.Call); isCall {
				k.e.forget(s, c)
				k.e.forget(ok, c)
			}
			for _, x := range up {
				b := s.clone()
				b.failed = true
				b.flags |= x.flags
				for c, v := range x.cell {
					if c.v == nil || c.v.Parent() != f {
						b.cell[c] = v
					}
				}
				if c, isCall := at.(*ssa.Call); isCall {
					for i, r := range x.res {
						if r == 0 {
							continue
						}
						if len(x.res) == 1 {
							b.val[fkey{c, -1}] = r
						} else {
							b.val[fkey{c, i}] = r
						}
					}
				}
				l = append(l, b)
			}
			return l
		}}
		out = append(out, k.lost(at.Parent(), t, depth-1)...)
	}
	if n == 0 {
		for _, x := range up {
			out = append(out, fmt.Sprintf("%s returns at %s without reporting it", short(f), k.e.g.Site(x.at)))
		}
	}
	return dedup(out)
}

func dedup(l []string) []string {
	sort.Strings(l)
	var o []string
	for i, x := range l {
		if i == 0 || x != l[i-1] {
			o = append(o, x)
		}
	}
	return o
}

func isHandler(f *ssa.Function) bool {
	p := f.Signature.Params()
	return p.Len() == 2 && p.At(0).Type().String() == "net/http.ResponseWriter" && p.At(1).Type().String() == "*net/http.Request"
}

func (k *errCheck) obligation(ins ssa.Instruction, what string, tr *trigger) {
	k.res.Obligations++
	f := ins.Parent()
	bad := k.lost(f, tr, 6)
	if len(bad) == 0 {
		if len(k.res.Samples) < 25 {
			k.res.Samples = append(k.res.Samples, k.e.g.Site(ins)+": "+what+" is reported on every path")
		}
		return
	}
	k.res.Violations = append(k.res.Violations, Violation{
		Key: k.rule + " " + short(f) + " " + what, Site: k.e.g.Site(ins), Func: short(f), Rule: k.rule,
		Msg: what + " is lost: " + strings.Join(bad, "; ")})
}

// failing is the trigger of a call that returns a non-nil error.
func (e *errFlow) failing(c ssa.CallInstruction, idx int) *trigger {
	call, ok := c.(*ssa.Call)
	if !ok {
		return nil
	}
	n := c.Common().Signature().Results().Len()
	key := fkey{call, -1}
	if n > 1 {
		key = fkey{call, idx}
	}
	return &trigger{at: call, apply: func(s *fst) []*fst {
		e.forget(s, call)
		s.flags |= 0
		good, bad := s.clone(), s.clone()
		good.val[key] = fNil
		bad.val[key] = fNonnil
		bad.failed = true
		return []*fst{good, bad}
	}}
}

// calls makes an obligation of every fallible call in scope.
func (k *errCheck) calls(keep func(c ssa.CallInstruction, name string) bool) {
	for _, f := range sorted(k.scope) {
		k.res.Functions = append(k.res.Functions, short(f))
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				idx := errIndex(cc.Signature())
				if _, ok := cc.Value.(*ssa.Builtin); ok || idx < 0 || infallible(k.e.g, cc) {
					continue
				}
				name := calleeName(cc)
				if f.Synthetic != "" && f.Name() != "init" {
					continue // a wrapper returns what it is given
				}
				if keep != nil && !keep(c, name) {
					continue
				}
				what := "the error of " + strings.ReplaceAll(name, load.ModPath+"/", "")
				tr := k.e.failing(c, idx)
				if tr == nil { // deferred, or in another goroutine
					k.res.Obligations++
					k.res.Violations = append(k.res.Violations, Violation{Key: k.rule + " " + short(f) + " " + what,
						Site: k.e.g.Site(c), Func: short(f), Rule: k.rule, Msg: what + " is dropped: the call is deferred or runs in a goroutine"})
					continue
				}
				k.obligation(c, what, tr)
			}
		}
	}
}

// flags makes an obligation of every call of a repository function whose last
// of several results is a bool: false is its way to say it failed.
func (k *errCheck) flags() {
	for _, f := range sorted(k.scope) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || len(k.e.g.Callees(call)) == 0 {
					continue
				}
				rs := call.Common().Signature().Results()
				n := rs.Len()
				if n < 2 {
					continue
				}
				if t, ok := rs.At(n - 1).Type().(*types.Basic); !ok || t.Kind() != types.Bool {
					continue
				}
				k.obligation(call, "the false of "+strings.ReplaceAll(calleeName(call.Common()), load.ModPath+"/", ""), &trigger{at: call, apply: func(s *fst) []*fst {
					k.e.forget(s, call)
					good, bad := s.clone(), s.clone()
					good.val[fkey{call, n - 1}] = fNonnil
					bad.val[fkey{call, n - 1}] = fNil
					bad.failed = true
					return []*fst{good, bad}
				}})
			}
		}
	}
}

func callsNamed(f *ssa.Function, names ...string) []*ssa.Call {
	var out []*ssa.Call
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				n := calleeName(c.Common())
				for _, x := range names {
					if n == x {
						out = append(out, c)
					}
				}
			}
		}
	}
	return out
}

func set(l []*ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range l {
		if f != nil {
			m[f] = true
		}
	}
	return m
}

// method looks up a method of a named type of the repository.
func (g *Graph) method(rel, typ, name string) *ssa.Function {
	k := g.P.Pkg(rel)
	if k == nil {
		return nil
	}
	t := k.Type(typ)
	if t == nil {
		return nil
	}
	for _, x := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		if sel := g.P.SSA.MethodSets.MethodSet(x).Lookup(k.Pkg, name); sel != nil {
			return g.unwrap(g.P.SSA.MethodValue(sel))
		}
	}
	return nil
}

// need turns the absence of an anchor into an error.
func need(what string, l ...*ssa.Function) error {
	for _, f := range l {
		if f == nil {
			return fmt.Errorf("%s is not there", what)
		}
	}
	return nil
}

// queryRoots are the entry points of the query API.
func queryRoots(g *Graph) ([]*ssa.Function, error) {
	var l []*ssa.Function
	for _, n := range []string{"NewDb", "NewDbFromBytes"} {
		l = append(l, g.P.Func("db/query", n))
	}
	for _, n := range []string{"Query", "QueryStr", "QueryU32", "CheckV4", "CheckV6", "VersionInfo"} {
		l = append(l, g.method("db/query", "Db", n))
	}
	return l, need("the query API", l...)
}

// convertRoots are the entry points of the conversion API.
func convertRoots(g *Graph) ([]*ssa.Function, error) {
	var l []*ssa.Function
	for _, n := range []string{"DumpFile", "PackFile", "PackBytes", "PackWriter"} {
		l = append(l, g.P.Func("db/convert", n))
	}
	return l, need("the conversion API", l...)
}

func inPkg(f *ssa.Function, rel string) bool { return load.PkgOf(f) == load.ModPath+"/"+rel }

// warmup: BuildCache of inf.Query, which only preloads what a query would
// compute, reports nothing by contract.
func warmup(f *ssa.Function) bool { return f.Name() == "BuildCache" && f.Signature.Recv() != nil }

func errRules(extra ...string) []string {
	return append([]string{"assume the call failed; every exit of the function returns a non-nil error, or hands the failure up as a nil, false or variable that the callers turn into one, or ends the process with a failure status"}, extra...)
}

func init() {
	register("C05", "other", func(c *Ctx) (*Result, error) {
		g := NewGraph(c.P)
		roots, err := queryRoots(g)
		if err != nil {
			return nil, err
		}
		e := newErrFlow(g)
		res := &Result{Rules: errRules("a lookup whose found flag is false, and an address that does not parse, count as failures", "a return of a query method without a certain error carries a certainly non-nil record"),
			Explain: "Failure-flow analysis of every function reachable from the query API (call graph over static, interface and function-value calls), for each call that can fail."}
		scope := g.Reach(roots, warmup)
		k := &errCheck{e: e, res: res, scope: scope, roots: set(roots), rule: "failed lookup reported"}
		k.calls(nil)
		// not-found flags and unparsable addresses
		for _, f := range sorted(scope) {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(*ssa.Call)
					if !ok {
						continue
					}
					cc := call.Common()
					sig := cc.Signature()
					ei := errIndex(sig)
					bi := -1
					for i := 0; i < sig.Results().Len(); i++ {
						if t, ok := sig.Results().At(i).Type().(*types.Basic); ok && t.Kind() == types.Bool {
							bi = i
						}
					}
					if ei >= 0 && bi >= 0 && len(g.Callees(call)) > 0 {
						tr := &trigger{at: call, apply: func(s *fst) []*fst {
							e.forget(s, call)
							good, bad := s.clone(), s.clone()
							good.val[fkey{call, bi}] = fNonnil
							bad.val[fkey{call, bi}] = fNil
							bad.val[fkey{call, ei}] = fNil
							bad.failed = true
							return []*fst{good, bad}
						}}
						k.obligation(call, "not found in "+strings.ReplaceAll(calleeName(cc), load.ModPath+"/", ""), tr)
					}
					if calleeName(cc) == "net.ParseIP" {
						if constStr(g, cc.Args[0], 6) {
							continue
						}
						tr := &trigger{at: call, apply: func(s *fst) []*fst {
							e.forget(s, call)
							good, bad := s.clone(), s.clone()
							good.val[fkey{call, -1}] = fNonnil
							bad.val[fkey{call, -1}] = fNil
							bad.failed = true
							return []*fst{good, bad}
						}}
						k.obligation(call, "an address that does not parse", tr)
					}
				}
			}
		}
		// error or record, never neither
		var qs []*ssa.Function
		for _, n := range []string{"Query", "QueryStr", "QueryU32"} {
			qs = append(qs, g.method("db/query", "Db", n))
		}
		for _, f := range sorted(scope) {
			if f.Name() == "Query" && f.Signature.Recv() != nil && !inPkg(f, "db/query") {
				qs = append(qs, f)
			}
		}
		for _, n := range []string{"NewDb", "NewDbFromBytes"} {
			qs = append(qs, g.P.Func("db/query", n))
		}
		for _, f := range qs {
			res.Obligations++
			ei := errIndex(f.Signature)
			for _, x := range e.run(f, newState(), nil) {
				if x.kind != "return" || ei < 0 || x.res[ei] == fNonnil || x.res[0] == fNonnil {
					continue
				}
				res.Violations = append(res.Violations, Violation{Key: "record or error " + short(f), Site: g.Site(x.at), Func: short(f), Rule: "record or error",
					Msg: "a return that may carry neither a record nor an error"})
			}
		}
		if len(qs) < 6 {
			return nil, fmt.Errorf("%d query methods, expected at least 6", len(qs))
		}
		return res, nil
	})
	register("C06", "other", func(c *Ctx) (*Result, error) {
		g := NewGraph(c.P)
		roots, err := convertRoots(g)
		if err != nil {
			return nil, err
		}
		e := newErrFlow(g)
		res := &Result{Rules: errRules("a buffered writer is flushed before success is returned"),
			Explain: "Failure-flow analysis of every function reachable from DumpFile, PackFile, PackBytes and PackWriter, registered formats included, for each call that can fail."}
		scope := g.Reach(roots, func(f *ssa.Function) bool { return inPkg(f, "db/field/operate") })
		k := &errCheck{e: e, res: res, scope: scope, roots: set(roots), rule: "failure reported"}
		k.calls(nil)
		k.flags()
		for _, f := range sorted(scope) {
			for _, call := range callsNamed(f, "bufio.NewWriter", "bufio.NewWriterSize") {
				res.Obligations++
				if !flushed(f) {
					res.Fail("buffered writer flushed", g.Site(call), short(f), "no Flush of the buffered writer made here")
				}
			}
		}
		if res.Obligations < 20 {
			return nil, fmt.Errorf("only %d fallible calls found", res.Obligations)
		}
		return res, nil
	})
	register("C07", "other", func(c *Ctx) (*Result, error) {
		g := NewGraph(c.P)
		e := newErrFlow(g)
		res := &Result{Rules: errRules("a Scan that returned false because of an error: Err would return it, and must be asked"),
			Explain: "Failure-flow analysis of the scanners and readers in every function reachable from the dump entry points."}
		root := g.P.Func("db/convert", "DumpFile")
		if err := need("DumpFile", root); err != nil {
			return nil, err
		}
		scope := g.Reach([]*ssa.Function{root}, func(f *ssa.Function) bool { return inPkg(f, "db/field/operate") })
		k := &errCheck{e: e, res: res, scope: scope, roots: set([]*ssa.Function{root}), rule: "whole input read"}
		k.calls(func(c ssa.CallInstruction, name string) bool {
			return strings.HasPrefix(name, "(*bufio.Reader).") || strings.HasPrefix(name, "(*bufio.Scanner).") ||
				name == "io.ReadAll" || name == "io.ReadFull" || name == "io.Copy" || strings.HasPrefix(name, "(*bytes.Reader).") || strings.HasPrefix(name, "(*bytes.Buffer).Read") || name == "os.ReadFile"
		})
		n := 0
		for _, f := range sorted(scope) {
			if inPkg(f, "db/format/plain") || inPkg(f, "db/format/memip") {
				n++
			}
			for _, call := range callsNamed(f, "(*bufio.Scanner).Scan") {
				call := call
				e.scanner = call.Call.Args[0]
				e.memo = map[string][]fexit{}
				k.obligation(call, "the error that ended Scan", &trigger{at: call, apply: func(s *fst) []*fst {
					e.forget(s, call)
					good, bad := s.clone(), s.clone()
					bad.val[fkey{call, -1}] = fNil
					bad.failed = true
					bad.flags |= flScan
					return []*fst{good, bad}
				}})
			}
		}
		if n < 4 || res.Obligations == 0 {
			return nil, fmt.Errorf("the text formats are not reachable from DumpFile")
		}
		return res, nil
	})
	register("C29", "other", func(c *Ctx) (*Result, error) {
		g := NewGraph(c.P)
		root := g.P.Func("db/convert", "PackFile")
		if err := need("PackFile", root); err != nil {
			return nil, err
		}
		e := newErrFlow(g)
		res := &Result{Rules: []string{"every call that creates, truncates, renames or removes a file is reached only where a lookup of the registered pack formats gave a non-nil result"},
			Explain: "Dataflow of the facts nil and non-nil from the entry of PackFile to each call that changes the file system."}
		lookups := map[*ssa.Function]bool{}
		packs := packFormats(g)
		for _, f := range g.Funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if l, ok := ins.(*ssa.Lookup); ok && packs[globalOf(l.X)] && !l.CommaOk {
						lookups[f] = true
					}
				}
			}
		}
		if len(lookups) == 0 {
			return nil, fmt.Errorf("no lookup of the pack formats found")
		}
		found := 0
		e.badCall = func(s *fst, c ssa.CallInstruction) string {
			if !fileWrite(c.Common()) {
				return ""
			}
			found++
			for k, v := range s.val {
				if v != fNonnil {
					continue
				}
				v := k.v
				if call, ok := v.(*ssa.Call); ok {
					for _, t := range g.Callees(call) {
						if lookups[t] {
							return ""
						}
					}
				}
				if l, ok := v.(*ssa.Lookup); ok && packs[globalOf(l.X)] {
					return ""
				}
				if b, ok := v.(*ssa.Parameter); ok && types.Identical(b.Type(), packType(g)) {
					return ""
				}
			}
			return calleeName(c.Common()) + " runs although the format may not be registered"
		}
		e.keepAll = true
		e.run(root, newState(), nil)
		res.Obligations = found
		for i, m := range e.bad {
			res.Fail("format known before the file is touched", g.Site(e.badAt[i]), short(e.badAt[i].Parent()), m)
		}
		if found == 0 {
			return nil, fmt.Errorf("PackFile writes no file")
		}
		for f := range g.Reach([]*ssa.Function{root}, nil) {
			res.Functions = append(res.Functions, short(f))
		}
		return res, nil
	})
	register("C30", "other", func(c *Ctx) (*Result, error) {
		g := NewGraph(c.P)
		e := newErrFlow(g)
		res := &Result{Rules: []string{"assume a call of a repository function in a handler failed; every exit of the handler has sent a status of 400 or more, and no body before it"},
			Explain: "Failure-flow analysis of the HTTP handlers (functions of the handler signature) of cmd/server and the functions they call."}
		var hs []*ssa.Function
		for _, f := range g.Funcs {
			if isHandler(f) && f.Synthetic == "" {
				hs = append(hs, f)
			}
		}
		scope := map[*ssa.Function]bool{}
		for f := range g.Reach(hs, nil) {
			if inPkg(f, "cmd/server") {
				scope[f] = true
			}
		}
		k := &errCheck{e: e, res: res, scope: scope, roots: map[*ssa.Function]bool{}, mode: wantHTTP, rule: "HTTP error status"}
		k.calls(func(c ssa.CallInstruction, name string) bool {
			return len(g.Callees(c)) > 0 || name == "encoding/json.Marshal"
		})
		if len(hs) < 2 || res.Obligations < 1 {
			return nil, fmt.Errorf("%d handlers with %d fallible calls", len(hs), res.Obligations)
		}
		return res, nil
	})
	register("C31", "other", func(c *Ctx) (*Result, error) {
		g := NewGraph(c.P)
		e := newErrFlow(g)
		res := &Result{Rules: []string{"assume the call failed; the command ends with a non-zero exit status"},
			Explain: "Failure-flow analysis of every fallible call in the commands, handlers excepted."}
		var mains []*ssa.Function
		scope := map[*ssa.Function]bool{}
		for _, f := range g.Funcs {
			if f.Name() == "main" && f.Parent() == nil && f.Pkg.Pkg.Name() == "main" {
				mains = append(mains, f)
			}
		}
		for f := range g.Reach(mains, isHandler) {
			if strings.HasPrefix(load.PkgOf(f), load.ModPath+"/cmd/") && !isOperate(f) {
				scope[f] = true
			}
		}
		k := &errCheck{e: e, res: res, scope: scope, roots: set(mains), rule: "exit status"}
		k.calls(func(c ssa.CallInstruction, name string) bool {
			return !strings.HasPrefix(name, "(*flag.") && !strings.HasPrefix(name, "flag.")
		})
		if len(mains) < 3 || res.Obligations < 5 {
			return nil, fmt.Errorf("%d commands with %d fallible calls", len(mains), res.Obligations)
		}
		return res, nil
	})
}

// isOperate: an operation on the data, which has no way to report.
func isOperate(f *ssa.Function) bool {
	s := f.Signature
	return s.Results().Len() == 0 && s.Params().Len() == 1 && s.Params().At(0).Type().String() == "*"+load.ModPath+"/db/inf.IpData"
}

func flushed(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok && calleeName(c.Common()) == "(*bufio.Writer).Flush" {
				return true
			}
		}
	}
	return false
}

func packType(g *Graph) types.Type {
	if k := g.P.Pkg("db/inf"); k != nil && k.Type("Pack") != nil {
		return k.Type("Pack").Type()
	}
	return nil
}

// packFormats are the package variables that map an extension to a packer.
func packFormats(g *Graph) map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	pt := packType(g)
	for _, k := range g.P.Pkgs {
		sp := g.P.SSA.Package(k.Types)
		for _, m := range sp.Members {
			if gl, ok := m.(*ssa.Global); ok {
				if mt, ok := gl.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map); ok && pt != nil && types.Identical(mt.Elem(), pt) {
					out[gl] = true
				}
			}
		}
	}
	return out
}

func globalOf(v ssa.Value) *ssa.Global {
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return g
		}
	}
	return nil
}

func fileWrite(c *ssa.CallCommon) bool {
	switch calleeName(c) {
	case "os.Create", "os.OpenFile", "os.WriteFile", "os.Rename", "os.Remove", "os.RemoveAll", "os.Truncate", "os.CreateTemp", "os.Link", "os.Symlink", "(*os.File).Truncate", "io/ioutil.WriteFile", "io/ioutil.TempFile":
		return true
	}
	return false
}
