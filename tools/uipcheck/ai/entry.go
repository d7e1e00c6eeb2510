package ai

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"uipcheck/load"
)

// Run is one analysis of some entry points.
type Run struct {
	E *Eng
	P *load.Prog
}

// New prepares an engine: package initialisation is analysed first.
func New(p *load.Prog) (*Run, error) {
	e := newEng(p.SSA)
	e.allFns = p.Funcs()
	for _, f := range e.allFns {
		e.callees(f)
	}
	st := e.newState()
	e.entry = "package initialisation"
	for _, x := range p.Pkgs {
		pk := p.SSA.Package(x.Types)
		if pk == nil || pk.Pkg.Name() == "main" {
			continue
		}
		rs := e.callFn(st, pk.Func("init"), nil, nil, nil)
		if len(rs) == 0 {
			return nil, fmt.Errorf("%s: initialisation does not return", pk)
		}
		if len(rs) > 1 {
			var sts []*State
			for _, r := range rs {
				// tables filled from built-in text: their entries are not named
				for id, o := range r.st.heap {
					if o.kind == kMap && len(o.ents) == 0 && !o.more && untracked(o.t.Underlying().(*types.Map).Elem()) {
						c := o.copy()
						c.more = true
						r.st.heap[id] = c
					}
				}
				sts = append(sts, r.st)
			}
			sts = e.join(sts, 1)
			if len(sts) > 1 {
				return nil, fmt.Errorf("%s: initialisation leaves %d different states", pk, len(sts))
			}
			if len(sts) > 1 && os.Getenv("UIPDEBUG") != "" {
				fmt.Fprintln(os.Stderr, "init:", pk, len(sts), "states")
			}
			st = sts[0]
			continue
		}
		st = rs[0].st
	}
	e.initHeap = st.heap
	e.initSt = st
	e.roots = nil
	return &Run{e, p}, nil
}

// Start is a fresh state after initialisation.
func (r *Run) Start() *State {
	s := r.E.initSt.clone()
	s.top, s.frames = nil, nil
	return s
}

// Do analyses one entry to a fixed point over shared caches.
func (r *Run) Do(name string, f func(st *State)) {
	e := r.E
	e.entry = name
	for i := 0; i < 6; i++ {
		e.syncChanged = false
		e.ctxs, e.ctxQueue, e.recEdges = map[string]*recCtx{}, nil, nil
		f(r.Start())
		e.runCtxs()
		if !e.syncChanged {
			break
		}
	}
	if ok, cyc := e.recBounded(); !ok {
		k := "recursion|" + cyc
		fn := cyc
		if i := strings.Index(cyc, "|"); i > 0 {
			fn = cyc[:i]
		}
		site := ""
		for _, ed := range e.recEdges {
			if ed.to == cyc {
				site = ed.site
			}
		}
		e.obs[k] = &Ob{Rule: "recursion", Site: site, Func: fn, What: "recursion is bounded", Why: "no argument that grows towards a bound", Entry: name, Failed: true, N: 1}
	} else if len(e.recEdges) > 0 {
		e.obs["recursion|"+name] = &Ob{Rule: "recursion", Site: e.recEdges[0].site, Func: name, What: "recursion is bounded", Entry: name, N: len(e.recEdges)}
	}
}

// Obs lists the obligations, failures first.
func (r *Run) Obs() []*Ob {
	var out []*Ob
	for _, o := range r.E.obs {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Failed != out[j].Failed {
			return out[i].Failed
		}
		return out[i].Rule+out[i].Site+out[i].What < out[j].Rule+out[j].Site+out[j].What
	})
	return out
}

func (r *Run) Analysed() []string {
	var out []string
	for f := range r.E.analysed {
		out = append(out, f.String())
	}
	sort.Strings(out)
	return out
}

func (r *Run) Steps() int { return r.E.steps }

func (r *Run) fn(rel, name string) *ssa.Function { return r.P.Func(rel, name) }

// missing records that a public function the analysis starts from is gone.
func (r *Run) missing(what string) {
	r.E.obs["missing|"+what] = &Ob{Rule: "undecided", Site: what, Func: what, What: "entry point not found: " + what, Failed: true, N: 1}
}

func (r *Run) named(rel, name string) types.Type {
	k := r.P.Pkg(rel)
	if k == nil {
		return nil
	}
	t := k.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (r *Run) method(t types.Type, name string) *ssa.Function {
	ms := r.P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return r.P.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// Query analyses opening and querying a database of the given kind.
func (r *Run) Query(ext string, each func(st *State, db Val)) {
	e := r.E
	open := r.fn("db/query", "NewDbFromBytes")
	if open == nil {
		r.missing("query.NewDbFromBytes")
		return
	}
	r.Do("open and query "+ext, func(st *State) {
		data := e.makeBytes(st, e.freshLen("file"))
		rs := e.callFn(st, open, []Val{strVal(ext), data}, nil, nil)
		for _, x := range rs {
			p, ok := x.vals[0].(PtrV)
			if !ok || x.st.nilOf(p.n) == 1 {
				continue
			}
			er, ok := x.vals[1].(IfaceV)
			if ok && x.st.nilOf(er.n) == 0 {
				continue
			}
			each(x.st, p)
		}
	})
}

// DbCall calls a public method of the query database.
func (r *Run) DbCall(st *State, db Val, name string, args ...Val) []ret {
	t := r.named("db/query", "Db")
	if t == nil {
		r.missing("query.Db")
		return nil
	}
	m := r.method(types.NewPointer(t), name)
	if m == nil {
		r.missing("query.Db." + name)
		return nil
	}
	return r.E.callFn(st.clone(), m, append([]Val{db}, args...), nil, nil)
}

func (r *Run) anyIP(st *State) SliceV {
	e := r.E
	s := e.makeBytes(st, e.freshLen("ip"))
	s.n = Nilness{k: 2, id: e.freshID()}
	return s
}

// QueryAll runs every public query on databases of one kind.
func (r *Run) QueryAll(ext string) {
	e := r.E
	r.Query(ext, func(st *State, db Val) {
		s := st.clone()
		r.DbCall(s, db, "QueryStr", e.freshStr("addr"))
		s = st.clone()
		r.DbCall(s, db, "QueryU32", e.topInt(types.Typ[types.Uint32], "addr"))
		s = st.clone()
		r.DbCall(s, db, "VersionInfo")
		s = st.clone()
		// net.IP values: nil, or any number of bytes
		ip := e.makeBytes(s, e.freshLen("ip"))
		r.DbCall(s, db, "Query", ip)
		s = st.clone()
		r.DbCall(s, db, "Query", SliceV{n: isNil})
	})
}

// DumpAll runs the dump of one format with every kind of rule.
func (r *Run) DumpAll(ext string) {
	e := r.E
	get := r.fn("db/format", "GetDumpFormat")
	parse := r.fn("db/field/export", "ParseRule")
	if get == nil || parse == nil {
		r.missing("format.GetDumpFormat or export.ParseRule")
		return
	}
	r.Do("dump "+ext, func(st *State) {
		for _, g := range e.callFn(st, get, []Val{strVal(ext)}, nil, nil) {
			f, ok := g.vals[0].(FuncV)
			if !ok || f.fn == nil {
				if g.st.nilOf(f.n) != 1 {
					e.undecided(g.st, nil, "dump format "+ext)
				}
				continue
			}
			for _, p := range e.callFn(g.st.clone(), parse, []Val{e.freshStr("rule")}, nil, nil) {
				data := e.makeBytes(p.st, e.freshLen("file"))
				ex := p.vals[0]
				if _, ok := ex.(IfaceV); !ok {
					ex = IfaceV{n: nonNil, t: parse.Signature.Results().At(0).Type(), v: ex}
				}
				e.callFn(p.st, f.fn, []Val{data, ex}, f.bind, nil)
			}
			s := g.st.clone()
			data := e.makeBytes(s, e.freshLen("file"))
			e.callFn(s, f.fn, []Val{data, IfaceV{n: isNil}}, f.bind, nil)
		}
	})
}
