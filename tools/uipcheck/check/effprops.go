package check

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/load"
)

func (e *effects) describe(x effect) string {
	return fmt.Sprintf("%s to memory %s%s", x.kind, strings.TrimPrefix(x.loc.o.root, "global "), x.loc.o.path+x.loc.p)
}

func init() {
	register("C09", "other", func(c *Ctx) (*Result, error) {
		g := NewGraph(c.P)
		res := &Result{Rules: []string{"no store, append, copy, map update or writing library call reachable from a query may hit memory that existed before the query: the database handle, what it points to, package variables, the caller's address; sync and sync/atomic state excepted"},
			Explain: "Inclusion-based points-to and effect analysis from each query method, its receiver, arguments and all package variables standing for memory that existed before."}
		for _, n := range []string{"Query", "QueryStr", "QueryU32", "VersionInfo", "CheckV4", "CheckV6"} {
			f := g.method("db/query", "Db", n)
			if f == nil {
				return nil, fmt.Errorf("Db.%s is not there", n)
			}
			e := newEffects(g)
			e.From(f, []string{"db", "ip"}[:len(f.Params)])
			res.Obligations += e.stores()
			for _, x := range e.Effects() {
				res.Fail("query writes nothing shared", g.Site(x.at), short(x.at.Parent()), e.describe(x)+", from Db."+n)
			}
			res.Functions = append(res.Functions, e.Functions()...)
		}
		res.Functions = dedup(res.Functions)
		res.Violations = dedupV(res.Violations)
		if len(res.Functions) < 30 {
			return nil, fmt.Errorf("only %d functions reached from the query methods", len(res.Functions))
		}
		return res, nil
	})
	register("C11", "other", func(c *Ctx) (*Result, error) {
		g := NewGraph(c.P)
		res := &Result{Rules: []string{"nothing reachable from the record a query returns is memory that existed before the query"},
			Explain: "Inclusion-based points-to analysis from each query method: the memory its record result may reach."}
		for _, n := range []string{"Query", "QueryStr", "QueryU32"} {
			f := g.method("db/query", "Db", n)
			if f == nil {
				return nil, fmt.Errorf("Db.%s is not there", n)
			}
			e := newEffects(g)
			k := e.From(f, []string{"db", "ip"})
			res.Obligations++
			if len(e.cont[eloc{e.obj("ret " + k.String()), "#0"}]) == 0 {
				return nil, fmt.Errorf("Db.%s returns no record the analysis knows", n)
			}
			for _, l := range e.ResultHolds(k, 0) {
				res.Fail("returned record is the caller's own", g.P.Fset.Position(f.Pos()).String(), short(f), "the record may be, or point to, "+l.o.root+l.o.path)
			}
			res.Functions = append(res.Functions, e.Functions()...)
		}
		res.Functions = dedup(res.Functions)
		return res, nil
	})
	register("C10", "other", func(c *Ctx) (*Result, error) {
		g := NewGraph(c.P)
		res := &Result{Rules: []string{"no store, append, copy, map update or writing library call reachable from a pack entry point may hit memory reachable from the data to pack"},
			Explain: "Inclusion-based points-to and effect analysis from PackFile, PackBytes, PackWriter and every registered packer, the data standing for caller memory."}
		var roots []*ssa.Function
		for _, n := range []string{"PackFile", "PackBytes", "PackWriter"} {
			roots = append(roots, g.P.Func("db/convert", n))
		}
		if err := need("the pack API", roots...); err != nil {
			return nil, err
		}
		pt := packType(g)
		n := 0
		for _, f := range g.taken {
			if sig, ok := pt.Underlying().(*types.Signature); ok && sameSig(f.Signature, sig) {
				roots = append(roots, f)
				n++
			}
		}
		if n < 3 {
			return nil, fmt.Errorf("only %d packers found", n)
		}
		for _, f := range roots {
			e := newEffects(g)
			var names []string
			for _, p := range f.Params {
				if p.Type().String() == "*"+load.ModPath+"/db/inf.IpData" {
					names = append(names, "data")
				} else {
					names = append(names, "arg")
				}
			}
			e.From(f, names)
			res.Obligations += e.stores()
			for _, x := range e.Effects() {
				if x.loc.o.root != "data" {
					continue
				}
				res.Fail("packing leaves the data alone", g.Site(x.at), short(x.at.Parent()), e.describe(x)+", from "+short(f))
			}
			res.Functions = append(res.Functions, e.Functions()...)
		}
		res.Functions = dedup(res.Functions)
		res.Violations = dedupV(res.Violations)
		return res, nil
	})
	register("C12", "other", func(c *Ctx) (*Result, error) {
		g := NewGraph(c.P)
		res := &Result{Rules: []string{"a value that depends on a row's network (by data or control flow) is never written into an existing value slice of a row, nor appended to one in place: rows may share their value slices"},
			Explain: "Effect analysis from every operation on dumped data, joined with a backward dependence analysis of each value written into a row's value slice."}
		k := g.P.Pkg("db/field/operate")
		if k == nil {
			return nil, fmt.Errorf("the operations are not there")
		}
		ops := 0
		for _, f := range g.Funcs {
			if !inPkg(f, "db/field/operate") || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
				continue
			}
			var names []string
			is := false
			for _, p := range f.Params {
				if p.Type().String() == "*"+load.ModPath+"/db/inf.IpData" {
					is = true
					names = append(names, "data")
				} else {
					names = append(names, "arg")
				}
			}
			if !is {
				continue
			}
			ops++
			e := newEffects(g)
			e.From(f, names)
			for _, x := range e.Effects() {
				p := x.loc.o.path + x.loc.p
				if x.loc.o.root != "data" || !strings.HasSuffix(p, ".FieldValues[*]") {
					continue
				}
				res.Obligations++
				d := &depends{g: g}
				if why := d.instr(x.at, x.val); why != "" {
					res.Fail("no edit of shared values by network", g.Site(x.at), short(x.at.Parent()), e.describe(x)+" depends on the network of a row: "+why)
				} else if len(res.Samples) < 20 {
					res.Samples = append(res.Samples, g.Site(x.at)+": "+x.kind+" into a shared value slice, depends on values only")
				}
			}
			res.Obligations++
			res.Functions = append(res.Functions, e.Functions()...)
		}
		res.Functions = dedup(res.Functions)
		res.Violations = dedupV(res.Violations)
		if ops < 6 {
			return nil, fmt.Errorf("only %d operations found", ops)
		}
		return res, nil
	})
}

func dedupV(l []Violation) []Violation {
	seen := map[string]bool{}
	var o []Violation
	for _, v := range l {
		k := v.Site + v.Msg[:min(len(v.Msg), 60)]
		if !seen[k] {
			seen[k] = true
			o = append(o, v)
		}
	}
	return o
}

// stores counts the writes analysed.
func (e *effects) stores() int {
	n := 0
	seen := map[*ssa.Function]bool{}
	for c := range e.funcs {
		if seen[c.f] {
			continue
		}
		seen[c.f] = true
		for _, b := range c.f.Blocks {
			for _, ins := range b.Instrs {
				switch ins.(type) {
				case *ssa.Store, *ssa.MapUpdate, *ssa.Call:
					n++
				}
			}
		}
	}
	return n
}

// depends asks whether a value or the execution of an instruction depends on
// the Cidr field of a row.
type depends struct {
	g    *Graph
	seen map[ssa.Value]bool
	blk  map[*ssa.BasicBlock]bool
}

func (d *depends) instr(at ssa.Instruction, val ssa.Value) string {
	d.seen = map[ssa.Value]bool{}
	d.blk = map[*ssa.BasicBlock]bool{}
	if val != nil {
		if w := d.value(val); w != "" {
			return w
		}
	} else if v, ok := at.(ssa.CallInstruction); ok {
		for _, a := range v.Common().Args[1:] {
			if w := d.value(a); w != "" {
				return w
			}
		}
	}
	return d.control(at.Block())
}

func isCidr(t types.Type, field int) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if t.String() != load.ModPath+"/db/inf.IpRaw" {
		return false
	}
	return t.Underlying().(*types.Struct).Field(field).Type().String() == "*net.IPNet"
}

func (d *depends) value(v ssa.Value) string {
	if v == nil || d.seen[v] {
		return ""
	}
	d.seen[v] = true
	site := func(i ssa.Instruction) string { return d.g.Site(i) }
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if isCidr(x.X.Type(), x.Field) {
			return "Cidr read at " + site(x)
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			return d.cell(a, x.Field)
		}
	case *ssa.Field:
		if isCidr(x.X.Type(), x.Field) {
			return "Cidr read at " + site(x)
		}
	case *ssa.Alloc:
		return d.cell(x, -1)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if w := d.value(e); w != "" {
				return w
			}
			if len(x.Edges) > 1 {
				if w := d.control(x.Block().Preds[i]); w != "" {
					return w
				}
			}
		}
		return ""
	case *ssa.Parameter:
		// what the callers pass
		for _, c := range d.g.callers[x.Parent()] {
			args := c.Common().Args
			if c.Common().IsInvoke() {
				args = append([]ssa.Value{c.Common().Value}, args...)
			}
			for i, p := range x.Parent().Params {
				if p == x && i < len(args) {
					if w := d.value(args[i]); w != "" {
						return w
					}
				}
			}
		}
		return ""
	}
	if ins, ok := v.(ssa.Instruction); ok {
		for _, op := range ins.Operands(nil) {
			if *op == nil {
				continue
			}
			if w := d.value(*op); w != "" {
				return w
			}
		}
	}
	return ""
}

// cell follows what is stored into a local variable.
func (d *depends) cell(a *ssa.Alloc, field int) string {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(a) && field == -1 {
				if w := d.value(x.Val); w != "" {
					return w
				}
			}
		case *ssa.FieldAddr:
			if field != -1 && x.Field != field {
				continue
			}
			for _, r2 := range *x.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					if w := d.value(st.Val); w != "" {
						return w
					}
				}
			}
		}
	}
	return ""
}

// control follows the conditions that decide whether a block runs.
func (d *depends) control(b *ssa.BasicBlock) string {
	if d.blk[b] {
		return ""
	}
	d.blk[b] = true
	for _, p := range b.Parent().Blocks {
		f, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || !controls(p, b) {
			continue
		}
		if w := d.value(f.Cond); w != "" {
			return w
		}
	}
	return ""
}

// controls: one branch of p always leads to b (before the function ends) and
// the other may not.
func controls(p, b *ssa.BasicBlock) bool {
	must := func(s *ssa.BasicBlock) bool { return s == b || !avoids(s, b) }
	can := func(s *ssa.BasicBlock) bool { return reaches(s, b) }
	x, y := p.Succs[0], p.Succs[1]
	return can(x) && can(y) && must(x) != must(y) || can(x) != can(y)
}

// avoids: some path from s to an exit of the function misses b.
func avoids(s, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	st := []*ssa.BasicBlock{s}
	if s == b {
		return false
	}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if len(x.Succs) == 0 {
			return true
		}
		st = append(st, x.Succs...)
	}
	return false
}
