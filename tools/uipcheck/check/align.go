package check

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/load"
)

func init() { register("C32", "other", alignment) }

func isStrings(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b := basicOf(s.Elem())
	return b != nil && b.Info()&types.IsString != 0
}

func isInts(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b := basicOf(s.Elem())
	return b != nil && b.Info()&types.IsInteger != 0
}

func isStr(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}

// unconv removes conversions between integers.
func unconv(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok {
			return v
		}
		if _, _, ok := widthOf(c.X.Type()); !ok {
			return v
		}
		v = c.X
	}
}

// colRef is a column a string was read from: the index, and the slice.
type colRef struct {
	idx   ssa.Value // nil: a map was read under a fixed name
	list  ssa.Value
	fixed string
}

// cols finds the columns a string value comes from, through selections,
// merges, map reads keyed by a column and string functions.
func cols(g *Graph, v ssa.Value, env map[*ssa.Parameter]ssa.Value, seen map[ssa.Value]bool, out *[]colRef) {
	if seen[v] || len(seen) > 200 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		a := x.X
		for {
			fa, ok := a.(*ssa.FieldAddr)
			if !ok {
				break
			}
			a = fa.X
		}
		switch ia := a.(type) {
		case *ssa.IndexAddr:
			*out = append(*out, colRef{idx: unconv(ia.Index), list: ia.X})
		case *ssa.Alloc:
			// a local copy of an element, or a variable
			for _, r := range *ia.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					cols(g, st.Val, env, seen, out)
				}
			}
		}
	case *ssa.Field:
		cols(g, x.X, env, seen, out)
	case *ssa.Index:
		*out = append(*out, colRef{idx: unconv(x.Index), list: x.X})
	case *ssa.Lookup:
		m, ok := x.X.Type().Underlying().(*types.Map)
		if !ok || !isStr(m.Key()) || !isStr(m.Elem()) {
			return
		}
		if s, ok := strConst(x.Index); ok {
			*out = append(*out, colRef{fixed: s, list: x.X})
			return
		}
		cols(g, x.Index, env, seen, out)
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			cols(g, l, env, seen, out)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			cols(g, e, env, seen, out)
		}
	case *ssa.ChangeType:
		cols(g, x.X, env, seen, out)
	case *ssa.Parameter:
		if a := env[x]; a != nil {
			cols(g, a, nil, seen, out)
		}
	case *ssa.Call:
		if !isStr(x.Type()) {
			return
		}
		for i, a := range x.Call.Args {
			if n := calleeName(&x.Call); i == 1 && (strings.HasPrefix(n, "strings.Replace") || strings.HasPrefix(n, "strings.Trim")) {
				continue // what is removed is no part of the result
			}
			if isStr(a.Type()) {
				cols(g, a, env, seen, out)
			}
		}
	}
}

// fromSplit: the list is the result of splitting text, whose parts have fixed
// meanings.
func fromSplit(v ssa.Value) bool {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Call:
			n := calleeName(&x.Call)
			return strings.HasPrefix(n, "strings.Split") || strings.HasPrefix(n, "strings.Fields") || strings.HasPrefix(n, "strings.Cut")
		case *ssa.Slice:
			v = x.X
		case *ssa.Phi:
			v = x.Edges[0]
		default:
			return false
		}
	}
	return false
}

// permuted: one index is read from a list of indexes at the other.
func permuted(a, b ssa.Value) bool {
	for _, p := range [][2]ssa.Value{{a, b}, {b, a}} {
		if u, ok := p[0].(*ssa.UnOp); ok && u.Op == token.MUL {
			if ia, ok := u.X.(*ssa.IndexAddr); ok && isInts(ia.X.Type()) && key(unconv(ia.Index)) == key(p[1]) {
				return true
			}
		}
	}
	return false
}

// equalPairs lists the equalities of strings that hold in b.
func equalPairs(b *ssa.BasicBlock) [][2]ssa.Value {
	var out [][2]ssa.Value
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		if x, y, eq := eqAny(d.Preds[0]); x != nil && d.Preds[0].Succs[eq] == d && d.Preds[0].Succs[1-eq] != d {
			out = append(out, [2]ssa.Value{x, y})
		}
	}
	return out
}

func eqAny(b *ssa.BasicBlock) (x, y ssa.Value, eq int) {
	if len(b.Instrs) == 0 {
		return nil, nil, -1
	}
	f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil, -1
	}
	neg := false
	c := f.Cond
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		neg = !neg
		c = u.X
	}
	o, ok := c.(*ssa.BinOp)
	if !ok || o.Op != token.EQL && o.Op != token.NEQ || !isStr(o.X.Type()) {
		return nil, nil, -1
	}
	if (o.Op == token.NEQ) != neg {
		return o.X, o.Y, 1
	}
	return o.X, o.Y, 0
}

// elemIdx lists the indexes at which a compared name was read.
func elemIdx(g *Graph, v ssa.Value) []ssa.Value {
	var l []colRef
	cols(g, v, nil, map[ssa.Value]bool{}, &l)
	var out []ssa.Value
	for _, c := range l {
		if c.idx != nil {
			out = append(out, c.idx)
		}
	}
	return out
}

func hasIdx(l []ssa.Value, v ssa.Value) bool {
	for _, x := range l {
		if key(x) == key(v) {
			return true
		}
	}
	return false
}

// isCounter: v is the index of a loop.
func isCounter(v ssa.Value) bool {
	switch x := unconv(v).(type) {
	case *ssa.BinOp: // range loops: t = phi + 1
		p, ok := x.X.(*ssa.Phi)
		return ok && x.Op == token.ADD && hasEdge(p, x)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if b, is := e.(*ssa.BinOp); is && b.Op == token.ADD && b.X == ssa.Value(x) {
				return true
			}
		}
	}
	return false
}

// listIndex: v is the index of a loop over a list of strings.
func listIndex(v ssa.Value) (list ssa.Value, ok bool) {
	v = unconv(v)
	if !isCounter(v) {
		return nil, false
	}
	for _, r := range *v.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok && isStrings(ia.X.Type()) {
			return ia.X, true
		}
	}
	return nil, false
}

func hasEdge(p *ssa.Phi, v ssa.Value) bool {
	for _, e := range p.Edges {
		if e == v {
			return true
		}
	}
	return false
}

func alignment(c *Ctx) (*Result, error) {
	g := NewGraph(c.P)
	res := &Result{Rules: []string{
		"a value written at index i of a row, or under the i-th column name, is read at index i, or at an index read from position i of a list of offsets, or from a map under the i-th name",
		"an index leaves a loop over column names only under an equality test of the name at that index; an offset stored for the i-th column is that of a name equal to the i-th"},
		Explain: "Every write of a string into a list or under a column name, and every index that leaves a loop over a list of strings, in the formats, the export rules and the field helpers; the values are followed back over SSA."}
	for _, f := range g.Funcs {
		if !strings.HasPrefix(load.PkgOf(f), load.ModPath+"/db/format") && !inPkg(f, "db/field/export") && !inPkg(f, "db/convert") && !inPkg(f, "db/field") {
			continue
		}
		n := 0
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var at ssa.Value
				var val ssa.Value
				switch x := ins.(type) {
				case *ssa.Store:
					ia, ok := x.Addr.(*ssa.IndexAddr)
					if !ok || !isStr(x.Val.Type()) {
						continue
					}
					if al, ok := ia.X.(*ssa.Alloc); ok && appended(al) && inLoop(b) {
						n += oneColumn(g, f, x, res)
						continue
					}
					if !isStrings(ia.X.Type()) {
						continue
					}
					at, val = unconv(ia.Index), x.Val
				case *ssa.MapUpdate:
					m := x.Map.Type().Underlying().(*types.Map)
					if !isStr(m.Key()) || !isStr(m.Elem()) {
						continue
					}
					ix := elemIdx(g, x.Key)
					if len(ix) != 1 {
						continue
					}
					at, val = ix[0], x.Value
				default:
					continue
				}
				var src []colRef
				cols(g, val, nil, map[ssa.Value]bool{}, &src)
				for _, s := range src {
					n++
					res.Obligations++
					_, atConst := at.(*ssa.Const)
					if s.idx == nil {
						if atConst || !inLoop(b) {
							continue
						}
						res.Fail("value keeps its column", g.Site(ins), short(f), fmt.Sprintf("the value of the fixed column %q is stored for whichever column the loop is at", s.fixed))
						continue
					}
					_, isConst := s.idx.(*ssa.Const)
					if isConst && (atConst || fromSplit(s.list) || !isStrings(s.list.Type())) {
						continue
					}
					if !isStrings(s.list.Type()) && !isPairs(s.list.Type()) {
						continue
					}
					if key(s.idx) == key(at) || permuted(s.idx, at) {
						continue
					}
					if pairedByName(g, b, s.idx, at) {
						continue
					}
					res.Fail("value keeps its column", g.Site(ins), short(f), fmt.Sprintf("a value read at index %s is stored at index %s", s.idx.Name(), at.Name()))
				}
			}
		}
		n += searches(g, f, res)
		if n > 0 {
			res.Functions = append(res.Functions, fmt.Sprintf("%s: %d", short(f), n))
		}
	}
	res.Violations = dedupV(res.Violations)
	if len(res.Functions) == 0 {
		return nil, fmt.Errorf("no column is written anywhere")
	}
	return res, nil
}

// appended: the array holds the single element of an append.
func appended(al *ssa.Alloc) bool {
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() != 1 {
		return false
	}
	for _, r := range *al.Referrers() {
		if sl, ok := r.(*ssa.Slice); ok {
			for _, u := range *sl.Referrers() {
				if c, ok := u.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						return true
					}
				}
			}
		}
	}
	return false
}

// oneColumn: what a loop appends for a column comes from one index.
func oneColumn(g *Graph, f *ssa.Function, st *ssa.Store, res *Result) int {
	var src []colRef
	cols(g, st.Val, nil, map[ssa.Value]bool{}, &src)
	var first ssa.Value
	for _, s := range src {
		if _, isConst := unconst(s.idx); isConst && (fromSplit(s.list) || !isStrings(s.list.Type())) {
			continue // a part of fixed meaning, not a column
		}
		res.Obligations++
		switch {
		case s.idx == nil:
			res.Fail("value keeps its column", g.Site(st), short(f), fmt.Sprintf("the value of the fixed column %q is appended for whichever column the loop is at", s.fixed))
		case first == nil:
			first = s.idx
		case key(first) != key(s.idx):
			res.Fail("value keeps its column", g.Site(st), short(f), fmt.Sprintf("the value appended is read at index %s or %s", first.Name(), s.idx.Name()))
		}
	}
	return len(src)
}

func unconst(v ssa.Value) (*ssa.Const, bool) {
	if v == nil {
		return nil, false
	}
	c, ok := v.(*ssa.Const)
	return c, ok
}

func isPairs(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	st, ok := s.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !isStr(st.Field(i).Type()) {
			return false
		}
	}
	return true
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

// pairedByName: the names at the two indexes were found equal.
func pairedByName(g *Graph, b *ssa.BasicBlock, i, j ssa.Value) bool {
	for _, p := range equalPairs(b) {
		x, y := elemIdx(g, p[0]), elemIdx(g, p[1])
		if hasIdx(x, i) && hasIdx(y, j) || hasIdx(x, j) && hasIdx(y, i) {
			return true
		}
	}
	return false
}

// searches checks the loops that look a column up by its name.
func searches(g *Graph, f *ssa.Function, res *Result) int {
	n := 0
	check := func(v ssa.Value, blk *ssa.BasicBlock, edge *ssa.BasicBlock, at ssa.Instruction, dest ssa.Value) {
		v = unconv(v)
		if _, ok := listIndex(v); !ok {
			return
		}
		n++
		res.Obligations++
		ps := equalPairs(blk)
		if edge != nil {
			if x, y, eq := eqAny(blk); x != nil && blk.Succs[eq] == edge && blk.Succs[1-eq] != edge {
				ps = append(ps, [2]ssa.Value{x, y})
			}
		}
		for _, p := range ps {
			x, y := elemIdx(g, p[0]), elemIdx(g, p[1])
			if hasIdx(y, v) {
				x, y = y, x
			}
			if !hasIdx(x, v) {
				continue
			}
			if dest != nil {
				if _, ok := dest.(*ssa.Const); !ok && len(y) > 0 && !hasIdx(y, dest) {
					res.Fail("column found by its name", g.Site(at), short(f), "the offset is stored for another column than the one it was found for")
				}
			}
			return
		}
		res.Fail("column found by its name", g.Site(at), short(f), "the index of a column is kept without the name there having been found equal")
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Return:
				for _, r := range x.Results {
					check(r, b, nil, x, nil)
				}
			case *ssa.Store:
				if _, _, ok := widthOf(x.Val.Type()); !ok {
					continue
				}
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					check(x.Val, b, nil, x, nil)
				case *ssa.IndexAddr:
					if _, ok := a.X.(*ssa.Alloc); ok { // append of one
						check(x.Val, b, nil, x, nil)
					} else {
						check(x.Val, b, nil, x, unconv(a.Index))
					}
				}
			case *ssa.Phi:
				for i, e := range x.Edges {
					e = unconv(e)
					if bo, ok := e.(*ssa.BinOp); ok && bo.X == ssa.Value(x) {
						continue // the counter itself
					}
					if bo, ok := e.(*ssa.BinOp); ok {
						if p, ok := bo.X.(*ssa.Phi); ok && p == x {
							continue
						}
					}
					check(e, b.Preds[i], b, x, nil)
				}
			}
		}
	}
	return n
}
