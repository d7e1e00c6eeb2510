package check

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// guard says that a block only runs when X equals one of Ks.
type guard struct {
	X  ssa.Value
	Ks []*ssa.Const
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && basicOf(s.Elem()) != nil && basicOf(s.Elem()).Kind() == types.Byte
}

// key names a value by its structure, so that two reads of the same
// expression compare equal (assuming nothing writes in between).
func key(v ssa.Value) string { return keyN(v, 8) }

func keyN(v ssa.Value, n int) string {
	if n == 0 {
		return fmt.Sprintf("%p", v)
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op.String() + "(" + keyN(x.X, n-1) + ")"
	case *ssa.IndexAddr:
		return keyN(x.X, n-1) + "[" + keyN(x.Index, n-1) + "]"
	case *ssa.Index:
		return keyN(x.X, n-1) + "[" + keyN(x.Index, n-1) + "]"
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", keyN(x.X, n-1), x.Field)
	case *ssa.Field:
		return fmt.Sprintf("%s.%d", keyN(x.X, n-1), x.Field)
	case *ssa.BinOp:
		return "(" + keyN(x.X, n-1) + x.Op.String() + keyN(x.Y, n-1) + ")"
	case *ssa.Const:
		return x.String()
	case *ssa.Convert:
		a, _, ok1 := widthOf(x.X.Type())
		b, _, ok2 := widthOf(x.Type())
		if ok1 && ok2 && b >= a || isBytes(x.X.Type()) && isStr(x.Type()) || isStr(x.X.Type()) && isBytes(x.Type()) {
			return keyN(x.X, n-1)
		}
		return x.Type().String() + "(" + keyN(x.X, n-1) + ")"
	case *ssa.ChangeType:
		return keyN(x.X, n-1)
	case *ssa.Global:
		return x.String()
	case *ssa.Slice:
		if x.High == nil && x.Low == nil && x.Max == nil {
			return keyN(x.X, n-1)
		}
	}
	return fmt.Sprintf("%p", v)
}

// eqTest reads "X == const" off the branch at the end of b; eq is the
// successor taken when they are equal.
func eqTest(b *ssa.BasicBlock) (x ssa.Value, k *ssa.Const, eq int) {
	if len(b.Instrs) == 0 {
		return nil, nil, -1
	}
	f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil, -1
	}
	neg := false
	c := f.Cond
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		neg = !neg
		c = u.X
	}
	o, ok := c.(*ssa.BinOp)
	if !ok || o.Op != token.EQL && o.Op != token.NEQ {
		return nil, nil, -1
	}
	x, y := o.X, o.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	k, ok = y.(*ssa.Const)
	if !ok {
		return nil, nil, -1
	}
	if (o.Op == token.NEQ) != neg {
		return x, k, 1
	}
	return x, k, 0
}

// entry is the guard established by entering b, if every way in has one.
func entry(b *ssa.BasicBlock) *guard {
	if len(b.Preds) == 0 {
		return nil
	}
	var g *guard
	for _, p := range b.Preds {
		x, k, eq := eqTest(p)
		if x == nil || p.Succs[eq] != b || p.Succs[1-eq] == b {
			return nil
		}
		if g == nil {
			g = &guard{X: x}
		} else if key(g.X) != key(x) {
			return nil
		}
		g.Ks = append(g.Ks, k)
	}
	return g
}

// guards lists the guards that hold in b, nearest first.
func guards(b *ssa.BasicBlock) []*guard {
	var out []*guard
	for d := b; d != nil; d = d.Idom() {
		if g := entry(d); g != nil {
			out = append(out, g)
		}
	}
	return out
}

// edgeGuards lists the guards that hold when p is left for b.
func edgeGuards(p, b *ssa.BasicBlock) []*guard {
	out := guards(p)
	if x, k, eq := eqTest(p); x != nil && p.Succs[eq] == b && p.Succs[1-eq] != b {
		out = append([]*guard{{X: x, Ks: []*ssa.Const{k}}}, out...)
	}
	return out
}

func strConst(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value), true
		}
	case *ssa.MakeInterface:
		return strConst(x.X)
	case *ssa.ChangeType:
		return strConst(x.X)
	}
	return "", false
}

func intConst(v ssa.Value) (int64, bool) {
	if x, ok := v.(*ssa.Const); ok && x.Value != nil && x.Value.Kind() == constant.Int {
		return x.Int64(), true
	}
	return 0, false
}

// nearStr is the nearest guard on a string.
func nearStr(gs []*guard) *guard {
	for _, g := range gs {
		if _, ok := strConst(g.Ks[0]); ok {
			return g
		}
	}
	return nil
}

// recode is one line of a recoding table: a value that is k becomes v.
type recode struct {
	k, v  string
	site  string
	blk   *ssa.BasicBlock
	fn    *ssa.Function
	guard *guard   // when found as a comparison
	all   []*guard // every guard there
	table string   // the literal it is a line of, otherwise
}

// Recodes finds the string recodings of a function: comparisons whose branch
// yields a constant, map literals and literals of structs of two strings.
func Recodes(g *Graph, f *ssa.Function) []recode {
	var out []recode
	add := func(blk *ssa.BasicBlock, gs []*guard, v ssa.Value, at ssa.Instruction) {
		s, ok := strConst(v)
		if !ok {
			return
		}
		n := nearStr(gs)
		if n == nil {
			return
		}
		for _, k := range n.Ks {
			if ks, ok := strConst(k); ok {
				out = append(out, recode{k: ks, v: s, site: g.Site(at), blk: blk, fn: f, guard: n, all: gs})
			}
		}
	}
	elems := map[string]map[int]string{}
	elemAt := map[string]ssa.Instruction{}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				add(b, guards(b), x.Val, x)
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if ia, ok := fa.X.(*ssa.IndexAddr); ok {
						if s, ok := strConst(x.Val); ok {
							k := fmt.Sprintf("%p", ia)
							if elems[k] == nil {
								elems[k] = map[int]string{}
								elemAt[k] = x
							}
							elems[k][fa.Field] = s
						}
					}
				}
				// [...][2]string{{"a","b"}}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if ib, ok := ia.X.(*ssa.IndexAddr); ok {
						if s, ok := strConst(x.Val); ok {
							if i, ok := intConst(ia.Index); ok {
								k := fmt.Sprintf("%p", ib)
								if elems[k] == nil {
									elems[k] = map[int]string{}
									elemAt[k] = x
								}
								elems[k][int(i)] = s
							}
						}
					}
				}
			case *ssa.Return:
				for _, r := range x.Results {
					add(b, guards(b), r, x)
				}
			case *ssa.Phi:
				for i, e := range x.Edges {
					add(b.Preds[i], edgeGuards(b.Preds[i], b), e, x)
				}
			case *ssa.MapUpdate:
				k, ok1 := strConst(x.Key)
				v, ok2 := strConst(x.Value)
				if ok1 && ok2 {
					out = append(out, recode{k: k, v: v, site: g.Site(x), fn: f, table: mapName(x.Map)})
				}
			}
		}
	}
	for k, e := range elems {
		if len(e) == 2 {
			var is []int
			for i := range e {
				is = append(is, i)
			}
			sort.Ints(is)
			a, b := e[is[0]], e[is[1]]
			out = append(out, recode{k: a, v: b, site: g.Site(elemAt[k]), fn: f, table: "rows"},
				recode{k: b, v: a, site: g.Site(elemAt[k]), fn: f, table: "rows"})
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].site+out[i].k < out[j].site+out[j].k })
	return out
}

// mapName is the package variable a map literal is assigned to, if any.
func mapName(v ssa.Value) string {
	for _, r := range *v.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Val == v {
			if gl, ok := st.Addr.(*ssa.Global); ok {
				return gl.String()
			}
		}
	}
	return fmt.Sprintf("%p", v)
}

// listGlobal reads a package variable initialised with a list of constant
// strings.
func listGlobal(g *Graph, gl *ssa.Global) ([]string, bool) {
	init := gl.Pkg.Func("init")
	if init == nil {
		return nil, false
	}
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(gl) {
				continue
			}
			sl, ok := st.Val.(*ssa.Slice)
			if !ok {
				return nil, false
			}
			return listAt(sl.X)
		}
	}
	return nil, false
}

func listAt(arr ssa.Value) ([]string, bool) {
	p, ok := arr.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	at, ok := p.Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]string, at.Len())
	for _, r := range *arr.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := intConst(ia.Index)
		if !ok {
			return nil, false
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				s, ok := strConst(st.Val)
				if !ok {
					return nil, false
				}
				out[i] = s
			}
		}
	}
	return out, true
}

// strConstsIn lists the string constants a function uses.
func strConstsIn(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op != nil {
					if s, ok := strConst(*op); ok {
						out[s] = true
					}
				}
			}
		}
	}
	return out
}

// pkgConst is the value of a string constant of a package.
func pkgConst(g *Graph, rel, name string) (string, bool) {
	k := g.P.Pkg(rel)
	if k == nil {
		return "", false
	}
	c, ok := k.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok || c.Val().Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Val()), true
}

// tsv splits a table of tab-separated lines.
func tsv(s string) [][]string {
	var out [][]string
	for _, l := range strings.Split(s, "\n") {
		out = append(out, strings.Split(l, "\t"))
	}
	return out
}
