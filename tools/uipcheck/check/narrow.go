package check

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C24", "other", narrowing) }

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func widthOf(t types.Type) (bits int, signed, ok bool) {
	b := basicOf(t)
	if b == nil {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

// sizeKey names a quantity; the length of a string and of its bytes are one.
func sizeKey(v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			if a, _, ok := widthOf(x.X.Type()); ok {
				if b, _, ok := widthOf(x.Type()); ok && b >= a {
					v = x.X
					continue
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return "len " + key(x.Call.Args[0])
			}
		}
		return key(v)
	}
}

// atMost: v is at most max (and not negative, as far as it is a length)
// whenever b runs.
func atMost(v ssa.Value, max int64, b *ssa.BasicBlock, depth int) bool {
	if depth == 0 {
		return false
	}
	if n, ok := intConst(v); ok {
		return n <= max && n >= 0
	}
	if w, s, ok := widthOf(v.Type()); ok && !s && w < 63 && int64(1)<<w-1 <= max {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.AND:
			for _, o := range []ssa.Value{x.X, x.Y} {
				if n, ok := intConst(o); ok && n >= 0 && n <= max {
					return true
				}
			}
		case token.REM:
			if n, ok := intConst(x.Y); ok && n > 0 && n-1 <= max {
				return true
			}
		case token.SHR:
			if n, ok := intConst(x.Y); ok {
				if w, s, ok := widthOf(x.X.Type()); ok && !s && int64(w)-n < 63 && int64(1)<<(int64(w)-n)-1 <= max {
					return true
				}
			}
		}
	case *ssa.Convert:
		if _, _, ok := widthOf(x.X.Type()); ok && atMost(x.X, max, b, depth-1) {
			return true
		}
	case *ssa.Phi:
		all := true
		for i, e := range x.Edges {
			if e == ssa.Value(x) {
				continue
			}
			if !atMost(e, max, x.Block().Preds[i], depth-1) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	k := sizeKey(v)
	if checkedByCall(v, max, b, depth) {
		return true
	}
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		f, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		o, ok := f.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op, a, c := o.Op, o.X, o.Y
		if _, is := intConst(a); is {
			a, c = c, a
			op = flip(op)
		}
		n, is := intConst(c)
		if !is {
			continue
		}
		// len(x)+2 > n
		if bo, is := a.(*ssa.BinOp); is {
			if m, is := intConst(bo.Y); is && bo.Op == token.ADD {
				a, n = bo.X, n-m
			} else if is && bo.Op == token.SUB {
				a, n = bo.X, n+m
			}
		}
		if sizeKey(a) != k {
			continue
		}
		if p.Succs[0] != d {
			op = negate(op)
		}
		switch op {
		case token.LEQ, token.EQL:
			if n <= max {
				return true
			}
		case token.LSS:
			if n-1 <= max {
				return true
			}
		}
	}
	return false
}

// checkedByCall: b only runs when a call returned no error (or true), and the
// function called does so only when the size is in range.
func checkedByCall(v ssa.Value, max int64, b *ssa.BasicBlock, depth int) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		taken := p.Succs[0] == d
		var res ssa.Value
		var want func(ssa.Value) bool // may the function have returned this?
		switch x := i.Cond.(type) {
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			if !ok || !k.IsNil() || x.Op != token.EQL && x.Op != token.NEQ || (x.Op == token.EQL) != taken {
				continue
			}
			res = x.X
			want = func(r ssa.Value) bool {
				switch y := r.(type) {
				case *ssa.Const:
					return y.IsNil()
				case *ssa.MakeInterface:
					return false
				case *ssa.UnOp: // an error variable
					_, gl := y.X.(*ssa.Global)
					return !gl
				case *ssa.Call:
					n := calleeName(&y.Call)
					return n != "fmt.Errorf" && n != "errors.New"
				}
				return true
			}
		default:
			if u, ok := x.(*ssa.UnOp); ok && u.Op == token.NOT {
				x, taken = u.X, !taken
			}
			if basicOf(x.Type()) == nil {
				continue
			}
			res = x
			t := taken
			want = func(r ssa.Value) bool {
				k, ok := r.(*ssa.Const)
				return !ok || k.Value == nil || (k.Value.ExactString() == "true") == t
			}
		}
		n := 0
		if e, ok := res.(*ssa.Extract); ok {
			res, n = e.Tuple, e.Index
		}
		c, ok := res.(*ssa.Call)
		if !ok {
			continue
		}
		f := c.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		// the parameter that stands for v
		k := sizeKey(v)
		for j, a := range c.Call.Args {
			var in func(blk *ssa.BasicBlock) bool
			q := f.Params[j]
			switch k {
			case sizeKey(a):
				in = func(blk *ssa.BasicBlock) bool { return atMost(q, max, blk, depth-1) }
			case "len " + key(a):
				in = func(blk *ssa.BasicBlock) bool { return lenAtMost(q, max, blk) }
			default:
				continue
			}
			all := true
			for _, blk := range f.Blocks {
				if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && want(r.Results[n]) {
					if ph, ok := r.Results[n].(*ssa.Phi); ok && ph.Block() == blk {
						for m, e := range ph.Edges {
							if want(e) && !in(blk.Preds[m]) {
								all = false
							}
						}
					} else if bo, ok := r.Results[n].(*ssa.BinOp); ok && basicOf(bo.Type()).Info()&types.IsBoolean != 0 && taken && boundBy(bo, k, "len "+key(q), key(q), max) {
						continue
					} else if !in(blk) {
						all = false
					}
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// boundBy: the comparison, when true, bounds the named size.
func boundBy(o *ssa.BinOp, k, k1, k2 string, max int64) bool {
	op, a, c := o.Op, o.X, o.Y
	if _, is := intConst(a); is {
		a, c = c, a
		op = flip(op)
	}
	n, is := intConst(c)
	if !is || sizeKey(a) != k1 && sizeKey(a) != k2 {
		return false
	}
	return op == token.LEQ && n <= max || op == token.LSS && n-1 <= max
}

// lenAtMost: the length of q is at most max whenever b runs.
func lenAtMost(q ssa.Value, max int64, b *ssa.BasicBlock) bool {
	for _, r := range *q.Referrers() {
		if c, ok := r.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && atMost(c, max, b, 3) {
				return true
			}
		}
	}
	return false
}

func narrowing(c *Ctx) (*Result, error) {
	g := NewGraph(c.P)
	res := &Result{Rules: []string{"in code reachable from a packer, a wider integer is converted to a 16-bit one only where a dominating comparison, its type or a mask keeps it in range; for a parameter, at every call"},
		Explain: "Every narrowing conversion to 16 bits reachable from the registered packers, with the branch conditions that dominate it."}
	roots := g.registered("Pack")
	if len(roots) < 3 {
		return nil, fmt.Errorf("only %d packers found", len(roots))
	}
	reach := g.Reach(roots, nil)
	for _, f := range sorted(reach) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.Convert)
				if !ok {
					continue
				}
				w, s, ok := widthOf(x.Type())
				w2, _, ok2 := widthOf(x.X.Type())
				if !ok || !ok2 || w != 16 || w2 <= w {
					continue
				}
				max := int64(1)<<w - 1
				if s {
					max = 1<<(w-1) - 1
				}
				res.Obligations++
				res.Functions = append(res.Functions, short(f))
				if site, ok := inRange(g, x.X, max, b, guards(b), reach, 4); !ok {
					res.Fail("length fits", site, short(f), fmt.Sprintf("%s is cut to %d bits without a check that it fits", x.X.Name(), w))
				} else {
					res.Samples = append(res.Samples, g.Site(x)+": fits")
				}
			}
		}
	}
	res.Functions = dedup(res.Functions)
	return res, nil
}

// inRange follows parameters to the calls.
func inRange(g *Graph, v ssa.Value, max int64, b *ssa.BasicBlock, gs []*guard, reach map[*ssa.Function]bool, depth int) (string, bool) {
	if atMost(v, max, b, 6) {
		return "", true
	}
	for {
		c, ok := v.(*ssa.Convert)
		if !ok {
			break
		}
		v = c.X
	}
	site := g.P.Fset.Position(b.Parent().Pos()).String()
	if ins, ok := v.(ssa.Instruction); ok {
		site = g.Site(ins)
	}
	p, ok := v.(*ssa.Parameter)
	if !ok || depth == 0 {
		return site, false
	}
	n := 0
	for _, c := range g.callers[p.Parent()] {
		if !reach[c.Parent()] {
			continue
		}
		a := c.Common().Args
		if c.Common().IsInvoke() {
			a = append([]ssa.Value{c.Common().Value}, a...)
		}
		// the conversion is reached for some values of other parameters only
		skip := false
		for _, gd := range gs {
			for i, q := range p.Parent().Params {
				if gd.X != ssa.Value(q) || i >= len(a) {
					continue
				}
				if k, ok := a[i].(*ssa.Const); ok {
					hit := false
					for _, w := range gd.Ks {
						if w.Value != nil && k.Value != nil && w.Value.ExactString() == k.Value.ExactString() {
							hit = true
						}
					}
					if !hit {
						skip = true
					}
				}
			}
		}
		if skip {
			continue
		}
		n++
		for i, q := range p.Parent().Params {
			if q == p && i < len(a) {
				if s, ok := inRange(g, a[i], max, c.Block(), guards(c.Block()), reach, depth-1); !ok {
					if s == "" {
						s = g.Site(c)
					}
					return s, false
				}
			}
		}
	}
	return site, n > 0
}
