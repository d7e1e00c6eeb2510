package check

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/load"
)

// continents is the coding of continents in ipdb files.
var continents = [][2]string{{"AS", "亚洲"}, {"EU", "欧洲"}, {"NA", "北美洲"}, {"SA", "南美洲"}, {"AF", "非洲"}, {"OC", "大洋洲"}, {"AN", "南极洲"}}

// coding looks a continent up: the other side, and whether x is a code.
func coding(x string) (other string, code, ok bool) {
	for _, c := range continents {
		if c[0] == x {
			return c[1], true, true
		}
		if c[1] == x {
			return c[0], false, true
		}
	}
	return "", false, false
}

// queriers, dumpers and packers are the functions registered for a format.
func (g *Graph) registered(kind string) []*ssa.Function {
	t := g.namedType("db/inf", kind)
	if t == nil {
		return nil
	}
	sig, ok := t.Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range g.taken {
		if g.in[f] && sameSig(f.Signature, sig) {
			out = append(out, f)
		}
	}
	return out
}

func (g *Graph) namedType(rel, name string) types.Type {
	k := g.P.Pkg(rel)
	if k == nil {
		return nil
	}
	o := k.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// columnNames are the names under which a column index was looked up.
func columnNames(g *Graph, v ssa.Value, gs []*guard, depth int) (out []string, known bool) {
	if depth == 0 {
		return nil, false
	}
	if _, ok := v.(*ssa.Const); ok {
		return nil, true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return nil, false
		}
		st := fa.X.Type().Underlying().(*types.Pointer).Elem()
		known = true
		for _, f := range g.Funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					s, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					a, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || a.Field != fa.Field || !types.Identical(a.X.Type().Underlying().(*types.Pointer).Elem(), st) {
						continue
					}
					if _, ok := s.Val.(*ssa.Const); ok {
						continue
					}
					gg := guards(b)
					if n := nearStr(gg); n != nil {
						for _, k := range n.Ks {
							if s, ok := strConst(k); ok {
								out = append(out, s)
							}
						}
						continue
					}
					o, kn := columnNames(g, s.Val, gg, depth-1)
					out = append(out, o...)
					known = known && kn
				}
			}
		}
		return out, known
	case *ssa.Phi:
		known = true
		for i, e := range x.Edges {
			if _, ok := e.(*ssa.Const); ok || e == ssa.Value(x) {
				continue
			}
			if n := nearStr(edgeGuards(x.Block().Preds[i], x.Block())); n != nil {
				for _, k := range n.Ks {
					if s, ok := strConst(k); ok {
						out = append(out, s)
					}
				}
				continue
			}
			o, kn := columnNames(g, e, nil, depth-1)
			out = append(out, o...)
			known = known && kn
		}
		return out, known
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if s, ok := strConst(a); ok {
				out = append(out, s)
			}
		}
		return out, len(out) > 0
	}
	return nil, false
}

func indexOf(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			return ia.Index
		}
	}
	if ix, ok := v.(*ssa.Index); ok {
		return ix.Index
	}
	return nil
}

func init() {
	register("C17", "other", continentTables)
	register("C15", "other", columnTables)
	register("C16", "other", clientTables)
	register("C26", "other", normalTables)
	register("C25", "other", registry)
}

func continentTables(c *Ctx) (*Result, error) {
	g := NewGraph(c.P)
	res := &Result{Rules: []string{
		"every recoding of a continent maps each of the seven codes to its name, or each name to its code, and no other way",
		"ipdb decodes on reading and encodes on packing, memip decodes on packing, and the Java and Rust readers decode, all seven",
		"the column recoded is the continent column"},
		Explain: "Recoding tables (comparison chains, switches, map and row literals) are read off the SSA form, Java and Rust ones off the token stream, and compared with the seven continents of the ipdb format."}
	type dir struct {
		pkg    string
		decode bool
	}
	have := map[dir]map[string]bool{}
	note := func(d dir, k string) {
		if have[d] == nil {
			have[d] = map[string]bool{}
		}
		have[d][k] = true
	}
	for _, f := range g.Funcs {
		groups := map[string][]recode{}
		for _, r := range Recodes(g, f) {
			_, code, ok := coding(r.k)
			if ok {
				groups[fmt.Sprint(code)+r.table] = append(groups[fmt.Sprint(code)+r.table], r)
			}
		}
		for _, l := range groups {
			good := 0
			for _, r := range l {
				if o, _, _ := coding(r.k); o == r.v {
					good++
				}
			}
			if good < 3 {
				continue
			}
			seen := map[string]bool{}
			for _, r := range l {
				o, code, _ := coding(r.k)
				res.Obligations++
				if r.v != o {
					res.Fail("continent recoded", r.site, short(f), fmt.Sprintf("%s becomes %s, want %s", r.k, r.v, o))
				} else {
					note(dir{load.PkgOf(f), code}, r.k)
				}
				if len(res.Samples) < 40 {
					res.Samples = append(res.Samples, fmt.Sprintf("%s: %s -> %s", r.site, r.k, r.v))
				}
				seen[r.k] = true
				// the right column
				if r.guard == nil {
					continue
				}
				if msg := continentColumn(g, f, r.guard.X, r.blk, r.all, 5); msg != "" {
					res.Fail("continent column", r.site, short(f), msg)
				}
			}
			if len(seen) < 7 {
				for _, ct := range continents {
					k := ct[0]
					if _, code, _ := coding(l[0].k); !code {
						k = ct[1]
					}
					if !seen[k] {
						res.Fail("continent table complete", l[0].site, short(f), k+" is not recoded")
					}
				}
			}
		}
	}
	want := []struct {
		rel    string
		decode bool
		kind   string
	}{{"db/format/ipdb", true, "NewQuery"}, {"db/format/ipdb", true, "Dump"}, {"db/format/ipdb", false, "Pack"}, {"db/format/memip", true, "Pack"}}
	for _, w := range want {
		if g.P.Pkg(w.rel) == nil {
			return nil, fmt.Errorf("no package %s", w.rel)
		}
		res.Obligations++
		if len(have[dir{load.ModPath + "/" + w.rel, w.decode}]) > 0 {
			continue
		}
		// no table of a form known here: is the coding gone altogether?
		used := false
		for _, f := range g.Funcs {
			if !inPkg(f, w.rel) {
				continue
			}
			for s := range strConstsIn(f) {
				if _, _, ok := coding(s); ok {
					used = true
				}
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if s, ok := strConst2(*op); ok && strings.Contains(s, "AS") && strings.Contains(s, "亚洲") {
							used = true
						}
					}
				}
			}
		}
		if !used {
			res.Fail("continent table present", w.rel, w.rel, fmt.Sprintf("continents are not recoded (decode %v)", w.decode))
		} else {
			res.Samples = append(res.Samples, w.rel+": the continent coding has a form this check does not know")
		}
	}
	if s, ok := pkgConst(g, "db/field/data", "ContinentList"); ok {
		seen := map[string]bool{}
		for _, l := range tsv(s) {
			res.Obligations++
			if len(l) == 1 && l[0] == "" {
				continue
			}
			o, code, ok := "", false, false
			if len(l) == 2 {
				o, code, ok = coding(l[0])
			}
			if !ok || code || o != l[1] {
				res.Fail("continent list", "db/field/data", "ContinentList", fmt.Sprintf("line %q", strings.Join(l, "\t")))
			}
			seen[l[0]] = true
		}
		for _, ct := range continents {
			if !seen[ct[1]] {
				res.Fail("continent list", "db/field/data", "ContinentList", ct[1]+" is not in the list")
			}
		}
	}
	// the clients
	for _, cl := range clients(c.Repo) {
		seen := map[string]string{}
		for i, t := range cl.toks {
			if !t.str {
				continue
			}
			o, code, ok := coding(t.s)
			if !ok || !code {
				continue
			}
			for _, u := range cl.toks[i+1 : min(i+14, len(cl.toks))] {
				if !u.str {
					continue
				}
				if _, code2, ok2 := coding(u.s); ok2 && code2 {
					break
				}
				res.Obligations++
				seen[t.s] = u.s
				if u.s != o {
					res.Fail("continent recoded", fmt.Sprintf("%s:%d", cl.file, t.line), cl.file, fmt.Sprintf("%s becomes %s, want %s", t.s, u.s, o))
				}
				break
			}
		}
		if len(seen) > 0 {
			for _, ct := range continents {
				if _, ok := seen[ct[0]]; !ok {
					res.Fail("continent table complete", cl.file, cl.file, ct[0]+" is not recoded")
				}
			}
		}
		res.Functions = append(res.Functions, cl.file)
	}
	for d, m := range have {
		res.Functions = append(res.Functions, fmt.Sprintf("%s decode=%v: %d", d.pkg, d.decode, len(m)))
	}
	res.Violations = dedupV(res.Violations)
	return res, nil
}

func strConst2(v ssa.Value) (string, bool) {
	if v == nil {
		return "", false
	}
	return strConst(v)
}

// continentColumn says what is wrong with recoding the value x in block b:
// its column has to be known to be the continent's.
func continentColumn(g *Graph, f *ssa.Function, x ssa.Value, b *ssa.BasicBlock, gs []*guard, depth int) string {
	if depth == 0 {
		return ""
	}
	// under the name of the column
	for _, gd := range gs {
		for _, k := range gd.Ks {
			if s, ok := strConst(k); ok && (s == "continent" || s == "continent_code") {
				return ""
			}
		}
	}
	if ix := indexOf(x); ix != nil {
		if n, ok := intConst(ix); ok {
			if continentAt(g, f, func(i int64) bool { return i == n }) == 1 {
				return fmt.Sprintf("column %d is not the continent", n)
			}
			return ""
		}
		if names, known := columnNames(g, ix, nil, 6); known {
			for _, n := range names {
				if n != "continent_code" && n != "continent" {
					return "the recoded column is the one named " + n
				}
			}
			return ""
		}
	}
	// under the number of the column
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		o, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op, a, c := o.Op, o.X, o.Y
		if _, is := intConst(a); is {
			a, c, op = c, a, flip(op)
		}
		n, is := intConst(c)
		if !is {
			continue
		}
		if _, par := a.(*ssa.Parameter); n < 0 || !par && !isCounter(a) || loopBound(o) {
			continue
		}
		if p.Succs[0] != d {
			op = negate(op)
		}
		switch continentAt(g, f, func(i int64) bool { return compare(op, i, n) }) {
		case 1:
			return fmt.Sprintf("the recoded columns are those with number %s %d, not the continent alone", op, n)
		case 0:
			return ""
		}
	}
	if p, ok := x.(*ssa.Parameter); ok {
		for i, q := range f.Params {
			if q != p {
				continue
			}
			for _, cs := range g.callers[f] {
				if cs.Common().StaticCallee() != f {
					continue
				}
				ci := cs.(ssa.Instruction)
				if msg := continentColumn(g, ci.Parent(), cs.Common().Args[i], ci.Block(), guards(ci.Block()), depth-1); msg != "" {
					return msg
				}
			}
		}
		return ""
	}
	if inLoop(b) && continentAt(g, f, func(int64) bool { return true }) >= 0 {
		return "every column is recoded, not the continent alone"
	}
	return ""
}

// loopBound: the comparison is that of a loop, so it says nothing here.
func loopBound(o *ssa.BinOp) bool {
	c, ok := o.Y.(*ssa.Call)
	if ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return true
		}
	}
	// the block of the comparison is entered again from inside
	for _, p := range o.Block().Preds {
		if o.Block().Dominates(p) {
			return true
		}
	}
	return false
}

func compare(op token.Token, a, b int64) bool {
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	return true
}

// continentAt: among the numbered columns of the package, those satisfying in
// are the continent alone (0) or not (1); -1 when there is no such list.
func continentAt(g *Graph, f *ssa.Function, in func(int64) bool) int {
	if f.Pkg == nil {
		return -1
	}
	for _, m := range f.Pkg.Members {
		gl, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		l, ok := listGlobal(g, gl)
		if !ok || len(l) < 2 || len(l) > 10 {
			continue
		}
		is, other := false, false
		for i, s := range l {
			c := s == "continent" || s == "continent_code"
			is = is || c
			if in(int64(i)) && !c {
				other = true
			}
		}
		if is {
			if other {
				return 1
			}
			return 0
		}
	}
	return -1
}

// src is where the value of a record column comes from: the name of a column.
type srcs struct {
	names   map[string]bool
	unknown bool
	bad     string
}

// columnOf follows a value stored into a result field back to the column
// names it is read under.
func columnOf(g *Graph, v ssa.Value, env map[*ssa.Parameter]ssa.Value, depth int, out *srcs) {
	if depth == 0 {
		out.unknown = true
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
		return
	case *ssa.Lookup:
		k := x.Index
		for i := 0; i < 4; i++ {
			if p, ok := k.(*ssa.Parameter); ok && env[p] != nil {
				k = env[p]
			}
		}
		if s, ok := strConst(k); ok {
			out.names[s] = true
			return
		}
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			columnOf(g, l, env, depth-1, out)
			return
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			callColumn(g, c, x.Index, env, depth-1, out)
			return
		}
	case *ssa.Call:
		callColumn(g, x, 0, env, depth-1, out)
		return
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != ssa.Value(x) {
				columnOf(g, e, env, depth-1, out)
			}
		}
		return
	case *ssa.Parameter:
		if env[x] != nil {
			columnOf(g, env[x], env, depth-1, out)
			return
		}
	}
	out.unknown = true
}

func callColumn(g *Graph, c *ssa.Call, res int, env map[*ssa.Parameter]ssa.Value, depth int, out *srcs) {
	f := c.Call.StaticCallee()
	if f == nil || !g.in[f] {
		out.unknown = true
		return
	}
	e2 := map[*ssa.Parameter]ssa.Value{}
	for k, v := range env {
		e2[k] = v
	}
	for i, p := range f.Params {
		if i < len(c.Call.Args) {
			e2[p] = c.Call.Args[i]
		}
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && res < len(r.Results) {
			columnOf(g, r.Results[res], e2, depth, out)
		}
	}
}

// commonMaps finds the tables from common column names to those of a format.
func commonMaps(g *Graph, pkg string) []map[string]string {
	var out []map[string]string
	for _, f := range g.Funcs {
		if load.PkgOf(f) != pkg {
			continue
		}
		t := map[string]map[string]string{}
		for _, r := range Recodes(g, f) {
			n := r.table
			if n == "rows" {
				continue
			}
			if n == "" {
				n = key(r.guard.X)
			}
			if t[n] == nil {
				t[n] = map[string]string{}
			}
			t[n][r.k] = r.v
		}
		for _, m := range t {
			if _, ok := m["country"]; ok && len(m) >= 4 {
				out = append(out, m)
			}
		}
	}
	return out
}

// infoTags maps the fields of a lookup result to their JSON names.
func infoTags(g *Graph) (map[string]string, *types.Struct, error) {
	t := g.namedType("db/inf", "IpInfo")
	if t == nil {
		return nil, nil, fmt.Errorf("no inf.IpInfo")
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil, fmt.Errorf("inf.IpInfo is not a struct")
	}
	m := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
		if tag == "" {
			tag = st.Field(i).Name()
		}
		m[st.Field(i).Name()] = tag
	}
	return m, st, nil
}

// columnOracle gives the format's own name of each common column.
var columnOracle = map[string]map[string]string{
	"ipdb": {"country": "country_name", "province": "region_name", "city": "city_name", "isp": "isp_domain",
		"continent": "continent_code", "asn": "asn", "utcOffset": "utc_offset", "latitude": "latitude",
		"longitude": "longitude", "chinaAdminCode": "china_admin_code", "district": "district", "line": "line"},
	"awdb": {"country": "country", "province": "province", "city": "city", "isp": "isp", "continent": "continent",
		"asn": "asnumber", "utcOffset": "timezone", "latitude": "latwgs", "longitude": "lngwgs",
		"chinaAdminCode": "adcode", "district": "district", "line": "line"},
}

func columnTables(c *Ctx) (*Result, error) {
	g := NewGraph(c.P)
	res := &Result{Rules: []string{
		"the JSON name of each string field of a lookup result is the common column name of the same meaning, all different",
		"in every query format, the result field of a common column is filled from exactly the format's column that dumping and packing use for it, at the same position as that column's name",
		"no two common columns share a column of a format, and each is mapped to the column the format documents for it",
		"the view of a memip line has its columns in the documented order"},
		Explain: "Column tables are read off the SSA form: the map from common to format columns, the column name under which each result field is stored (comparison guarding the store, or key of the map read), and the JSON tags."}
	tags, _, err := infoTags(g)
	if err != nil {
		return nil, err
	}
	common := map[string]bool{}
	if k := g.P.Pkg("db/field"); k != nil {
		for _, n := range k.Pkg.Scope().Names() {
			if cn, ok := k.Pkg.Scope().Lookup(n).(*types.Const); ok && cn.Val().Kind() == constant.String {
				common[constant.StringVal(cn.Val())] = true
				// the name of the constant and of the column agree
				res.Obligations++
				if v := constant.StringVal(cn.Val()); !strings.EqualFold(n, v) {
					if tn, ok := k.Pkg.Scope().Lookup(n).(*types.Const); ok && len(common) > 0 {
						_ = tn
						for _, o := range k.Pkg.Scope().Names() {
							if strings.EqualFold(o, v) {
								res.Fail("common column names", "db/field", n, fmt.Sprintf("constant %s names the column %q of constant %s", n, v, o))
							}
						}
					}
				}
			}
		}
	}
	used := map[string]string{}
	for f, t := range tags {
		res.Obligations++
		if o, ok := used[t]; ok {
			res.Fail("result names", "db/inf", f, "fields "+o+" and "+f+" are both called "+t)
		}
		used[t] = f
		if !strings.EqualFold(f, t) {
			for o := range tags {
				if strings.EqualFold(o, t) && o != f {
					res.Fail("result names", "db/inf", f, fmt.Sprintf("field %s is called %q, like field %s", f, t, o))
				}
			}
		}
	}
	nq := 0
	pk := map[string]bool{}
	for _, q := range g.registered("NewQuery") {
		pk[load.PkgOf(q)] = true
	}
	for _, p := range sortedKeys(pk) {
		nq++
		maps := commonMaps(g, p)
		read := map[string]*srcs{}
		site := map[string]string{}
		touched := map[string]bool{}
		for _, f := range g.Funcs {
			if load.PkgOf(f) != p {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					fa, ok := ins.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
					if pt.String() != load.ModPath+"/db/inf.IpInfo" {
						continue
					}
					name := pt.Underlying().(*types.Struct).Field(fa.Field).Name()
					touched[name] = true
					for _, r := range *fa.Referrers() {
						st, ok := r.(*ssa.Store)
						if !ok || st.Addr != ssa.Value(fa) {
							if _, ok := r.(*ssa.UnOp); ok {
								continue
							}
							if s := read[name]; s != nil {
								s.unknown = true
							} else {
								read[name] = &srcs{names: map[string]bool{}, unknown: true}
							}
							continue
						}
						s := read[name]
						if s == nil {
							s = &srcs{names: map[string]bool{}}
							read[name] = s
						}
						site[name] = g.Site(st)
						if n := nearStr(guards(st.Block())); n != nil {
							for _, k := range n.Ks {
								if ks, ok := strConst(k); ok {
									s.names[ks] = true
								}
							}
							a, b := indexOf(n.X), indexOf(st.Val)
							if a != nil && b != nil && key(a) != key(b) {
								s.bad = "the value is read at another position than the column name"
							}
							continue
						}
						columnOf(g, st.Val, map[*ssa.Parameter]ssa.Value{}, 8, s)
					}
				}
			}
		}
		for _, m := range maps {
			inv := map[string]string{}
			for k, w := range columnOracle[strings.TrimPrefix(p, load.ModPath+"/db/format/")] {
				res.Obligations++
				if v, ok := m[k]; ok && v != w {
					res.Fail("column named", p, p, fmt.Sprintf("common column %s is mapped to %q, which the format calls %q", k, v, w))
				}
			}
			for _, k := range sortedKeysS(m) {
				res.Obligations++
				if o, ok := inv[m[k]]; ok {
					res.Fail("columns differ", p, p, fmt.Sprintf("columns %s and %s are both stored as %s", o, k, m[k]))
				}
				inv[m[k]] = k
			}
		}
		if len(maps) == 1 {
			for _, k := range []string{"country", "province", "city", "isp", "asn", "continent", "line"} {
				if _, ok := maps[0][k]; !ok {
					res.Fail("column lost", p, p, "common column "+k+" is not mapped to a column of the format")
				}
			}
		}
		for _, f := range sortedKeysS(tags) {
			t := tags[f]
			s := read[f]
			if s != nil && s.bad != "" {
				res.Fail("column position", site[f], p, f+": "+s.bad)
			}
			for _, m := range maps {
				want, ok := m[t]
				if !ok {
					continue
				}
				res.Obligations++
				switch {
				case !touched[f] && len(touched) > 0:
					res.Fail("column read", p, p, fmt.Sprintf("result field %s is never filled, column %s is not looked up", f, want))
				case s == nil:
				case s.unknown:
					res.Samples = append(res.Samples, fmt.Sprintf("%s: %s is filled in a way this check cannot follow", p, f))
				case len(s.names) != 1 || !s.names[want]:
					res.Fail("column read", site[f], p, fmt.Sprintf("result field %s is filled from %v, but dump and pack use column %s for %s", f, sortedKeys(s.names), want, t))
				default:
					res.Samples = append(res.Samples, fmt.Sprintf("%s: %s <- %s <- common %s", site[f], f, want, t))
				}
			}
		}
		res.Functions = append(res.Functions, p)
	}
	if nq < 2 {
		return nil, fmt.Errorf("only %d query formats found", nq)
	}
	// memip view
	doc := []string{"city", "province", "district", "isp", "country", "continent"}
	if k := g.P.Pkg("db/format/memip"); k != nil {
		for _, m := range k.Members {
			gl, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			l, ok := listGlobal(g, gl)
			if !ok || len(l) < 3 || !common[l[0]] {
				continue
			}
			res.Obligations++
			if strings.Join(l, "-") != strings.Join(doc, "-") {
				res.Fail("view columns", "db/format/memip", gl.Name(), fmt.Sprintf("columns %v, documented %v", l, doc))
			}
		}
	}
	return res, nil
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func sortedKeysS(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// tok is a token of a Java or Rust file.
type tok struct {
	s    string
	str  bool
	line int
}

type client struct {
	file string
	toks []tok
}

// lex splits Java or Rust source into words, strings and single characters,
// without comments.
func lex(src string) []tok {
	var out []tok
	r := []rune(src)
	line := 1
	word := func(c rune) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	for i := 0; i < len(r); {
		c := r[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(r) && r[i+1] == '/':
			for i < len(r) && r[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < len(r) && r[i+1] == '*':
			for i < len(r) && !(r[i] == '*' && i+1 < len(r) && r[i+1] == '/') {
				if r[i] == '\n' {
					line++
				}
				i++
			}
			i += 2
		case c == '"':
			j := i + 1
			for j < len(r) && r[j] != '"' {
				if r[j] == '\\' {
					j++
				}
				if j < len(r) && r[j] == '\n' {
					line++
				}
				j++
			}
			out = append(out, tok{string(r[i+1 : min(j, len(r))]), true, line})
			i = j + 1
		case c == '\'':
			// a character, or a Rust lifetime
			if i+2 < len(r) && r[i+2] == '\'' {
				out = append(out, tok{string(r[i : i+3]), false, line})
				i += 3
			} else if i+3 < len(r) && r[i+1] == '\\' && r[i+3] == '\'' {
				out = append(out, tok{string(r[i : i+4]), false, line})
				i += 4
			} else {
				i++
			}
		case word(c):
			j := i
			for j < len(r) && word(r[j]) {
				j++
			}
			out = append(out, tok{string(r[i:j]), false, line})
			i = j
		default:
			out = append(out, tok{string(c), false, line})
			i++
		}
	}
	// named string constants are replaced by their value
	named := map[string]tok{}
	var o2 []tok
	for i := 0; i < len(out); i++ {
		t := out[i]
		if t.str && i+1 < len(out) && out[i+1].s == ";" && i >= 2 && out[i-1].s == "=" {
			j := i - 2
			// Java: final String NAME = "x"; Rust: const NAME: &str = "x";
			for k := j; k >= 0 && k > j-10 && out[k].s != ";" && out[k].s != "{" && out[k].s != "}"; k-- {
				if out[k].s == "final" || out[k].s == "const" || out[k].s == "static" {
					n := out[j].s
					if out[k].s == "const" || out[j].s == "str" {
						for q := k + 1; q < i; q++ {
							if out[q+1].s == ":" {
								n = out[q].s
								break
							}
						}
					}
					named[n] = t
					// drop it
					for len(o2) > 0 && o2[len(o2)-1].s != ";" && o2[len(o2)-1].s != "{" && o2[len(o2)-1].s != "}" {
						o2 = o2[:len(o2)-1]
					}
					i++
					goto next
				}
			}
		}
		o2 = append(o2, t)
	next:
	}
	for i, t := range o2 {
		if v, ok := named[t.s]; ok && !t.str {
			o2[i] = tok{v.s, true, t.line}
		}
	}
	return o2
}

// clients reads the Java and Rust sources that are part of the repository.
func clients(repo string) []client {
	var out []client
	for _, d := range []string{"java/src/main", "rust/src"} {
		filepath.Walk(filepath.Join(repo, d), func(p string, i os.FileInfo, err error) error {
			if err != nil || i.IsDir() || !strings.HasSuffix(p, ".java") && !strings.HasSuffix(p, ".rs") {
				return nil
			}
			b, err := os.ReadFile(p)
			if err == nil {
				rp, _ := filepath.Rel(repo, p)
				out = append(out, client{rp, lex(string(b))})
			}
			return nil
		})
	}
	return out
}

func clientTables(c *Ctx) (*Result, error) {
	g := NewGraph(c.P)
	res := &Result{Rules: []string{
		"the Java and Rust ipdb readers fill each result field from the column the Go reader fills it from",
		"they look up the same language and the same metadata keys as the Go reader writes"},
		Explain: "The Go tables are read off the SSA form; the Java and Rust ones off the token stream of the client sources: the column name literal that precedes each assignment to a result field."}
	tags, _, err := infoTags(g)
	if err != nil {
		return nil, err
	}
	want := map[string]string{} // column -> result name
	for _, m := range commonMaps(g, load.ModPath+"/db/format/ipdb") {
		for _, f := range sortedKeysS(tags) {
			if col, ok := m[tags[f]]; ok {
				want[col] = tags[f]
			}
		}
	}
	if len(want) < 6 {
		return nil, fmt.Errorf("the Go column table has only %d entries", len(want))
	}
	names := map[string]bool{}
	for _, t := range tags {
		names[t] = true
	}
	found := 0
	for _, cl := range clients(c.Repo) {
		got := map[string]string{}
		line := map[string]int{}
		for i, t := range cl.toks {
			if _, ok := want[t.s]; !t.str || !ok {
				continue
			}
			for j := i + 1; j < len(cl.toks) && j < i+30; j++ {
				u := cl.toks[j]
				if _, ok := want[u.s]; u.str && ok {
					break
				}
				if !u.str && u.s == "." && j+2 < len(cl.toks) && names[cl.toks[j+1].s] && cl.toks[j+2].s == "=" && cl.toks[j+3].s != "=" {
					got[t.s] = cl.toks[j+1].s
					line[t.s] = t.line
					break
				}
			}
		}
		if len(got) == 0 {
			continue
		}
		found++
		res.Functions = append(res.Functions, cl.file)
		for _, col := range sortedKeysS(want) {
			res.Obligations++
			switch {
			case got[col] == "":
				res.Fail("client column", cl.file, cl.file, fmt.Sprintf("column %s (%s) is not read", col, want[col]))
			case got[col] != want[col]:
				res.Fail("client column", fmt.Sprintf("%s:%d", cl.file, line[col]), cl.file, fmt.Sprintf("column %s fills %s, in Go it is %s", col, got[col], want[col]))
			default:
				res.Samples = append(res.Samples, fmt.Sprintf("%s:%d: %s -> %s", cl.file, line[col], col, got[col]))
			}
		}
	}
	if found == 0 {
		res.Samples = append(res.Samples, "no client table of a form this check knows")
	}
	// metadata keys
	keys := map[string]bool{}
	if mt := g.namedType("db/format/ipdb", "MetaData"); mt != nil {
		if st, ok := mt.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				keys[strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]] = true
			}
		}
	}
	spec := []string{"build", "ip_version", "languages", "node_count", "total_size", "fields"}
	for _, k := range spec {
		res.Obligations++
		if len(keys) > 0 && !keys[k] {
			res.Fail("metadata keys", "db/format/ipdb", "MetaData", "no metadata field is called "+k)
		}
	}
	for _, cl := range clients(c.Repo) {
		decl := map[string]bool{}
		is := false
		for i, t := range cl.toks {
			if t.s == "MetaData" && i > 0 && (cl.toks[i-1].s == "class" || cl.toks[i-1].s == "struct") {
				is = true
				depth := 0
				for _, u := range cl.toks[i+1:] {
					if u.s == "{" {
						depth++
					}
					if u.s == "}" {
						depth--
						if depth == 0 {
							break
						}
					}
					decl[u.s] = true
				}
			}
		}
		if !is {
			continue
		}
		for _, k := range spec {
			res.Obligations++
			if !decl[k] {
				res.Fail("metadata keys", cl.file, cl.file, "no metadata field is called "+k)
			}
		}
	}
	return res, nil
}

func normalTables(c *Ctx) (*Result, error) {
	g := NewGraph(c.P)
	res := &Result{Rules: []string{
		"each line of a normalisation table has one tab and two non-empty sides without blanks at their ends",
		"no name is normalised to two different names", "a normalised name stays what it is when normalised again",
		"every name a province is normalised to has a district, and so has no name that still needs normalising",
		"each table is loaded for a common column, and the province column's table is the one whose names have districts"},
		Explain: "The tables are compile-time constants: they are read off the type-checked source, with the constant column each is loaded under, and every line and every pair of lines is examined."}
	type table struct {
		name, col, text string
	}
	var tabs []table
	ld := g.P.Func("db/field/data", "Load")
	for _, f := range g.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				cl, ok := ins.(*ssa.Call)
				if !ok || ld == nil || cl.Call.StaticCallee() != ld || len(cl.Call.Args) != 2 {
					continue
				}
				k, ok1 := strConst(cl.Call.Args[0])
				v, ok2 := strConst(cl.Call.Args[1])
				if ok1 && ok2 {
					tabs = append(tabs, table{"table of " + k, k, v})
				}
			}
		}
	}
	if k := g.P.Pkg("db/field/data"); k != nil {
		for _, n := range k.Pkg.Scope().Names() {
			if cn, ok := k.Pkg.Scope().Lookup(n).(*types.Const); ok && cn.Val().Kind() == constant.String {
				v := constant.StringVal(cn.Val())
				dup := false
				for _, t := range tabs {
					if t.text == v {
						dup = true
					}
				}
				if !dup && strings.Count(v, "\t") > 3 {
					tabs = append(tabs, table{n, "", v})
				}
			}
		}
	}
	if len(tabs) == 0 {
		return nil, fmt.Errorf("no constant table found in db/field/data")
	}
	cols := map[string]map[string]string{}
	for _, t := range tabs {
		m := map[string]string{}
		for i, l := range tsv(t.text) {
			if len(l) == 1 && l[0] == "" {
				continue
			}
			res.Obligations++
			at := fmt.Sprintf("%s, line %d (%s)", t.name, i+1, strings.Join(l, " "))
			if len(l) != 2 {
				res.Fail("table line "+l[0], "db/field/data", t.name, at+": not two columns")
				continue
			}
			if l[0] == "" || l[1] == "" || strings.TrimSpace(l[0]) != l[0] || strings.TrimSpace(l[1]) != l[1] {
				res.Fail("table line "+l[0], "db/field/data", t.name, at+": an empty side, or blanks around it")
			}
			if o, ok := m[l[0]]; ok && o != l[1] {
				res.Fail("one normal form "+l[0], "db/field/data", t.name, at+": also normalised to "+o)
			}
			m[l[0]] = l[1]
		}
		for _, k := range sortedKeysS(m) {
			res.Obligations++
			if n, ok := m[m[k]]; ok && n != m[k] {
				res.Fail("normal form is stable "+k, "db/field/data", t.name, fmt.Sprintf("%s: %s becomes %s, which becomes %s", t.name, k, m[k], n))
			}
		}
		if t.col != "" {
			cols[t.col] = m
		}
		res.Functions = append(res.Functions, fmt.Sprintf("%s: %d lines", t.name, len(m)))
	}
	common := map[string]bool{}
	if k := g.P.Pkg("db/field"); k != nil {
		for _, n := range k.Pkg.Scope().Names() {
			if cn, ok := k.Pkg.Scope().Lookup(n).(*types.Const); ok && cn.Val().Kind() == constant.String {
				common[constant.StringVal(cn.Val())] = true
			}
		}
	}
	for col := range cols {
		res.Obligations++
		if len(common) > 0 && !common[col] {
			res.Fail("table column", "db/field/data", "Load", "a table is loaded for "+col+", which is no common column")
		}
	}
	if len(cols) > 0 {
		for _, w := range []struct{ col, to string }{{"isp", "电信"}, {"isp", "联通"}, {"isp", "移动"}, {"province", "广西"}, {"province", "新疆"}, {"city", "广州"}} {
			res.Obligations++
			ok := false
			for _, v := range cols[w.col] {
				if v == w.to {
					ok = true
				}
			}
			if !ok {
				res.Fail("table column "+w.col, "db/field/data", "Load", fmt.Sprintf("no name of column %s is normalised to %s", w.col, w.to))
			}
		}
	}
	// districts
	dist := map[string]string{}
	for _, f := range g.Funcs {
		if !inPkg(f, "db/field/operate") {
			continue
		}
		for _, r := range Recodes(g, f) {
			if strings.HasPrefix(r.v, "华") || strings.HasPrefix(r.v, "东北") || strings.HasPrefix(r.v, "西北") || strings.HasPrefix(r.v, "西南") {
				if o, ok := dist[r.k]; ok && o != r.v {
					res.Fail("one district "+r.k, r.site, "province districts", fmt.Sprintf("%s is in %s and in %s", r.k, o, r.v))
				}
				dist[r.k] = r.v
			}
		}
	}
	if pm := cols["province"]; pm != nil && len(dist) > 0 {
		for _, k := range sortedKeysS(pm) {
			res.Obligations++
			if dist[pm[k]] == "" {
				res.Fail("province has a district "+pm[k], "db/field/operate", "province districts", pm[k]+" (normal form of "+k+") has no district")
			}
		}
		for _, p := range sortedKeysS(dist) {
			res.Obligations++
			if n, ok := pm[p]; ok && n != p {
				res.Fail("district of a normal name "+p, "db/field/operate", "province districts", p+" has a district, but is normalised to "+n)
			}
		}
		// the documented districts of a few provinces
		for p, d := range map[string]string{"黑龙江": "东北", "吉林": "东北", "辽宁": "东北", "新疆": "西北", "陕西": "西北", "北京": "华北", "内蒙古": "华北", "四川": "西南", "西藏": "西南", "湖北": "华中", "河南": "华中", "湖南": "华中", "上海": "华东", "山东": "华东", "福建": "华东", "台湾": "华东", "广东": "华南", "海南": "华南", "香港": "华南", "澳门": "华南",
			"青海": "西北", "宁夏": "西北", "甘肃": "西北", "河北": "华北", "山西": "华北", "天津": "华北", "重庆": "西南", "贵州": "西南", "云南": "西南", "江苏": "华东", "安徽": "华东", "浙江": "华东", "江西": "华东", "广西": "华南"} {
			res.Obligations++
			if dist[p] != d {
				res.Fail("district of "+p, "db/field/operate", "province districts", fmt.Sprintf("%s is in %q, want %s", p, dist[p], d))
			}
		}
	}
	return res, nil
}

func registry(c *Ctx) (*Result, error) {
	g := NewGraph(c.P)
	res := &Result{Rules: []string{
		"each registration runs unconditionally when its package is initialised, under a constant extension that a file name can have (one dot, at the front)",
		"no two formats share an extension, and none is registered twice",
		"what is registered for dump, query or pack is what is looked up for dump, query or pack",
		"the converter links every format that can be dumped or packed, the server and the lookup command every format that can be queried"},
		Explain: "Registrations are the calls that reach the registry's map updates from package initialisers; their constants, callees and the import graph are compared."}
	type reg struct {
		kind, ext, pkg, site string
		fn                   string
	}
	var regs []reg
	kinds := map[*ssa.Function]string{}
	pkgf := g.P.Pkg("db/format")
	if pkgf == nil {
		return nil, fmt.Errorf("no package db/format")
	}
	// the registry itself
	setG := map[string]*ssa.Global{}
	getG := map[string]map[*ssa.Global]string{}
	for _, f := range g.Funcs {
		if f.Pkg != pkgf || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.MapUpdate:
					v, ok := x.Value.(*ssa.Parameter)
					if !ok {
						continue
					}
					gl := mapGlobal(x.Map)
					kind := v.Type().String()
					kinds[f] = kind
					res.Obligations++
					if _, ok := x.Key.(*ssa.Parameter); !ok {
						if len(f.Params) > 0 && !dependsOn(x.Key, f.Params[0]) {
							res.Fail("registry", g.Site(x), short(f), "the format is not stored under the extension given")
						}
					}
					if gl != nil {
						if o := setG[kind]; o != nil && o != gl {
							res.Fail("registry", g.Site(x), short(f), "formats of one kind are stored in two maps")
						}
						setG[kind] = gl
					}
				case *ssa.Lookup:
					gl := mapGlobal(x.X)
					if gl == nil || len(f.Params) == 0 {
						continue
					}
					kind := f.Signature.Results().At(0).Type().String()
					if getG[kind] == nil {
						getG[kind] = map[*ssa.Global]string{}
					}
					getG[kind][gl] = g.Site(x)
				}
			}
		}
	}
	for kind, m := range getG {
		for gl, site := range m {
			res.Obligations++
			if s := setG[kind]; s != nil && s != gl {
				res.Fail("registry", site, kind, "looks up in "+gl.Name()+", but registration stores in "+s.Name())
			}
		}
	}
	for _, f := range g.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				cl, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := cl.Common().StaticCallee()
				kind := kinds[callee]
				if callee == nil || kind == "" {
					continue
				}
				ext, okc := strConst(cl.Common().Args[0])
				if !okc {
					continue
				}
				res.Obligations++
				fn := fmt.Sprintf("%p", cl.Common().Args[1])
				regs = append(regs, reg{kind, ext, load.PkgOf(f), g.Site(ins), fn})
				if !strings.HasPrefix(ext, ".") || strings.Count(ext, ".") != 1 || len(ext) < 2 || strings.ContainsAny(ext, "/\\ ,") || strings.ToLower(ext) != ext {
					res.Fail("extension", g.Site(ins), short(f), fmt.Sprintf("no file has the extension %q", ext))
				}
				if strings.HasPrefix(f.Name(), "init") && f.Parent() == nil {
					for _, x := range f.Blocks {
						if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !b.Dominates(x) {
							res.Fail("registration", g.Site(ins), short(f), "the format is registered under a condition")
						}
					}
				}
			}
		}
	}
	if len(regs) < 5 {
		return nil, fmt.Errorf("only %d registrations found", len(regs))
	}
	owner := map[string]reg{}
	twice := map[string]reg{}
	provides := map[string]map[string]bool{}
	for _, r := range regs {
		res.Obligations++
		if o, ok := owner[r.ext]; ok && o.pkg != r.pkg {
			res.Fail("one format per extension", r.site, r.pkg, r.ext+" also belongs to "+o.pkg)
		}
		owner[r.ext] = r
		k := r.kind + r.ext
		if _, ok := twice[k]; ok {
			res.Fail("registered once", r.site, r.pkg, r.ext+" is registered twice as "+r.kind)
		}
		twice[k] = r
		kn := r.kind[strings.LastIndexByte(r.kind, '.')+1:]
		if provides[kn] == nil {
			provides[kn] = map[string]bool{}
		}
		provides[kn][r.pkg] = true
		res.Samples = append(res.Samples, r.site+": "+r.ext+" "+kn)
	}
	// init functions are only run when linked
	for _, w := range []struct {
		cmd   string
		kinds []string
	}{{"cmd/converter", []string{"Dump", "Pack"}}, {"cmd/server", []string{"NewQuery"}}, {"cmd/simple", []string{"NewQuery"}}} {
		p := c.P.ByPath[load.ModPath+"/"+w.cmd]
		if p == nil {
			continue
		}
		linked := map[string]bool{}
		var walk func(t *types.Package)
		walk = func(t *types.Package) {
			if linked[t.Path()] {
				return
			}
			linked[t.Path()] = true
			for _, i := range t.Imports() {
				walk(i)
			}
		}
		walk(p.Types)
		for _, k := range w.kinds {
			for _, pk := range sortedKeys(provides[k]) {
				res.Obligations++
				if !linked[pk] {
					res.Fail("formats linked", w.cmd, w.cmd, pk+" (registered for "+k+") is not linked into the command")
				}
			}
		}
		res.Functions = append(res.Functions, w.cmd)
	}
	return res, nil
}

// globalOf is the package variable a map is read from.
func mapGlobal(v ssa.Value) *ssa.Global {
	if u, ok := v.(*ssa.UnOp); ok {
		if gl, ok := u.X.(*ssa.Global); ok {
			return gl
		}
	}
	return nil
}

func dependsOn(v ssa.Value, on ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value) bool
	f = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if v == on {
			return true
		}
		if ins, ok := v.(ssa.Instruction); ok {
			for _, op := range ins.Operands(nil) {
				if *op != nil && f(*op) {
					return true
				}
			}
		}
		return false
	}
	return f(v)
}
