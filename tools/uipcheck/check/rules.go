package check

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/bits"
)

func init() {
	register("C33", "proof", exportRules)
}

const ruleRule = "a rule gives its columns, with what its filters leave"

// ruleCond is a filter of a rule.
type ruleCond struct {
	not    bool
	key    int   // a column; -1: one the rule does not have
	values []int // see ruleText
	keep   []int // columns; -1 as above
	broken string
}

// ruleCell is a rule and rows it is used on. A value of a row is a text, or
// gone for one the row does not have; a column is absent if the database has
// none of the name.
type ruleCell struct {
	name    string
	cols    int
	absent  int // -1: none
	longer  bool
	conds   []ruleCond
	rows    [][]int
	renamed bool
}

const gone = -1

func ruleCells() []ruleCell {
	var l []ruleCell
	add := func(c ruleCell) { l = append(l, c) }
	// text 0 is the empty one
	add(ruleCell{name: "one column", cols: 1, absent: -1, rows: [][]int{{1}, {2}, {0}, {gone}}})
	add(ruleCell{name: "columns", cols: 4, absent: -1, rows: [][]int{{1, 2, 3, 4}, {1, 1, gone, 2}, {gone, gone, gone, gone}, {1, 2, 3, 4}}})
	add(ruleCell{name: "columns, one the database does not have", cols: 4, absent: 2, rows: [][]int{{1, 2, 3, 4}, {4, 3, 2, 1}}})
	add(ruleCell{name: "columns, the first the database does not have", cols: 2, absent: 0, rows: [][]int{{1, 2}, {4, 3}}})
	lists := map[string][]int{"the value": {1}, "another": {2}, "one of two, the first": {1, 2}, "one of two, the second": {2, 1}, "of two others": {2, 3}, "one of three": {2, 3, 1}, "of three others": {2, 3, 4}, "nothing": {0}, "nothing or the value": {0, 1}, "the value twice": {1, 1}}
	keeps := [][]int{{0}, {1}, {2}, {0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}, {0, 1, 2}, {2, 1, 0}, {1, 1}}
	for _, longer := range []bool{false, true} {
		for not := 0; not < 2; not++ {
			for key := 0; key < 3; key++ {
				for ln, vs := range lists {
					for _, keep := range keeps {
						for _, absent := range []int{-1, key} {
							if longer && absent == key {
								continue
							}
							var rows [][]int
							for _, r := range [][]int{{1, 5, 6}, {3, 5, 6}, {0, 5, 1}, {gone, 1, 6}, {1, gone, 1}, {4, 0, 0}, {1, 5, 6}} {
								x := make([]int, 3)
								for i := range r {
									x[(i+key)%3] = r[i]
								}
								rows = append(rows, x)
							}
							add(ruleCell{name: fmt.Sprintf("column %d is (negated: %d) %s, keeping %v", key, not, ln, keep), cols: 3, absent: absent, longer: longer,
								conds: []ruleCond{{not: not == 1, key: key, values: vs, keep: keep}}, rows: rows})
						}
					}
				}
			}
		}
	}
	// filters apply one after the other
	for not := 0; not < 4; not++ {
		for _, k2 := range []int{0, 1, 2} {
			for _, v2 := range [][]int{{1}, {2}, {0}, {0, 2}} {
				for _, keep := range [][2][]int{{{0}, {1}}, {{0, 1}, {1, 2}}, {{1, 2}, {0, 1}}, {{2}, {2}}, {{0, 2}, {0}}} {
					add(ruleCell{name: fmt.Sprintf("two filters, negated: %02b; columns 0 and %d; values [1] and %v; keeping %v", not, k2, v2, keep), cols: 3, absent: -1, conds: []ruleCond{
						{not: not&1 != 0, key: 0, values: []int{1}, keep: keep[0]},
						{not: not&2 != 0, key: k2, values: v2, keep: keep[1]},
					}, rows: [][]int{{1, 2, 3}, {2, 1, 3}, {1, 1, 1}, {2, 2, 2}, {0, gone, 1}, {gone, 0, 2}}})
				}
			}
		}
	}
	good := ruleCond{key: 1, values: []int{1, 2}, keep: []int{0, 1}}
	second := ruleCond{not: true, key: 0, values: []int{3}, keep: []int{0, 2}}
	rows := [][]int{{1, 2, 3}, {3, 1, 2}, {3, 4, 1}, {0, 0, 0}}
	for _, bad := range []ruleCond{
		{key: 0, values: []int{1}, keep: []int{-1}},
		{key: 0, values: []int{1}, keep: []int{0, -1}},
		{key: 0, values: []int{1}, keep: []int{-1, 0}},
		{key: 0, values: []int{1}, keep: []int{0, -1, 1}},
		{key: 0, values: []int{1}},
		{not: true, key: 0, values: []int{1}, keep: []int{0, 1, -1}},
		{key: -1, values: []int{1}, keep: []int{0}},
		{not: true, key: -1, values: []int{1}, keep: []int{0}},
		{not: true, key: -1, values: []int{1}, keep: []int{2, 1}},
		{broken: "", key: 0, values: []int{1}, keep: []int{0, 1, 2, -1}},
		{broken: "no colon", key: 0, values: []int{1}, keep: []int{1}},
		{broken: "no colon", not: true, key: 0, values: []int{1}, keep: []int{1, 2}},
		{broken: "two colons", key: 0, values: []int{1}, keep: []int{1}},
		{broken: "two colons", not: true, key: 0, values: []int{1}, keep: []int{1, 0}},
		{broken: "no equals", key: 0, keep: []int{1}},
		{broken: "no equals", key: 0, keep: []int{1, 2}},
		{broken: "two equals", key: 0, values: []int{1}, keep: []int{1}},
		{broken: "two equals", key: 0, not: true, values: []int{1}, keep: []int{1, 2}},
		{broken: "empty"},
	} {
		what := bad.broken
		if what == "" {
			what = "a column it does not have"
		}
		for i, cs := range [][]ruleCond{{bad}, {bad, good}, {good, bad}, {good, bad, second}, {bad, good, second}, {good, second, bad}} {
			add(ruleCell{name: fmt.Sprintf("a group with %s %v, place %d", what, bad.keep, i), cols: 3, absent: -1, conds: cs, rows: rows})
		}
	}
	for i, cs := range [][]ruleCond{{good, second}, {second, good}, {good, second, {key: 2, values: []int{3, 2, 1}, keep: []int{2}}}, {good, good}} {
		add(ruleCell{name: fmt.Sprintf("filters %d", i), cols: 3, absent: -1, conds: cs, rows: rows})
		add(ruleCell{name: fmt.Sprintf("filters %d, no first column", i), cols: 3, absent: 0, conds: cs, rows: rows})
	}
	return l
}

// holds tells whether the filter matches a value.
func (c ruleCond) matches(v int) bool {
	in := false
	for _, x := range c.values {
		in = in || x == v
	}
	return in != c.not
}

// want is what a row becomes.
func (rc ruleCell) want(row []int) []int {
	r := make([]int, rc.cols)
	for i := range r {
		if row[i] != gone && i != rc.absent {
			r[i] = row[i]
		}
	}
	for _, c := range rc.conds {
		bad := c.broken != "" || c.key < 0 || len(c.keep) == 0
		for _, k := range c.keep {
			bad = bad || k < 0
		}
		if bad || !c.matches(r[c.key]) {
			continue
		}
		x := make([]int, rc.cols)
		for _, k := range c.keep {
			x[k] = r[k]
		}
		r = x
	}
	return r
}

// ruleSeps are the bytes that mean something in a rule.
const ruleSeps = "|,:=!/"

// dynamic is the method of the type a value has.
func (b *bitRun) dynamic(v bits.Value, name string) (*ssa.Function, bits.Value) {
	i, ok := v.(*bits.Iface)
	if !ok || i.T == nil {
		return nil, nil
	}
	ms := b.c.P.SSA.MethodSets.MethodSet(i.T)
	for k := 0; k < ms.Len(); k++ {
		if f := b.c.P.SSA.MethodValue(ms.At(k)); f != nil && ms.At(k).Obj().Name() == name {
			return f, i.V
		}
	}
	return nil, nil
}

func exportRules(c *Ctx) (*Result, error) {
	b := newBitRun(c, "The reading of export rules is interpreted on rules of free names and values, and what it gives on rows that have them, others, empty ones or none.")
	b.res.Rules = []string{ruleRule}
	parse, err := b.fn("db/field/export", "ParseRule")
	if err != nil {
		return nil, err
	}
	cells := ruleCells()
	if f := os.Getenv("CELL"); f != "" {
		var keep []ruleCell
		for _, c := range cells {
			if strings.Contains(c.name, f) {
				keep = append(keep, c)
			}
		}
		cells = keep
	}
	t := b.newTextRun(parse.Pkg)
	outs := b.run(t.m, parse, t.m.Str(""))
	if o, ok := b.single(t.m, ruleRule, parse, outs, "the empty rule"); ok {
		if e, ok := o.Res[0].(*bits.Iface); !ok || o.Bit(e.Nil) != 1 {
			b.fail(ruleRule, parse, "for the empty rule: an exporter, where there is none"+notes(t.m))
		}
	}
	b.each(len(cells), func(i int) { b.ruleCell(parse, cells[i]) })
	b.sample("%d classes of rules, with the rows they are used on", len(cells))
	return b.done(), nil
}

func (b *bitRun) ruleCell(parse *ssa.Function, rc ruleCell) {
	t := b.newTextRun(parse.Pkg)
	m := t.m
	bad := func(f *ssa.Function, s string, a ...interface{}) {
		if os.Getenv("ALLCELLS") != "" {
			fmt.Printf("BAD %s: %s\n", rc.name, fmt.Sprintf(s, a...)+notes(m))
		}
		b.fail(ruleRule, f, "for "+rc.name+": "+fmt.Sprintf(s, a...)+notes(m))
	}
	var firsts []*bits.Int
	free := func(name string) []bits.Value {
		x := t.plain(name, 2)
		for _, y := range x {
			for k := 0; k < len(ruleSeps); k++ {
				m.Assume(m.Equal(y.(*bits.Int), m.Const(uint64(ruleSeps[k]), 8, false)), false)
			}
		}
		f := x[0].(*bits.Int)
		for _, o := range firsts {
			m.Assume(m.Equal(f, o), false)
		}
		firsts = append(firsts, f)
		return x
	}
	// names and values that others begin with
	cut := func(x []bits.Value) []bits.Value { return x[:1:1] }
	var cols [][]bits.Value
	for i := 0; i < rc.cols; i++ {
		x := free(fmt.Sprintf("c%d", i))
		if rc.longer && i == 1 {
			x = cut(cols[0])
		}
		if rc.longer && i == 2 {
			x = append(append([]bits.Value(nil), cols[0]...), x...)
		}
		cols = append(cols, x)
	}
	none := free("none")
	col := func(i int) []bits.Value {
		if i < 0 {
			return none
		}
		return cols[i]
	}
	texts := [][]bits.Value{nil}
	for i := 1; i < 7; i++ {
		x := free(fmt.Sprintf("v%d", i))
		if rc.longer && i == 2 {
			x = append(append([]bits.Value(nil), texts[1]...), x...)
		}
		if rc.longer && i == 3 {
			x = cut(texts[1])
		}
		texts = append(texts, x)
	}
	join := func(l [][]bits.Value, sep string) []bits.Value {
		var r []bits.Value
		for i, x := range l {
			if i > 0 {
				r = append(r, t.lit(sep)...)
			}
			r = append(r, x...)
		}
		return r
	}
	groups := [][]bits.Value{join(cols, ",")}
	for _, c := range rc.conds {
		if c.broken == "empty" {
			groups = append(groups, nil)
			continue
		}
		var vs, ks [][]bits.Value
		for _, v := range c.values {
			vs = append(vs, texts[v])
		}
		for _, k := range c.keep {
			ks = append(ks, col(k))
		}
		g := append([]bits.Value(nil), col(c.key)...)
		if c.broken != "no equals" {
			g = append(g, t.lit("=")...)
		}
		if c.broken == "two equals" {
			g = append(append(g, texts[4]...), t.lit("=")...)
		}
		if c.not {
			g = append(g, t.lit("!")...)
		}
		g = append(g, join(vs, "/")...)
		if c.broken == "no colon" {
			g = append(g, t.lit(",")...)
		} else {
			g = append(g, t.lit(":")...)
		}
		if c.broken == "two colons" {
			g = append(append(g, cols[0]...), t.lit(":")...)
		}
		groups = append(groups, append(g, join(ks, ",")...))
	}
	outs := b.run(m, parse, t.str(join(groups, "|")))
	if len(outs) != 1 {
		bad(parse, "%d outcomes where one is expected", len(outs))
		return
	}
	o := outs[0]
	exp := o.Res[0]
	export, self := b.dynamic(exp, "Export")
	fields, _ := b.dynamic(exp, "Fields")
	if export == nil || fields == nil {
		bad(parse, "there is no exporter")
		return
	}
	str := types.Typ[types.String]
	mt := types.NewMap(str, str)
	pt := b.typeOf("db/field", "Pair")
	var pairs []bits.Value
	for i, c := range cols {
		if i == rc.absent {
			pairs = append(pairs, m.Zero(pt))
			continue
		}
		pairs = append(pairs, named(m, pt, map[string]bits.Value{"Ext": t.str(c), "Intern": m.Str(fmt.Sprintf("in%d", i))}))
	}
	pl := m.List(pt, pairs...)
	var results []bits.Value
	same := func(o bits.Outcome, v bits.Value, want [][]bits.Value) string {
		l, ok := v.(*bits.Slice)
		if !ok || m.Len(o, l) != len(want) {
			return "there is not one for each column"
		}
		for i, w := range want {
			if !sameText(m, o, m.ElemAt(o, l, i), t.str(w)) {
				return fmt.Sprintf("column %d", i)
			}
		}
		return ""
	}
	wants := func(row []int) [][]bits.Value {
		var r [][]bits.Value
		for _, k := range rc.want(row) {
			r = append(r, texts[k])
		}
		return r
	}
	for k, row := range rc.rows {
		// in another order than the columns have
		var ps []bits.Pair
		for i := len(row) - 1; i >= 0; i-- {
			if v := row[i]; v != gone {
				ps = append(ps, bits.Pair{K: m.Str(fmt.Sprintf("in%d", i)), V: t.str(texts[v])})
			}
		}
		data := m.Map(mt, ps...)
		b.saw(export)
		outs := m.RunFrom(o, export, self, pl, data)
		if len(outs) != 1 {
			bad(export, "row %d: %d outcomes where one is expected", k, len(outs))
			return
		}
		o = outs[0]
		if d := same(o, o.Res[0], wants(row)); d != "" {
			bad(export, "row %d %v: the values are not those of the rule: %s", k, row, d)
			return
		}
		results = append(results, o.Res[0])
		after, ok := m.Entries(o, data)
		if !ok || len(after) != len(ps) {
			bad(export, "the row's own values are changed")
			return
		}
		for i := range ps {
			if !sameText(m, o, after[i].V, ps[i].V) {
				bad(export, "the row's own values are changed")
				return
			}
		}
	}
	for k, r := range results {
		if d := same(o, r, wants(rc.rows[k])); d != "" {
			bad(export, "what was given for row %d is changed by a later one", k)
			return
		}
	}
	b.saw(fields)
	outs = m.RunFrom(o, fields, self)
	if len(outs) != 1 || same(outs[0], outs[0].Res[0], cols) != "" {
		bad(fields, "the columns are not those of the rule")
	}
}
