package check

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/bits"
)

func init() {
	register("C34", "proof", operations)
}

const opRule = "an operation does what it is for, and nothing else"

// opRow is a row. Its values are known texts, or names of free ones: those
// beginning with ~.
type opRow struct {
	net    string // "": one of free bits
	values []string
	shares int    // the row whose list of values it shares, counted from one
	line   string // what the database of lines says; "fail": nothing
}

// opCell is data an operation is used on, and what it becomes.
type opCell struct {
	name    string
	fields  []string
	rows    []opRow
	table   map[string]map[string]string // of normalised names; of lines, by number, under ""
	want    []string
	out     [][]string // values of the rows
	nets    []string   // their networks, if not those of the rows
	extra   string     // "line": the name of the database of lines is added; "asn": that of the table is
	count   bool       // the number of rows is noted
	nilRows bool
}

// opKind is an operation with the data it is used on.
type opKind struct {
	name  string
	cells []opCell
}

func rowsOf(vs ...[]string) []opRow {
	var l []opRow
	for _, v := range vs {
		l = append(l, opRow{values: v})
	}
	return l
}

func index(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

func copyAll(rows []opRow) [][]string {
	var r [][]string
	for _, x := range rows {
		r = append(r, append([]string(nil), x.values...))
	}
	return r
}

// districts are the provinces of each part of the country.
var districts = map[string]string{
	"东北": "黑龙江 辽宁 吉林",
	"西北": "新疆 青海 宁夏 甘肃 陕西",
	"华北": "内蒙古 河北 山西 天津 北京",
	"西南": "西藏 四川 重庆 贵州 云南",
	"华中": "湖南 湖北 河南",
	"华东": "山东 江苏 安徽 浙江 江西 福建 上海 台湾",
	"华南": "广东 广西 海南 香港 澳门",
}

func districtOf(p string) string {
	for d, l := range districts {
		for _, x := range strings.Fields(l) {
			if x == p {
				return d
			}
		}
	}
	return ""
}

func districtCells() []opCell {
	var cells []opCell
	values := []string{"", "~a", "~b"}
	for _, l := range []string{"东北", "西北", "华北", "西南", "华中", "华东", "华南"} {
		values = append(values, strings.Fields(districts[l])...)
	}
	for _, fields := range [][]string{{"province"}, {"province", "district"}, {"district", "province"}, {"country", "province", "city", "isp"}, {"district", "country", "province"}} {
		for k, p := range values {
			// with a row before and one after
			var rows []opRow
			for i, x := range []string{values[(k+5)%len(values)], p, values[(k+11)%len(values)]} {
				var vs []string
				for j, f := range fields {
					if f == "province" {
						vs = append(vs, x)
					} else {
						vs = append(vs, fmt.Sprintf("~v%d.%d", i, j))
					}
				}
				rows = append(rows, opRow{values: vs})
			}
			for _, shares := range []int{0, 2} {
				if shares > 0 {
					rows = append(rows, opRow{values: rows[1].values, shares: 2})
				}
				c := opCell{name: fmt.Sprintf("province %q of %v, shared %d", p, fields, shares), fields: fields, rows: rows, out: copyAll(rows), want: fields}
				at := index(fields, "district")
				if at < 0 {
					c.want = append(append([]string(nil), fields...), "district")
				}
				for i := range c.out {
					d := districtOf(c.out[i][index(fields, "province")])
					if at < 0 {
						c.out[i] = append(c.out[i], d)
					} else {
						c.out[i][at] = d
					}
				}
				cells = append(cells, c)
			}
		}
	}
	for _, fields := range [][]string{{"country"}, {"district"}, {"country", "city"}} {
		rows := rowsOf([]string{"北京", "~x"}[:len(fields)], []string{"~y", "北京"}[:len(fields)])
		cells = append(cells, opCell{name: fmt.Sprintf("no province in %v", fields), fields: fields, rows: rows, want: fields, out: copyAll(rows)})
	}
	cells = append(cells, opCell{name: "no rows", fields: []string{"province"}, want: []string{"province", "district"}, nilRows: true})
	return cells
}

var mainIsps = []string{"电信", "联通", "移动", "铁通"}

func trimmed(fields []string, rows [][]string) {
	isp, asn := index(fields, "isp"), index(fields, "asn")
	if isp < 0 || asn < 0 {
		return
	}
	of := map[string]string{}
	for _, m := range mainIsps {
		for _, r := range rows {
			if r[isp] == m && of[r[asn]] == "" {
				of[r[asn]] = m
			}
		}
	}
	for _, r := range rows {
		if r[asn] != "" && index(mainIsps, r[isp]) < 0 && of[r[asn]] != "" {
			r[isp] = of[r[asn]]
		}
	}
}

func trimCells() []opCell {
	var cells []opCell
	add := func(name string, fields []string, rows []opRow) {
		c := opCell{name: fmt.Sprintf("%s: %v of %v", name, copyAll(rows), fields), fields: fields, rows: rows, want: fields, out: copyAll(rows)}
		trimmed(fields, c.out)
		cells = append(cells, c)
	}
	isps, asns := []string{"电信", "移动", "~a", ""}, []string{"~x", "~y", ""}
	n := len(isps) * len(asns)
	for k := 0; k < n*n*n; k++ {
		var rows []opRow
		for i, x := 0, k; i < 3; i, x = i+1, x/n {
			rows = append(rows, opRow{values: []string{isps[x%n%len(isps)], fmt.Sprintf("~c%d", i), asns[x%n/len(isps)]}})
		}
		add("", []string{"isp", "country", "asn"}, rows)
	}
	// each of two main ones with the same number
	for _, a := range mainIsps {
		for _, b := range mainIsps {
			for _, o := range []string{"~a", "", "教育网", "电信通"} {
				add("", []string{"asn", "isp"}, rowsOf([]string{"~x", o}, []string{"~x", a}, []string{"~x", b}, []string{"~y", o}))
				add("", []string{"asn", "isp"}, rowsOf([]string{"~x", a}, []string{"~y", b}, []string{"~x", o}, []string{"~y", o}))
			}
		}
	}
	shared := []opRow{{values: []string{"~a", "~x"}}, {values: []string{"~a", "~x"}, shares: 1}, {values: []string{"联通", "~x"}}, {values: []string{"联通", "~x"}, shares: 3}}
	add("shared", []string{"isp", "asn"}, shared)
	for _, fields := range [][]string{{"isp", "country"}, {"asn", "country"}, {"country", "line"}} {
		add("a column is missing", fields, rowsOf([]string{"电信", "~x"}, []string{"~x", "~x"}, []string{"~a", "~x"}))
	}
	return cells
}

func replaceCells() []opCell {
	var cells []opCell
	tables := map[string]map[string]string{
		"isp":      {"中国电信": "电信", "电信": "电信", "~long": "~short", "中国": "~wrong"},
		"province": {"北京市": "北京", "~pl": "~ps", "~gone": ""},
		"city":     {},
	}
	add := func(name string, fields []string, rows []opRow) {
		c := opCell{name: fmt.Sprintf("%s: %v of %v", name, copyAll(rows), fields), fields: fields, rows: rows, want: fields, out: copyAll(rows), table: tables}
		for _, r := range c.out {
			for i, f := range fields {
				if v, ok := tables[f][r[i]]; ok {
					r[i] = v
				}
			}
		}
		cells = append(cells, c)
	}
	values := []string{"中国电信", "电信", "~long", "~short", "北京市", "北京", "~pl", "~gone", "~other", "", "中国"}
	for _, fields := range [][]string{{"isp", "province", "country"}, {"country", "isp", "city"}, {"city", "country", "province"}, {"province", "line", "isp"}, {"country", "line", "asn"}, {"isp"}, {"province"}} {
		for _, a := range values {
			for _, b := range values {
				r1, r2 := []string{a, b, a}[:len(fields)], []string{b, a, b}[:len(fields)]
				add("", fields, rowsOf(r1, r2, r1))
				add("shared", fields, []opRow{{values: r1}, {values: r1, shares: 1}, {values: r2}})
			}
		}
	}
	return cells
}

// merged are networks and values with those joined that are next to each
// other, in order, and have the same values.
func merged(nets []string, rows [][]string) (ns []string, vs [][]string) {
	var lo, end *big.Int
	one := big.NewInt(1)
	size := 0
	var cur []string
	flush := func() {
		if size == 0 {
			return
		}
		for _, c := range cidrs(lo, end, size) {
			ns, vs = append(ns, c), append(vs, cur)
		}
	}
	for i, n := range nets {
		a, b, k := ends(n)
		if size == k && fmt.Sprint(cur) == fmt.Sprint(rows[i]) && new(big.Int).Add(end, one).Cmp(a) == 0 {
			end = b
			continue
		}
		flush()
		lo, end, size, cur = a, b, k, rows[i]
	}
	flush()
	return
}

func mergeCells() []opCell {
	var cells []opCell
	lists := [][]string{
		{"0.0.0.0/0"}, {"0.0.0.0/1", "128.0.0.0/1"}, {"1.0.0.0/24", "1.0.1.0/24", "1.0.2.0/23"},
		{"1.0.0.0/24", "1.0.2.0/24", "1.0.3.0/24"}, {"1.0.1.0/24", "1.0.0.0/24", "1.0.3.0/24"},
		{"1.0.0.0/23", "1.0.2.0/24", "1.0.3.0/25"}, {"10.0.0.255/32", "10.0.1.0/32", "10.0.1.1/32"},
		{"0.0.0.0/2", "64.0.0.0/3", "96.0.0.0/4", "112.0.0.0/5"}, {"1.0.0.0/24", "1.0.1.0/25", "1.0.1.128/26", "1.0.1.224/27"},
		{"255.255.255.252/31", "255.255.255.254/32", "255.255.255.255/32"}, {"255.255.255.255/32", "0.0.0.0/32"},
		{"126.0.0.0/8", "127.0.0.0/8", "128.0.0.0/8"}, {"223.255.255.0/24", "224.0.0.0/24", "0.0.0.0/8"},
		{"::/0"}, {"::/1", "8000::/1"}, {"2001:db8::/48", "2001:db8:1::/48", "2001:db8:2::/47"},
		{"2001:db8:0:1::/64", "2001:db8:0:2::/64", "2001:db8:0:4::/64"}, {"ffff:ffff:ffff:ffff:ffff:ffff:ffff:fffe/128", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff/128"},
		{"2000::/16", "2001::/17", "2001:8000::/18"}, {"::1:0:0/96", "::2:0:0/96", "::3:0:0/96"},
	}
	for _, nets := range lists {
		n := len(nets)
		for pat := 0; pat < 1<<uint(n); pat++ {
			for _, kind := range []string{"values", "a shared list", "the first value", "the last value"} {
				var rows []opRow
				seen := map[int]int{}
				for i, c := range nets {
					bit := pat >> uint(i) & 1
					r := opRow{net: c, values: []string{fmt.Sprintf("~p%d", bit), fmt.Sprintf("~q%d", bit)}}
					switch kind {
					case "the first value":
						r.values[1] = "~q"
					case "the last value":
						r.values[0] = "~p"
					case "a shared list":
						if k := seen[bit]; k > 0 {
							r.shares = k
						} else {
							seen[bit] = i + 1
						}
					}
					rows = append(rows, r)
				}
				c := opCell{name: fmt.Sprintf("%v with values by %0*b, different in %s", nets, n, pat, kind), fields: []string{"country", "isp"}, rows: rows, want: []string{"country", "isp"}, count: true}
				c.nets, c.out = merged(nets, copyAll(rows))
				cells = append(cells, c)
			}
		}
	}
	return append(cells, opCell{name: "no rows", fields: []string{"country"}, want: []string{"country"}, count: true, nilRows: true})
}

func lineOf(r opRow, country string) string {
	if country != "中国" || r.line == "fail" {
		return ""
	}
	switch l := strings.Split(r.line, "/")[0]; l {
	case "", "电信", "联通", "移动":
		return l
	case "铁通":
		return "移动"
	}
	return "电信"
}

var lineTexts = []string{"电信", "联通", "移动", "铁通", "阿里云", "~l", "", "fail", "电信/联通", "联通/移动/~l", "移动/电信", "铁通/联通", "~l/联通", "/移动", "教育网/移动", "电信通", "中国移动"}

func lineCells(replace bool) []opCell {
	var cells []opCell
	into := "line"
	if replace {
		into = "isp"
	}
	for _, fields := range [][]string{{"country"}, {"country", into}, {into, "country"}, {"city", "country", "province", into, "asn"}, {"isp", "country", "line"}, {"line"}, {"isp", "city"}} {
		for k, l := range lineTexts {
			for _, country := range []string{"中国", "~c", "", "中国香港"} {
				for _, shared := range []bool{false, true} {
					var rows []opRow
					mk := func(i int, c, line string) {
						r := opRow{line: line}
						for j, f := range fields {
							if f == "country" {
								r.values = append(r.values, c)
							} else {
								r.values = append(r.values, fmt.Sprintf("~v%d.%d", i, j))
							}
						}
						rows = append(rows, r)
					}
					mk(0, country, l)
					if shared {
						// one list, two networks
						rows = append(rows, opRow{values: rows[0].values, shares: 1, line: lineTexts[(k+1)%len(lineTexts)]})
						rows = append(rows, opRow{values: rows[0].values, shares: 1, line: lineTexts[(k+4)%len(lineTexts)]})
					} else {
						mk(1, "中国", lineTexts[(k+3)%len(lineTexts)])
						mk(2, "~c", lineTexts[(k+1)%len(lineTexts)])
					}
					c := opCell{name: fmt.Sprintf("line %q of a network in %q of %v, shared %v", l, country, fields, shared), fields: fields, rows: rows, want: fields, out: copyAll(rows), extra: "line"}
					at, cn := index(fields, into), index(fields, "country")
					switch {
					case cn < 0, replace && at < 0:
					case replace:
						for i := range c.out {
							if x := lineOf(rows[i], c.out[i][cn]); x != "" {
								c.out[i][at] = x
							}
						}
					default:
						if at < 0 {
							c.want = append(append([]string(nil), fields...), into)
						}
						for i := range c.out {
							x := lineOf(rows[i], c.out[i][cn])
							if at < 0 {
								c.out[i] = append(c.out[i], x)
							} else {
								c.out[i][at] = x
							}
						}
					}
					cells = append(cells, c)
				}
			}
		}
	}
	return cells
}

func asnCells() []opCell {
	var cells []opCell
	table := map[string]string{"~x": "~lx", "4134": "电信", "413": "~wrong", "4837": "联通"}
	values := []string{"~x", "4134", "4837", "413", "41340", "~y", ""}
	for _, fields := range [][]string{{"asn"}, {"country", "asn"}, {"asn", "isp"}, {"country", "isp"}, {"line", "country"}} {
		for k := range values {
			var rows []opRow
			for i := 0; i < 3; i++ {
				var vs []string
				for j, f := range fields {
					if f == "asn" {
						vs = append(vs, values[(k+2*i)%len(values)])
					} else {
						vs = append(vs, fmt.Sprintf("~v%d.%d", i, j))
					}
				}
				rows = append(rows, opRow{values: vs})
			}
			rows = append(rows, opRow{values: rows[1].values, shares: 2})
			c := opCell{name: fmt.Sprintf("%v of %v", copyAll(rows), fields), fields: fields, rows: rows, want: fields, out: copyAll(rows), extra: "asn", table: map[string]map[string]string{"": table}}
			if at := index(fields, "asn"); at >= 0 {
				c.want = append(append([]string(nil), fields...), "line")
				for i := range c.out {
					c.out[i] = append(c.out[i], table[c.out[i][at]])
				}
			}
			cells = append(cells, c)
		}
	}
	return cells
}

// defaultCells are for the operations a conversion uses, one after the other.
func defaultCells() []opCell {
	var cells []opCell
	tables := map[string]map[string]string{"isp": {"中国电信": "电信", "~long": "~a"}, "city": {"北京市": "北京"}}
	fields := []string{"city", "isp", "asn"}
	nets := []string{"1.0.0.0/24", "1.0.1.0/24", "1.0.2.0/23"}
	vals := [][]string{{"北京", "电信", "~x"}, {"北京市", "中国电信", "~x"}, {"北京", "~a", "~x"}, {"北京市", "~long", "~x"}, {"北京", "~long", "~y"}, {"北京", "~a", "~y"}}
	for k := 0; k < 6*6*6; k++ {
		c := opCell{name: fmt.Sprintf("rows %d %d %d", k/36, k/6%6, k%6), fields: fields, want: fields, table: tables, count: true}
		for i, v := range []int{k / 36, k / 6 % 6, k % 6} {
			c.rows = append(c.rows, opRow{net: nets[i], values: vals[v]})
		}
		out := copyAll(c.rows)
		for _, r := range out {
			for i, f := range fields {
				if v, ok := tables[f][r[i]]; ok {
					r[i] = v
				}
			}
		}
		trimmed(fields, out)
		c.nets, c.out = merged(nets, out)
		cells = append(cells, c)
	}
	return cells
}

func operations(c *Ctx) (*Result, error) {
	b := newBitRun(c, "Every operation on dumped data is interpreted on rows of free and of known values, on their own and sharing their lists, and compared with what it is for.")
	b.res.Rules = []string{opRule}
	kinds := []opKind{
		{"AttachDistrict", districtCells()}, {"TrimAsnIspDup", trimCells()}, {"ReplaceShortage", replaceCells()}, {"MergeNearNetwork", mergeCells()},
		{"AttachLineByCidr", lineCells(false)}, {"ReplaceLineByCidr", lineCells(true)}, {"AttachLineByAsn", asnCells()}, {"DefaultOperates", defaultCells()},
	}
	type job struct {
		name string
		f    *ssa.Function
		c    opCell
	}
	var jobs []job
	for _, k := range kinds {
		var f *ssa.Function
		if k.name != "DefaultOperates" {
			var err error
			if f, err = b.fn("db/field/operate", k.name); err != nil {
				return nil, err
			}
		}
		for _, c := range k.cells {
			c.name = k.name + ": " + c.name
			if s := os.Getenv("CELL"); s == "" || strings.Contains(c.name, s) {
				jobs = append(jobs, job{k.name, f, c})
			}
		}
		b.sample("%s: %d classes of data", k.name, len(k.cells))
	}
	b.each(len(jobs), func(i int) { b.opCell(jobs[i].name, jobs[i].f, jobs[i].c) })
	return b.done(), nil
}

func (b *bitRun) opCell(op string, f *ssa.Function, oc opCell) {
	pkg := b.c.P.Pkg("db/field/operate")
	t := b.newTextRun(pkg)
	m := t.m
	bad := func(s string, a ...interface{}) {
		if os.Getenv("ALLCELLS") != "" {
			fmt.Printf("BAD %s: %s\n", oc.name, fmt.Sprintf(s, a...)+notes(m))
		}
		b.fail(opRule, f, "for "+oc.name+": "+fmt.Sprintf(s, a...)+notes(m))
	}
	free := map[string][]bits.Value{}
	text := func(s string) *bits.Slice {
		if !strings.Contains(s, "~") {
			return m.Str(s)
		}
		var r []bits.Value
		for i, p := range strings.Split(s, "/") {
			if i > 0 {
				r = append(r, t.lit("/")...)
			}
			if !strings.HasPrefix(p, "~") {
				r = append(r, t.lit(p)...)
				continue
			}
			if free[p] == nil {
				x := t.plain("t"+p, 2)
				for _, o := range free {
					m.Assume(m.Equal(o[0].(*bits.Int), x[0].(*bits.Int)), false)
				}
				free[p] = x
			}
			r = append(r, free[p]...)
		}
		return t.str(r)
	}
	str := types.Typ[types.String]
	mt := types.NewMap(str, str)
	raw, data := b.typeOf("db/inf", "IpRaw"), b.typeOf("db/inf", "IpData")
	table := func(l map[string]string) bits.Value {
		var ps []bits.Pair
		for _, k := range sortedKeysS(l) {
			ps = append(ps, bits.Pair{K: text(k), V: text(l[k])})
		}
		return m.Map(mt, ps...)
	}
	if p := b.c.P.Pkg("db/field/data"); p != nil {
		if g, ok := p.Members["NormalizedMap"].(*ssa.Global); ok {
			var ps []bits.Pair
			for _, k := range []string{"city", "isp", "province"} {
				if l, ok := oc.table[k]; ok {
					ps = append(ps, bits.Pair{K: m.Str(k), V: table(l)})
				}
			}
			m.SetGlobal(g, m.Map(types.NewMap(str, mt), ps...))
		} else {
			bad("the table of normalised names is not there")
			return
		}
	}
	version := func(name string) *bits.Struct {
		return m.Input(b.typeOf("db/inf", "VersionInfo"), name).(*bits.Struct)
	}
	vers := version("version")
	vt := vers.T.Underlying().(*types.Struct)
	for i := range vers.F {
		if vt.Field(i).Name() == "ExtraInfo" {
			vers.F[i] = m.List(str, text("~e0"))
		}
	}
	var rows, fs []bits.Value
	var nets []wantRow
	lists := map[int]bits.Value{}
	for i, r := range oc.rows {
		var ptr *bits.Ptr
		var w wantRow
		if r.net != "" {
			w.ip, w.mask, ptr = t.netBytes(r.net)
		} else {
			w.ip, w.mask, ptr = t.network(fmt.Sprintf("n%d.", i), i%2 == 1, 11+5*i, false)
		}
		nets = append(nets, w)
		var vs bits.Value
		if r.shares > 0 {
			vs = lists[r.shares]
		} else {
			var l []bits.Value
			for _, v := range r.values {
				l = append(l, text(v))
			}
			vs = m.List(str, l...)
		}
		lists[i+1] = vs
		rows = append(rows, named(m, raw, map[string]bits.Value{"Cidr": ptr, "FieldValues": vs}))
	}
	for _, f := range oc.fields {
		fs = append(fs, m.Str(f))
	}
	ips := m.List(raw, rows...)
	if oc.nilRows {
		ips = m.NilSlice()
	}
	vp := m.New(vers)
	ipd := m.New(named(m, data, map[string]bits.Value{"Fields": m.List(str, fs...), "Version": vp, "Ips": ips}))
	// the database of lines
	lv := version("lines")
	for i := range lv.F {
		if vt.Field(i).Name() == "Version" {
			lv.F[i] = text("~lv")
		}
	}
	lines := []*bits.Slice{}
	for _, r := range oc.rows {
		lines = append(lines, text(r.line))
	}
	isp, country := text("~i1"), text("~i2")
	for _, l := range oc.out {
		for _, v := range l {
			text(v)
		}
	}
	query := b.typeOf("db/inf", "Query")
	info := b.typeOf("db/inf", "IpInfo")
	m.Models["("+query.String()+").VersionInfo"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		return []bits.Ret{{V: m.New(lv)}}
	}
	m.Models["("+query.String()+").Query"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		ip, ok := m.Content(s.StateOf(), args[1])
		if ok {
			for i, n := range nets {
				if diffBytes(m, form16(m, ip), form16(m, n.ip)) != "" {
					continue
				}
				n := m.Input(types.Typ[types.Int], "bits")
				if oc.rows[i].line == "fail" {
					return []bits.Ret{{V: bits.Tuple{&bits.Ptr{}, n, &bits.Iface{Key: "no line"}}}}
				}
				return []bits.Ret{{V: bits.Tuple{m.New(named(m, info, map[string]bits.Value{"Line": lines[i], "Isp": isp, "Country": country})), n, &bits.Iface{Nil: 1}}}}
			}
		}
		m.Notes = append(m.Notes, "a line is looked up for no network of the data")
		return nil
	}
	fn := []*bits.Func{{Fn: f}}
	if f == nil {
		fn = nil
		g, ok := pkg.Members["DefaultOperates"].(*ssa.Global)
		if !ok {
			bad("they are not there")
			return
		}
		o := bits.Outcome{}.Fresh()
		l, ok := m.Deref(o, m.GlobalPtr(g)).(*bits.Slice)
		if !ok || m.Len(o, l) < 0 {
			bad("which they are is not known")
			return
		}
		for i := 0; i < m.Len(o, l); i++ {
			x, ok := m.ElemAt(o, l, i).(*bits.Func)
			if !ok {
				bad("which they are is not known")
				return
			}
			fn = append(fn, x)
		}
	}
	var o bits.Outcome
	for i, g := range fn {
		args := []bits.Value{ipd}
		switch op {
		case "AttachLineByCidr", "ReplaceLineByCidr":
			args = append(args, &bits.Iface{Key: "lines"})
		case "AttachLineByAsn":
			args = append(args, table(oc.table[""]), text("~e1"))
		}
		if len(args) != len(g.Fn.Params) {
			bad("it takes other arguments")
			return
		}
		var outs []bits.Outcome
		if i == 0 {
			outs = b.run(m, g.Fn, args...)
		} else {
			b.saw(g.Fn)
			outs = m.RunFrom(o, g.Fn, args...)
		}
		if len(outs) != 1 {
			bad("%d outcomes where one is expected", len(outs))
			return
		}
		o = outs[0]
	}
	if len(fn) == 0 {
		bad("there are none")
		return
	}
	var want []wantRow
	for i, l := range oc.out {
		var w wantRow
		if oc.nets != nil {
			w.ip, w.mask, _ = t.netBytes(oc.nets[i])
		} else {
			w.ip, w.mask = nets[i].ip, nets[i].mask
		}
		for _, v := range l {
			w.values = append(w.values, text(v))
		}
		want = append(want, w)
	}
	if msg := b.rowsAre(m, o, ipd, oc.want, want); msg != "" {
		bad("%s", msg)
		return
	}
	s := m.Deref(o, ipd).(*bits.Struct)
	v, ok := m.Deref(o, fieldOf(s, "Version")).(*bits.Struct)
	if !ok {
		bad("the version is not known")
		return
	}
	for i := range v.F {
		switch n := vt.Field(i).Name(); {
		case n == "ExtraInfo":
			ws := []*bits.Slice{text("~e0")}
			switch oc.extra {
			case "line":
				x := m.Resize(fieldOf(lv, "Build").(*bits.Int), 64, true)
				name := append(append([]bits.Value(nil), free["~lv"]...), t.lit("-")...)
				ws = append(ws, t.str(append(name, t.textOf("number", m.Key(x), "", x)...)))
			case "asn":
				ws = append(ws, text("~e1"))
			}
			l, ok := v.F[i].(*bits.Slice)
			if !ok || m.Len(o, l) != len(ws) {
				bad("what the data is made from is not noted")
				return
			}
			for k, w := range ws {
				if !sameText(m, o, m.ElemAt(o, l, k), w) {
					bad("what the data is made from is not noted")
					return
				}
			}
		case n == "Count" && oc.count:
			if m.Key(v.F[i]) != m.Key(m.Const(uint64(len(want)), 32, false)) {
				bad("the number of rows is not that of the rows")
				return
			}
		case m.Key(v.F[i]) != m.Key(vers.F[i]):
			bad("the version's %s is changed", n)
			return
		}
	}
}
