package check

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/bits"
	"uipcheck/load"
)

func init() {
	register("C03", "proof", dumpsComplete)
}

const walkRule = "a dump visits every network"

// walkers are the functions that make rows with a function that finds
// networks; those that do the work of walking, and all of them.
func (b *bitRun) walkers() (work, all []*ssa.Function) {
	is := map[*ssa.Function]bool{}
	for _, f := range b.g.Funcs {
		s := f.Signature
		if len(f.Blocks) == 0 || s.Results().Len() != 2 || !strings.HasSuffix(s.Results().At(0).Type().String(), "db/inf.IpData") {
			continue
		}
		for i := 0; i < s.Params().Len(); i++ {
			if isFind(s.Params().At(i).Type()) {
				all = append(all, f)
				is[f] = true
				break
			}
		}
	}
	for _, f := range all {
		inner := false
		for _, c := range b.g.callers[f] {
			// a helper of another one
			if g := c.Parent(); g != f && is[g] && g.Pkg == f.Pkg {
				inner = true
			}
		}
		for _, g := range all {
			for _, c := range b.g.callers[g] {
				// passes the work on to another package
				if c.Parent() == f && g.Pkg != f.Pkg {
					inner = true
				}
			}
		}
		if !inner {
			work = append(work, f)
		}
	}
	return
}

// isFind: func(net.IP) (*net.IPNet, map[string]string, error).
func isFind(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Params().Len() != 1 || s.Results().Len() != 3 {
		return false
	}
	return s.Params().At(0).Type().String() == "net.IP" && s.Results().At(0).Type().String() == "*net.IPNet"
}

// deepEqual compares values as reflect.DeepEqual does.
func deepEqual(m *bits.Machine, o bits.Outcome, a, b bits.Value) bits.Bit {
	if x, ok := a.(*bits.Iface); ok {
		y, ok := b.(*bits.Iface)
		if !ok || x.T == nil || y.T == nil {
			return m.Unknown("deep")
		}
		if !types.Identical(x.T, y.T) {
			return 0
		}
		return deepEqual(m, o, x.V, y.V)
	}
	switch x := a.(type) {
	case *bits.Int:
		if y, ok := b.(*bits.Int); ok {
			return o.Bit(m.Equal(m.Under(o, x), m.Under(o, y)))
		}
	case *bits.Slice:
		y, ok := b.(*bits.Slice)
		if !ok {
			break
		}
		xn, yn := o.Bit(x.Nil), o.Bit(y.Nil)
		if !x.Str {
			if xn > 1 || yn > 1 {
				break
			}
			if xn != yn {
				return 0
			}
		}
		n, ok1 := m.Under(o, x.Len).Const()
		k, ok2 := m.Under(o, y.Len).Const()
		if !ok1 || !ok2 {
			if m.Key(a) == m.Key(b) {
				return 1
			}
			break
		}
		if n != k {
			return 0
		}
		r := bits.Bit(1)
		for i := 0; i < int(n); i++ {
			e := deepEqual(m, o, m.ElemAt(o, x, i), m.ElemAt(o, y, i))
			if e == 0 {
				return 0
			}
			if e != 1 {
				r = m.Unknown("deep")
			}
		}
		return r
	}
	return m.Unknown("deep")
}

// equalModels models reflect.DeepEqual and its like for lists.
func equalModels(m *bits.Machine) {
	f := func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		return []bits.Ret{{V: &bits.Bool{B: deepEqual(m, s.StateOf(), args[0], args[1])}}}
	}
	m.Models["reflect.DeepEqual"] = f
	c := m.Call
	m.Call = func(m *bits.Machine, fn *ssa.Function, s *bits.Site, args []bits.Value) []bits.Ret {
		if c != nil {
			if r := c(m, fn, s, args); r != nil {
				return r
			}
		}
		if o := fn.Origin(); o != nil && o.String() == "slices.Equal" {
			x, ok1 := args[0].(*bits.Slice)
			y, ok2 := args[1].(*bits.Slice)
			if ok1 && ok2 {
				x2, y2 := *x, *y
				x2.Nil, y2.Nil = 0, 0
				return []bits.Ret{{V: &bits.Bool{B: deepEqual(m, s.StateOf(), &x2, &y2)}}}
			}
		}
		return nil
	}
}

// walkNet is a network the walk meets.
type walkNet struct {
	d, ones int  // mask, and how many of its last bits are one; ones = d: to the last address
	row     int  // which values it has
	short   bool // found as an IPv4 network in an IPv6 database (in ::ffff:0:0/96)
}

// walkCell is a database as the walk sees it.
type walkCell struct {
	name   string
	v6     bool
	ver    int
	nets   []walkNet
	fail   int // the lookup that fails, -1 for none
	export bool
}

// walkLayout: the columns asked for, under the names the database has for
// them; one is not there, one is empty in it.
var walkFields = []string{"k0", "k1", "k2", "k3"}

func dumpsComplete(c *Ctx) (*Result, error) {
	b := newBitRun(c, "The walk of a dump over the address space is interpreted with a lookup that finds any network (every prefix length and number of bits a carry passes), and the reading of text files on files of few lines with free content.")
	b.res.Rules = []string{walkRule, passRule, textRule}
	ws, all := b.walkers()
	if len(ws) == 0 {
		return nil, fmt.Errorf("the walk over the networks of a database is not there")
	}
	cells := walkCells()
	if f := os.Getenv("CELL"); f != "" {
		var keep []walkCell
		for _, c := range cells {
			if strings.Contains(c.name, f) {
				keep = append(keep, c)
			}
		}
		cells = keep
	}
	for _, w := range ws {
		b.each(len(cells), func(i int) { b.walkCell(w, cells[i]) })
		b.sample("%s: %d classes of walks", short(w), len(cells))
	}
	if err := b.passDumps(all); err != nil {
		return nil, err
	}
	if err := b.textDumps(); err != nil {
		return nil, err
	}
	return b.done(), nil
}

func walkCells() []walkCell {
	var cells []walkCell
	for _, v6 := range []bool{false, true} {
		n, fam, ver := 32, "IPv4", 1
		if v6 {
			n, fam, ver = 128, "IPv6", 2
		}
		add := func(name string, fail int, nets ...walkNet) {
			cells = append(cells, walkCell{name: fam + ": " + name, v6: v6, ver: ver, nets: nets, fail: fail})
		}
		last := walkNet{d: n / 2, ones: n / 2, row: 1}
		for d := 0; d <= n; d++ {
			add(fmt.Sprintf("the first network is the last, of %d bits", d), -1, walkNet{d: d, ones: d})
			add(fmt.Sprintf("the second network is the last, of %d bits", d), -1, walkNet{d: 9, ones: 2}, walkNet{d: d, ones: d, row: 1})
			for t := 0; t < d; t++ {
				if v6 && t > 2 && t < d-2 && (t+d)%4 != 0 {
					continue
				}
				add(fmt.Sprintf("a first network of %d bits, of which %d are ones", d, t), -1, walkNet{d: d, ones: t}, last)
				if (d+t)%3 == 0 {
					add(fmt.Sprintf("a second network of %d bits, of which %d are ones", d, t), -1, walkNet{d: 11, ones: 1}, walkNet{d: d, ones: t, row: 1}, last)
				}
			}
		}
		for i := 0; i < 4; i++ {
			nets := []walkNet{{d: 4, ones: 1}, {d: 7, row: 1}, {d: n, ones: 9, row: 2}, {d: n - 3, ones: n - 4}}
			add(fmt.Sprintf("lookup %d fails", i+1), i, nets[:i]...)
		}
		for k, rows := range [][]int{{0, 0, 0, 0}, {0, 1, 0, 1}, {0, 0, 1, 1}, {0, 1, 1, 2}, {2, 1, 1, 0}, {0, 3, 3, 0}, {0, 4, 4, 0}, {0, 5, 5, 0}} {
			nets := []walkNet{{d: 4, ones: 1}, {d: 7, row: 1}, {d: n, ones: 9, row: 2}, {d: n - 3, ones: n - 3}}
			for i := range nets {
				nets[i].row = rows[i]
			}
			add(fmt.Sprintf("four networks, values %d", k), -1, nets...)
		}
	}
	for d := 0; d <= 32; d++ {
		for _, t := range []int{0, 1, d - 1, d} {
			if t < 0 || t > d {
				continue
			}
			cells = append(cells, walkCell{name: fmt.Sprintf("IPv6: a network of ::ffff:0:0/96 of %d bits, of which %d are ones", d, t), v6: true, ver: 2, fail: -1,
				nets: []walkNet{{d: 80, ones: 1}, {d: d, ones: t, row: 1, short: true}, {d: 3, ones: 3}}})
		}
	}
	for i := range cells[:len(cells):len(cells)] {
		if c := cells[i]; len(c.nets) == 4 {
			c.export, c.name = true, c.name+", with a rule"
			cells = append(cells, c)
		}
	}
	cells = append(cells, walkCell{name: "both families", ver: 3, nets: []walkNet{{}, {row: 1}}, fail: -1})
	return cells
}

// walkCell decides one walk.
func (b *bitRun) walkCell(w *ssa.Function, wc walkCell) {
	m := b.machine()
	m.Select, m.Quiet, m.Traces = true, true, 1
	m.MaxStep = 100000
	m.UseText()
	m.Globals(w.Pkg)
	equalModels(m)
	bad := func(f string, a ...interface{}) {
		b.fail(walkRule, w, "for "+wc.name+": "+fmt.Sprintf(f, a...)+notes(m))
	}
	str := types.Typ[types.String]
	text := func(key string, n int) *bits.Slice {
		var vs []bits.Value
		for i := 0; i < n; i++ {
			vs = append(vs, m.Input(byteT, fmt.Sprintf("%s.%d", key, i)))
		}
		s := m.Bytes(vs)
		s.Str = true
		return s
	}
	// what the database has: i0, i1, i2, i4; k0..k2 stand for i0..i2, k3 for
	// i3, which no record has
	intern := []string{"i0", "i1", "i2"}
	rows := [6][]*bits.Slice{} // from 3 on: as row 0 but for one column
	for r := range rows {
		for i := range intern {
			if r > 2 && i != r-3 {
				rows[r] = append(rows[r], rows[0][i])
				continue
			}
			s := text(fmt.Sprintf("v%d.%d", r, i), 2)
			if i == 1 && r < 2 {
				s = text("same", 3) // rows 0 and 1 differ in one column
			} else if r > 2 && i == 1 {
				m.Assume(m.Equal(m.ElemOf(s, m.N(1)).(*bits.Int), m.ElemOf(rows[0][i], m.N(1)).(*bits.Int)), false)
			} else if r > 0 && i != 1 {
				for q := 0; q < r; q++ {
					m.Assume(m.Equal(m.ElemOf(s, m.N(0)).(*bits.Int), m.ElemOf(rows[q][i], m.N(0)).(*bits.Int)), false)
				}
			}
			rows[r] = append(rows[r], s)
		}
	}
	mt := types.NewMap(str, str)
	record := func(r int) bits.Value {
		var ps []bits.Pair
		for i, n := range intern {
			ps = append(ps, bits.Pair{K: m.Str(n), V: rows[r][i]})
		}
		ps = append(ps, bits.Pair{K: m.Str("i4"), V: m.Str("other")})
		return m.Map(mt, ps...)
	}
	n := 32
	if wc.v6 {
		n = 128
	}
	// the networks
	type net struct {
		ip, mask, next []*bits.Int // next: the address after it
		ptr            *bits.Ptr
		val            bits.Value
	}
	var nets []net
	for i, wn := range wc.nets {
		if wc.ver == 3 && i == 1 {
			n = 128
		}
		if wc.v6 && wn.short {
			n = 32
		} else if wc.v6 {
			n = 128
		}
		f := freeBits(m, fmt.Sprintf("n%d.", i), 128)
		ip := constInts(m, make([]byte, n/8)...)
		next := constInts(m, make([]byte, n/8)...)
		for k := 0; k < wn.d; k++ {
			x, y := f[k], f[k]
			switch {
			case k >= wn.d-wn.ones:
				x, y = 1, 0
			case k == wn.d-wn.ones-1:
				x, y = 0, 1
			}
			setBit(ip, k, x)
			setBit(next, k, y)
		}
		normAll(m, ip)
		normAll(m, next)
		if wn.short {
			after := make([]byte, 10)
			if wn.d == wn.ones {
				after[9] = 1
				next = append(constInts(m, after...), constInts(m, make([]byte, 6)...)...)
			} else {
				next = append(constInts(m, append(after, 0xff, 0xff)...), next...)
			}
		}
		mk := make([]byte, n/8)
		for k := 0; k < wn.d; k++ {
			mk[k/8] |= 0x80 >> (k % 8)
		}
		mask := constInts(m, mk...)
		nets = append(nets, net{ip: ip, mask: mask, next: next, val: record(wn.row),
			ptr: m.New(named(m, b.stdType("net", "IPNet"), map[string]bits.Value{"IP": slice(m, copyBytes(ip)), "Mask": slice(m, copyBytes(mask))}))})
	}
	calls := m.New(m.N(0))
	failed := &bits.Iface{Key: "lookup failed"}
	okErr := &bits.Iface{Nil: 1}
	msg := ""
	m.Dyn = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		if !isFind(s.Call.Value.Type()) {
			return nil
		}
		c, _ := m.Deref(s.StateOf(), calls).(*bits.Int)
		k64, ok := c.Const()
		k := int(k64)
		if !ok || k > len(nets) {
			return nil
		}
		m.SetPtr(s, calls, m.N(k64+1))
		got, ok := m.Content(s.StateOf(), args[0])
		var want []*bits.Int
		switch {
		case k == 0 || wc.ver == 3:
			l := 4
			if wc.v6 || k > 0 {
				l = 16
			}
			want = constInts(m, make([]byte, l)...)
		case k <= len(nets):
			want = nets[k-1].next
		}
		if !ok {
			msg = fmt.Sprintf("the address of lookup %d is not known", k+1)
		} else if len(got) == 4 || len(want) == 4 {
			if d := diffBytes(m, form16(m, got), form16(m, want)); d != "" {
				msg = fmt.Sprintf("lookup %d is not at the address after the network found before: %s", k+1, d)
			}
		} else if d := diffBytes(m, got, want); d != "" {
			msg = fmt.Sprintf("lookup %d is not at the address after the network found before: %s", k+1, d)
		}
		if k == wc.fail {
			return []bits.Ret{{V: bits.Tuple{&bits.Ptr{}, m.Zero(mt), failed}}}
		}
		if k >= len(nets) {
			if msg == "" {
				msg = "the walk goes on after the last address"
			}
			return []bits.Ret{}
		}
		return []bits.Ret{{V: bits.Tuple{nets[k].ptr, nets[k].val, okErr}}}
	}
	// with a rule, the exporter decides on the values
	exported := func(v bits.Value) bits.Value {
		for i := range nets {
			if m.Key(v) == m.Key(nets[i].val) {
				return m.List(str, rows[wc.nets[i].row][2], rows[wc.nets[i].row][0])
			}
		}
		return m.List(str, m.Str("?"))
	}
	for _, f := range []string{"Fields", "Export"} {
		f := f
		m.Models["("+b.typeOf("db/inf", "Exporter").String()+")."+f] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
			if f == "Fields" {
				return []bits.Ret{{V: m.List(str, m.Str("k2"), m.Str("k0"))}}
			}
			return []bits.Ret{{V: exported(args[2])}}
		}
	}
	fields := walkFields
	fm := []bits.Pair{{K: m.Str("k9"), V: m.Str("i9")}, {K: m.Str("k2"), V: m.Str("i2")}, {K: m.Str("k0"), V: m.Str("i0")}, {K: m.Str("k1"), V: m.Str("i1")}, {K: m.Str("k3"), V: m.Str("i3")}}
	inner := []string{"i0", "i1", "i2", "i3"}
	var args []bits.Value
	for _, p := range w.Params {
		t := p.Type()
		switch {
		case isFind(t):
			args = append(args, &bits.Func{})
		case strings.HasSuffix(t.String(), "db/inf.Exporter"):
			if wc.export {
				args = append(args, &bits.Iface{Key: "exporter"})
			} else {
				args = append(args, &bits.Iface{Nil: 1})
			}
		case strings.HasSuffix(t.String(), "db/inf.VersionInfo"):
			args = append(args, m.New(named(m, b.typeOf("db/inf", "VersionInfo"), map[string]bits.Value{
				"IpType": m.Const(uint64(wc.ver), 64, true), "Count": m.Input(types.Typ[types.Uint32], "count"),
				"Build": m.Input(types.Typ[types.Int64], "build"), "Version": m.Input(str, "version")})))
		case isStringMap(t):
			args = append(args, m.Map(mt, fm...))
		case isStrings(t):
			var l []bits.Value
			for _, f := range inner {
				l = append(l, m.Str(f))
			}
			args = append(args, m.List(str, l...))
		default:
			args = append(args, m.Input(t, p.Name()))
		}
	}
	outs := b.run(m, w, args...)
	if wc.ver == 3 {
		k := bits.Value(nil)
		if len(outs) == 1 {
			k = m.Deref(outs[0], calls)
		}
		if c, ok := k.(*bits.Int); !ok || m.Key(c) != m.Key(m.N(2)) || msg != "" {
			b.failKey(walkRule, w, "both families", "for a database of both families: the IPv6 networks are not visited"+notes(m))
		}
		return
	}
	if msg != "" {
		bad("%s", msg)
		return
	}
	if len(outs) != 1 {
		bad("%d outcomes where one is expected", len(outs))
		return
	}
	o := outs[0]
	e, ok := o.Res[1].(*bits.Iface)
	if !ok {
		bad("the error is not known")
		return
	}
	if wc.fail >= 0 {
		if o.Bit(e.Nil) != 0 {
			bad("a failed lookup does not fail the dump")
		}
		return
	}
	if o.Bit(e.Nil) != 1 {
		bad("the dump fails")
		return
	}
	if c, ok := m.Deref(o, calls).(*bits.Int); !ok || m.Key(c) != m.Key(m.N(int64(len(nets)))) {
		bad("not every network is looked up")
		return
	}
	var want [][]bits.Value
	if wc.export {
		fields = []string{"k2", "k0"}
	}
	for i := range nets {
		r := rows[wc.nets[i].row]
		if wc.export {
			want = append(want, []bits.Value{r[2], r[0]})
		} else {
			want = append(want, []bits.Value{r[0], r[1], r[2], m.Str("")})
		}
	}
	var ips []wantRow
	for i := range nets {
		ips = append(ips, wantRow{nets[i].ip, nets[i].mask, want[i]})
	}
	if msg := b.rowsAre(m, o, o.Res[0], fields, ips); msg != "" {
		bad("%s", msg)
	}
}

func isStringMap(t types.Type) bool {
	x, ok := t.Underlying().(*types.Map)
	return ok && isText(x.Key()) && isText(x.Elem())
}

func isText(t types.Type) bool {
	x, ok := t.Underlying().(*types.Basic)
	return ok && x.Info()&types.IsString != 0
}

type wantRow struct {
	ip, mask []*bits.Int
	values   []bits.Value
}

// fieldOf is a field of a structure by its name.
func fieldOf(s *bits.Struct, name string) bits.Value {
	st, ok := s.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s.F[i]
		}
	}
	return nil
}

// rowsAre compares an IpData with what it should hold.
func (b *bitRun) rowsAre(m *bits.Machine, o bits.Outcome, data bits.Value, fields []string, want []wantRow) string {
	s, ok := m.Deref(o, data).(*bits.Struct)
	if !ok {
		return "the result is not known"
	}
	if fields != nil {
		fs, ok := fieldOf(s, "Fields").(*bits.Slice)
		if !ok || m.Len(o, fs) != len(fields) {
			return "the columns are not those of the data"
		}
		for i, f := range fields {
			if !sameText(m, o, m.ElemAt(o, fs, i), m.Str(f)) {
				return fmt.Sprintf("column %d is not %s", i, f)
			}
		}
	}
	ips, ok := fieldOf(s, "Ips").(*bits.Slice)
	if !ok {
		return "the rows are not known"
	}
	if n := m.Len(o, ips); n != len(want) {
		return fmt.Sprintf("%d rows where %d networks were found", n, len(want))
	}
	for i, w := range want {
		r, ok := m.ElemAt(o, ips, i).(*bits.Struct)
		if !ok {
			return fmt.Sprintf("row %d is not known", i+1)
		}
		c, ok := m.Deref(o, fieldOf(r, "Cidr")).(*bits.Struct)
		if !ok {
			return fmt.Sprintf("the network of row %d is not known", i+1)
		}
		ip, ok1 := m.Content(o, fieldOf(c, "IP"))
		mask, ok2 := m.Content(o, fieldOf(c, "Mask"))
		if !ok1 || !ok2 || diffBytes(m, form16(m, ip), form16(m, w.ip)) != "" || diffBytes(m, mask16(m, mask), mask16(m, w.mask)) != "" {
			return fmt.Sprintf("row %d is not for network %d", i+1, i+1)
		}
		vs, ok := fieldOf(r, "FieldValues").(*bits.Slice)
		if !ok || m.Len(o, vs) != len(w.values) {
			return fmt.Sprintf("row %d does not have a value for each column", i+1)
		}
		for k, v := range w.values {
			if l, ok := v.(*bits.Struct); ok && l.T == nil {
				if !holds(m, o, m.ElemAt(o, vs, k), l.F) {
					return fmt.Sprintf("value %d of row %d lost text next to a separator", k+1, i+1)
				}
				continue
			}
			if v != nil && !sameText(m, o, m.ElemAt(o, vs, k), v) {
				if os.Getenv("ALLCELLS") != "" {
					fmt.Println("got", m.Key(m.ElemAt(o, vs, k)), "want", m.Key(v))
				}
				return fmt.Sprintf("value %d of row %d is not that of the network", k+1, i+1)
			}
		}
	}
	return ""
}

// kept stands for any text that has these bytes, in this order.
func kept(items []bits.Value) bits.Value { return &bits.Struct{F: items} }

// holds: the bytes of items are in text v, in order.
func holds(m *bits.Machine, o bits.Outcome, v bits.Value, items []bits.Value) bool {
	l, ok := m.Content(o, v)
	if !ok {
		return false
	}
	for _, x := range items {
		for len(l) > 0 && diffBits(m, l[0], x.(*bits.Int)) != "" {
			l = l[1:]
		}
		if len(l) == 0 {
			return false
		}
		l = l[1:]
	}
	return true
}

// mask16 is a mask over 16 bytes.
func mask16(m *bits.Machine, mask []*bits.Int) []*bits.Int {
	if len(mask) != 4 {
		return mask
	}
	return append(constInts(m, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255), mask...)
}

// sameText: two texts with the same bytes.
func sameText(m *bits.Machine, o bits.Outcome, a, b bits.Value) bool {
	x, ok1 := m.Content(o, a)
	y, ok2 := m.Content(o, b)
	return ok1 && ok2 && diffBytes(m, x, y) == ""
}

const passRule = "a dump is what the walk gives"

// passDumps checks that the dumps of the formats with a search tree hand on
// what the walk gives them, and tell it what the file says.
func (b *bitRun) passDumps(walkers []*ssa.Function) error {
	for _, format := range []string{"ipdb", "awdb"} {
		dump := b.dumpOf("db/format/" + format)
		if dump == nil {
			return fmt.Errorf("the dump of %s files is not there", format)
		}
		versions := []int{1, 2, 3}
		if format == "awdb" {
			versions = []int{4, 6}
		}
		for _, v := range versions {
			for _, fail := range []bool{false, true} {
				b.passCell(format, dump, walkers, v, fail)
			}
		}
		b.sample("%s: what the walk is told and gives", format)
	}
	return nil
}

func (b *bitRun) passCell(format string, dump *ssa.Function, walkers []*ssa.Function, version int, fail bool) {
	m := b.machine()
	m.Select, m.Quiet = true, true
	m.MaxStep = 100000
	m.UseText()
	m.Globals(dump.Pkg)
	bad := func(f string, a ...interface{}) {
		b.fail(passRule, dump, fmt.Sprintf("for an %s file of version %d, where the walk fails: %v: ", format, version, fail)+fmt.Sprintf(f, a...)+notes(m))
	}
	str := types.Typ[types.String]
	family := map[int]int{1: 1, 2: 2, 3: 3, 4: 1, 6: 2}[version]
	file := m.Input(dump.Params[0].Type(), "file").(*bits.Slice)
	file.Len = m.Bounded("filelen", 1<<40, 1<<41)
	noErr := &bits.Iface{Nil: 1}
	meta := func(t types.Type) bits.Value {
		v := m.Input(t, "meta").(*bits.Struct)
		st := t.Underlying().(*types.Struct)
		for i := range v.F {
			w, isInt := v.F[i].(*bits.Int)
			switch st.Field(i).Name() {
			case "IPVersion":
				v.F[i] = m.Const(uint64(version), len(w.Bits), w.Signed)
			case "NodeCount":
				if isInt {
					v.F[i] = m.Wide(m.Small("nodes", 20), w.Signed)
				}
			case "TotalSize":
				if isInt {
					v.F[i] = m.Minus(file.Len, m.Plus(m.N(4), fileWord(m, file)))
				}
			case "RecordSize":
				v.F[i] = m.Const(28, len(w.Bits), w.Signed)
			case "Languages":
				if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
					v.F[i] = m.Map(st.Field(i).Type(), bits.Pair{K: m.Str("CN"), V: m.N(0)})
				}
			case "Fields":
				v.F[i] = m.List(str, m.Str("c0"), m.Str("c1"))
			}
		}
		return v
	}
	m.Models["encoding/json.Unmarshal"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		if dst, ok := args[1].(*bits.Iface); ok {
			if p, ok := dst.V.(*bits.Ptr); ok {
				m.SetPtr(s, p, meta(dst.T.Underlying().(*types.Pointer).Elem()))
				return []bits.Ret{{V: noErr}}
			}
		}
		return nil
	}
	reflectModels(m)
	m.Call = func(m *bits.Machine, f *ssa.Function, s *bits.Site, args []bits.Value) []bits.Ret {
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "db/format/awdb") {
			return nil
		}
		dst, _, _ := decodeCall(m, f, s, args)
		if dst == nil {
			return nil
		}
		p, ok := dst.V.(*bits.Ptr)
		if !ok {
			return nil
		}
		if t := dst.T.Underlying().(*types.Pointer).Elem(); isStruct(t) {
			m.SetPtr(s, p, meta(t))
		} else {
			m.SetPtr(s, p, awdbRecord(m, func(k string) bits.Value { return m.Input(types.NewSlice(byteT), "value "+k) }))
		}
		return []bits.Ret{{V: bits.Tuple{m.ResultOf(s).(bits.Tuple)[0], noErr}}}
	}
	m.Models["bytes.LastIndex"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		in, ok := args[0].(*bits.Slice)
		if !ok || in.Obj != file.Obj {
			return nil
		}
		return []bits.Ret{{V: m.Minus(m.Minus(file.Len, m.N(1000)), in.Off)}}
	}
	lookup := "(*" + load.ModPath + "/db/format/awdb.Reader).LookupNetwork"
	m.Models[lookup] = trialLookup(func(k string) bits.Value { return m.Input(types.NewSlice(byteT), "value "+k) })
	called := m.New(m.N(0))
	exporter := &bits.Iface{Key: "exporter"}
	dt := b.typeOf("db/inf", "IpData")
	given := named(m, dt, map[string]bits.Value{
		"Fields": m.List(str, m.Str("f0"), m.Str("f1")),
		"Ips":    m.Input(structField(dt, "Ips"), "rows")})
	failure := &bits.Iface{Key: "walk failed"}
	msg := ""
	for _, w := range walkers {
		m.Models[w.String()] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
			m.SetPtr(s, called, m.N(1))
			for _, a := range args {
				switch x := a.(type) {
				case *bits.Ptr:
					v, ok := m.Deref(s.StateOf(), x).(*bits.Struct)
					if !ok || fieldOf(v, "IpType") == nil {
						continue
					}
					if m.Key(fieldOf(v, "IpType")) != m.Key(m.Const(uint64(family), 64, true)) {
						msg = "the walk is not told the address family of the file"
					}
				case *bits.Iface:
					if x.Key != exporter.Key {
						msg = "the walk is not given the rule"
					}
				}
			}
			if fail {
				return []bits.Ret{{V: bits.Tuple{&bits.Ptr{}, failure}}}
			}
			return []bits.Ret{{V: bits.Tuple{m.New(given), noErr}}}
		}
	}
	seen := 0
	for _, o := range b.run(m, dump, file, exporter) {
		c, ok := m.Deref(o, called).(*bits.Int)
		e, ok2 := o.Res[1].(*bits.Iface)
		if !ok || !ok2 {
			bad("the outcome is not known")
			return
		}
		if m.Key(c) == m.Key(m.N(0)) {
			if o.Bit(e.Nil) != 0 {
				bad("a dump without a walk succeeds")
			}
			continue
		}
		seen++
		if msg != "" {
			bad("%s", msg)
			return
		}
		if fail {
			if o.Bit(e.Nil) != 0 {
				bad("the failure is not handed on")
			}
			continue
		}
		if o.Bit(e.Nil) != 1 {
			bad("the dump fails")
			continue
		}
		s, ok := m.Deref(o, o.Res[0]).(*bits.Struct)
		if !ok || m.Key(fieldOf(s, "Ips")) != m.Key(fieldOf(given, "Ips")) || m.Key(fieldOf(s, "Fields")) != m.Key(fieldOf(given, "Fields")) {
			bad("the rows are not those of the walk")
			continue
		}
		v, ok := m.Deref(o, fieldOf(s, "Version")).(*bits.Struct)
		if !ok || m.Key(fieldOf(v, "IpType")) != m.Key(m.Const(uint64(family), 64, true)) {
			bad("the version does not name the family of the file")
		}
	}
	if seen == 0 {
		bad("no such file is dumped")
	}
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// structField is the type of a field.
func structField(t types.Type, name string) types.Type {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return types.Typ[types.Invalid]
}

// fileWord is the length of the description of an ipdb file.
func fileWord(m *bits.Machine, file *bits.Slice) *bits.Int {
	var bs []*bits.Int
	for i := 0; i < 4; i++ {
		bs = append(bs, m.ByteAt(file, m.N(int64(i))))
	}
	return word(m, bs, 64, true)
}
