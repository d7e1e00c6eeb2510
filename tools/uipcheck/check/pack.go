package check

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/bits"
	"uipcheck/load"
)

func init() {
	register("C18", "proof", packedTries)
}

const packRule = "packed trie holds the rows"

// packOf finds the function of a format that packs rows.
func (b *bitRun) packOf(relPkg string) *ssa.Function {
	p := b.c.P.Pkg(relPkg)
	if p == nil {
		return nil
	}
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, ok := p.Members[n].(*ssa.Function)
		if !ok || len(f.Blocks) == 0 || f.Signature.Recv() != nil {
			continue
		}
		s := f.Signature
		if s.Params().Len() == 2 && s.Results().Len() == 1 && strings.HasSuffix(s.Params().At(0).Type().String(), "db/inf.IpData") && s.Params().At(1).Type().String() == "io.Writer" {
			return f
		}
	}
	return nil
}

// named makes a structure of a type by the names of its fields; others are
// zero.
func named(m *bits.Machine, t types.Type, fs map[string]bits.Value) *bits.Struct {
	st := t.Underlying().(*types.Struct)
	var vs []bits.Value
	for i := 0; i < st.NumFields(); i++ {
		if v, ok := fs[st.Field(i).Name()]; ok {
			vs = append(vs, v)
		} else {
			vs = append(vs, m.Zero(st.Field(i).Type()))
		}
	}
	return m.Fields(t, vs...)
}

// typeOf is a type of the repository.
func (b *bitRun) typeOf(relPkg, name string) types.Type {
	p := b.c.P.Pkg(relPkg)
	if p == nil || p.Type(name) == nil {
		return nil
	}
	return p.Type(name).Type()
}

func (b *bitRun) stdType(pkg, name string) types.Type {
	p := b.c.P.SSA.ImportedPackage(pkg)
	if p == nil || p.Type(name) == nil {
		return nil
	}
	return p.Type(name).Type()
}

// packRow is a row: its network, and how the address and mask are given.
type packRow struct {
	v6     bool
	d      int // mask, of 32 or 128
	ipLen  int
	mask   int
	path   []bits.Bit // the bits of the network, as an IPv6 one
	values []*bits.Slice
	text   []*bits.Int
	ip     []*bits.Int
}

// packCell is a list of rows.
type packCell struct {
	name  string
	make  func(m *bits.Machine) []*packRow
	ver   int
	fails bool
	wide  int // values in the first row more than there are columns
}

// newRow makes a row. bits are those of the address before its mask, the
// rest are zero.
func newRow(m *bits.Machine, v6 bool, ipLen, maskLen int, path []bits.Bit) *packRow {
	r := &packRow{v6: v6, d: len(path), ipLen: ipLen, mask: maskLen}
	n := 4
	if v6 {
		n = 16
	}
	bs := constInts(m, make([]byte, n)...)
	for k, b := range path {
		setBit(bs, k, b)
	}
	normAll(m, bs)
	r.path = path
	if !v6 {
		r.path = nil
		for i := 0; i < 96; i++ {
			r.path = append(r.path, b2bit(i >= 80))
		}
		r.path = append(r.path, path...)
		if ipLen == 16 {
			bs = append(constInts(m, mapped...), bs...)
		}
	}
	r.ip = bs
	return r
}

// free is n free bits.
func freeBits(m *bits.Machine, name string, n int) []bits.Bit {
	bs := freeBytes(m, name, 16)
	var r []bits.Bit
	for k := 0; k < n; k++ {
		r = append(r, bitAt(bs, k))
	}
	return r
}

// branch is a path that leaves another one at bit k.
func branch(m *bits.Machine, p []bits.Bit, k, n int, name string) []bits.Bit {
	r := append([]bits.Bit(nil), p[:k]...)
	r = append(r, p[k]^1)
	f := freeBits(m, name, 128)
	return append(r, f[k+1:n]...)
}

func mappedBits() []bits.Bit {
	var r []bits.Bit
	for i := 0; i < 96; i++ {
		r = append(r, b2bit(i >= 80))
	}
	return r
}

// notMapped states that an IPv6 address of at least 96 bits is no IPv4 one.
func notMapped(m *bits.Machine, r *packRow) {
	if !r.v6 || r.d < 96 {
		return
	}
	for i := 0; i < 12; i++ {
		e := m.Equal(r.ip[i], m.Const(uint64(mapped[i]), 8, false))
		if e == 1 {
			continue
		}
		if e != 0 {
			m.Assume(e, false)
		}
		if i < 10 {
			return
		}
	}
}

var packFields = []string{"country", "x-one", "province"}
var packNames = []string{"country_name", "x-one", "region_name"}

// fill gives a row its values: free bytes that are no separators.
func (r *packRow) fill(m *bits.Machine, name string, lens ...int) {
	for i, n := range lens {
		var vs []bits.Value
		if i > 0 {
			r.text = append(r.text, m.Const('\t', 8, false))
		}
		for j := 0; j < n; j++ {
			x := m.Input(byteT, fmt.Sprintf("%s.%d.%d", name, i, j)).(*bits.Int)
			for _, s := range "\t\n\r" {
				m.Assume(m.Equal(x, m.Const(uint64(s), 8, false)), false)
			}
			vs = append(vs, x)
			r.text = append(r.text, x)
		}
		s := m.Bytes(vs)
		s.Str = true
		r.values = append(r.values, s)
	}
}

func (r *packRow) copyValues(o *packRow) { r.values, r.text = o.values, o.text }

// ipData makes the data to pack.
func (b *bitRun) ipData(m *bits.Machine, rows []*packRow, fields []string, ver int) bits.Value {
	str := types.Typ[types.String]
	raw, data, version := b.typeOf("db/inf", "IpRaw"), b.typeOf("db/inf", "IpData"), b.typeOf("db/inf", "VersionInfo")
	var ips []bits.Value
	for _, r := range rows {
		mask := make([]byte, r.mask)
		ones := r.d
		if !r.v6 && r.mask == 16 {
			ones += 96
		}
		for i := 0; i < ones; i++ {
			mask[i/8] |= 0x80 >> (i % 8)
		}
		ipnet := m.New(named(m, b.stdType("net", "IPNet"), map[string]bits.Value{"IP": slice(m, r.ip), "Mask": slice(m, constInts(m, mask...))}))
		var vs []bits.Value
		for _, v := range r.values {
			vs = append(vs, v)
		}
		ips = append(ips, named(m, raw, map[string]bits.Value{"Cidr": ipnet, "FieldValues": m.List(str, vs...)}))
	}
	var fs []bits.Value
	for _, f := range fields {
		fs = append(fs, m.Str(f))
	}
	vi := m.New(named(m, version, map[string]bits.Value{
		"IpType":    m.Const(uint64(ver), 64, true),
		"Version":   m.Input(str, "version"),
		"ExtraInfo": m.Input(types.NewSlice(str), "extra"),
	}))
	return m.New(named(m, data, map[string]bits.Value{"Fields": m.List(str, fs...), "Version": vi, "Ips": m.List(raw, ips...)}))
}

func packedTries(c *Ctx) (*Result, error) {
	b := newBitRun(c, "Packing one, two or three rows is interpreted with the bits of their networks and the bytes of their values free, for every prefix length and every bit at which two rows part; the trie that is written is walked from its root.")
	b.res.Rules = []string{packRule}
	pack := b.packOf("db/format/ipdb")
	if pack == nil {
		return nil, fmt.Errorf("the packer of ipdb files is not there")
	}
	for _, t := range []types.Type{b.typeOf("db/inf", "IpRaw"), b.typeOf("db/inf", "IpData"), b.typeOf("db/inf", "VersionInfo"), b.stdType("net", "IPNet"), b.stdType("bytes", "Buffer")} {
		if t == nil {
			return nil, fmt.Errorf("a type of the rows to pack is not there")
		}
	}
	cells := packCells()
	if f := os.Getenv("CELL"); f != "" {
		var keep []packCell
		for _, c := range cells {
			if strings.Contains(c.name, f) {
				keep = append(keep, c)
			}
		}
		cells = keep
	}
	b.each(len(cells), func(i int) { b.packCell(pack, cells[i]) })
	b.sample("ipdb: %d lists of rows", len(cells))
	return b.done(), nil
}

// v4forms are the ways an IPv4 network is given: bytes of address and mask.
var v4forms = [][2]int{{4, 4}, {16, 4}, {16, 16}}

func packCells() []packCell {
	var cells []packCell
	add := func(fails bool, ver int, name string, f func(m *bits.Machine) []*packRow) {
		cells = append(cells, packCell{name: name, make: f, ver: ver, fails: fails})
	}
	row4 := func(m *bits.Machine, form [2]int, path []bits.Bit) *packRow {
		return newRow(m, false, form[0], form[1], path)
	}
	row6 := func(m *bits.Machine, path []bits.Bit) *packRow { return newRow(m, true, 16, 16, path) }
	// one row
	for _, form := range v4forms {
		for d := 0; d <= 32; d++ {
			add(false, 1, fmt.Sprintf("IPv4 /%d (address of %d bytes, mask of %d)", d, form[0], form[1]), func(m *bits.Machine) []*packRow {
				r := row4(m, form, freeBits(m, "a", d))
				r.fill(m, "v", 2, 0, 3)
				return []*packRow{r}
			})
		}
	}
	for d := 0; d <= 128; d++ {
		add(false, 2, fmt.Sprintf("IPv6 /%d", d), func(m *bits.Machine) []*packRow {
			r := row6(m, freeBits(m, "a", d))
			r.fill(m, "v", 2, 0, 3)
			return []*packRow{r}
		})
	}
	for j := 1; j < 12; j++ {
		for _, d := range []int{96, 97, 128} {
			add(false, 3, fmt.Sprintf("IPv6 /%d that is unlike IPv4 from byte %d", d, j), func(m *bits.Machine) []*packRow {
				p := append(mappedBits()[:8*j], freeBits(m, "a", 128)[8*j:d]...)
				r := row6(m, p)
				r.fill(m, "v", 1, 1, 1)
				return []*packRow{r}
			})
		}
	}
	// two rows that part at bit k
	two := func(name string, ver int, f func(m *bits.Machine) (x, y *packRow), turns bool) {
		for t := 0; t < 2; t++ {
			if t == 1 && !turns {
				continue
			}
			n := name
			if t == 1 {
				n += ", the other way round"
			}
			add(false, ver, n, func(m *bits.Machine) []*packRow {
				x, y := f(m)
				x.fill(m, "v", 2, 0, 3)
				y.fill(m, "w", 4, 1, 2)
				if t == 1 {
					x, y = y, x
				}
				return []*packRow{x, y}
			})
		}
	}
	uniq := func(max int, l ...int) []int {
		var r []int
		for _, x := range l {
			if x > max {
				x = max
			}
			if len(r) == 0 || r[len(r)-1] != x {
				r = append(r, x)
			}
		}
		return r
	}
	for k := 0; k < 32; k++ {
		for _, d1 := range uniq(32, k+1, k+2, 32) {
			for _, d2 := range uniq(32, k+1, k+2, 32) {
				f1, f2 := v4forms[(k+d1)%3], v4forms[(k+d2)%2]
				two(fmt.Sprintf("IPv4 /%d and /%d that part at bit %d", d1, d2, k), 1, func(m *bits.Machine) (x, y *packRow) {
					p := freeBits(m, "a", d1)
					return row4(m, f1, p), row4(m, f2, branch(m, p, k, d2, "b"))
				}, false)
			}
		}
	}
	// rows that are the same text, cut into values in other places
	for _, cut := range [][2][]int{{{4, 0, 0}, {0, 4, 0}}, {{0, 0, 4}, {0, 4, 0}}, {{2, 1, 1}, {1, 2, 1}}, {{1, 1, 2}, {1, 2, 1}}} {
		add(false, 1, fmt.Sprintf("IPv4 /8 and /8 of the same text cut as %v and %v", cut[0], cut[1]), func(m *bits.Machine) []*packRow {
			p := freeBits(m, "a", 8)
			x, y := row4(m, v4forms[0], p), row4(m, v4forms[0], branch(m, p, 3, 8, "b"))
			x.fill(m, "v", 4)
			all := x.text
			for i, r := range []*packRow{x, y} {
				r.values, r.text = nil, nil
				at := 0
				for j, n := range cut[i] {
					var vs []bits.Value
					if j > 0 {
						r.text = append(r.text, m.Const('\t', 8, false))
					}
					for _, b := range all[at : at+n] {
						vs = append(vs, b)
						r.text = append(r.text, b)
					}
					at += n
					v := m.Bytes(vs)
					v.Str = true
					r.values = append(r.values, v)
				}
			}
			return []*packRow{x, y}
		})
	}
	for k := 0; k < 128; k++ {
		for _, d1 := range uniq(128, k+1, k+2, k+9, 128) {
			for _, d2 := range uniq(128, k+1, k+9, 128) {
				two(fmt.Sprintf("IPv6 /%d and /%d that part at bit %d", d1, d2, k), 2, func(m *bits.Machine) (x, y *packRow) {
					p := freeBits(m, "a", d1)
					return row6(m, p), row6(m, branch(m, p, k, d2, "b"))
				}, false)
			}
		}
	}
	for k := 0; k < 96; k++ {
		for _, d1 := range uniq(128, k+1, k+2, 128) {
			for _, d2 := range []int{0, 1, 20, 32} {
				two(fmt.Sprintf("IPv6 /%d that parts from IPv4 /%d at bit %d", d1, d2, k), 3, func(m *bits.Machine) (x, y *packRow) {
					return row6(m, branch(m, mappedBits(), k, d1, "a")), row4(m, v4forms[k%3], freeBits(m, "b", d2))
				}, true)
			}
		}
	}
	// the same values, or values of one length
	for _, d := range []int{1, 9, 32} {
		for i := 0; i < 4; i++ {
			add(false, 1, fmt.Sprintf("two IPv4 /%d with values that are the same but for column %d", d, i), func(m *bits.Machine) []*packRow {
				p := freeBits(m, "a", d)
				x, y := row4(m, v4forms[0], p), row4(m, v4forms[0], branch(m, p, d-1, d, "b"))
				x.fill(m, "v", 2, 2, 2)
				if i == 3 {
					y.copyValues(x)
					return []*packRow{x, y}
				}
				y.fill(m, "w", 2, 2, 2)
				var all []*bits.Int
				for j := 0; j < 3; j++ {
					if j > 0 {
						all = append(all, m.Const('\t', 8, false))
					}
					xs, ys := x.text[3*j:3*j+2], y.text[3*j:3*j+2]
					if j != i {
						y.values[j] = x.values[j]
						all = append(all, xs...)
						continue
					}
					m.Assume(m.Equal(xs[0], ys[0]), false)
					m.Assume(m.Equal(xs[1], ys[1]), false)
					all = append(all, ys...)
				}
				y.text = all
				return []*packRow{x, y}
			})
		}
	}
	// three rows
	for _, k := range []int{0, 7, 8, 31, 64, 96, 125} {
		for _, l := range []int{0, 9, 33, 126} {
			add(false, 2, fmt.Sprintf("three IPv6 rows that part at bits %d and %d", k, l), func(m *bits.Machine) []*packRow {
				p := freeBits(m, "a", 128)
				q := branch(m, p, k, 128, "b")
				var s []bits.Bit
				if l == k {
					l++
				}
				if l > k {
					s = branch(m, q, l, 128, "c")
				} else {
					s = branch(m, p, l, l+1, "c")
				}
				x, y, z := row6(m, p), row6(m, q), row6(m, s)
				x.fill(m, "v", 2, 0, 3)
				y.fill(m, "w", 4, 1, 2)
				z.copyValues(x)
				return []*packRow{x, y, z}
			})
		}
	}
	// rows inside each other
	nested := func(name string, ver int, f func(m *bits.Machine) (x, y *packRow)) {
		for t := 0; t < 2; t++ {
			n := name + ", the outer one first"
			if t == 1 {
				n = name + ", the inner one first"
			}
			add(true, ver, n, func(m *bits.Machine) []*packRow {
				x, y := f(m)
				x.fill(m, "v", 2, 0, 3)
				y.fill(m, "w", 4, 1, 2)
				if t == 1 {
					x, y = y, x
				}
				return []*packRow{x, y}
			})
		}
	}
	for d1 := 0; d1 < 32; d1++ {
		for _, d2 := range uniq(32, d1+1, d1+9, 32) {
			f1, f2 := v4forms[(d1+d2)%3], v4forms[d2%2]
			nested(fmt.Sprintf("IPv4 /%d inside /%d", d2, d1), 1, func(m *bits.Machine) (x, y *packRow) {
				p := freeBits(m, "a", d2)
				return row4(m, f1, p[:d1]), row4(m, f2, p)
			})
		}
	}
	for d1 := 0; d1 < 128; d1++ {
		for _, d2 := range uniq(128, d1+1, d1+9, 128) {
			if d2 == 1 {
				continue // ::/0 is stored as its halves, so this is one of them again
			}
			nested(fmt.Sprintf("IPv6 /%d inside /%d", d2, d1), 2, func(m *bits.Machine) (x, y *packRow) {
				p := freeBits(m, "a", d2)
				return row6(m, p[:d1]), row6(m, p)
			})
		}
	}
	for d1 := 0; d1 < 96; d1++ {
		for _, d2 := range []int{0, 1, 20, 32} {
			nested(fmt.Sprintf("IPv4 /%d inside IPv6 /%d", d2, d1), 3, func(m *bits.Machine) (x, y *packRow) {
				return row6(m, mappedBits()[:d1]), row4(m, v4forms[(d1+d2)%3], freeBits(m, "b", d2))
			})
		}
	}
	for _, w := range []int{-1, 1} {
		cells = append(cells, packCell{name: fmt.Sprintf("a row of %d values for %d columns", len(packFields)+w, len(packFields)), ver: 1, fails: true, wide: w, make: func(m *bits.Machine) []*packRow {
			r := row4(m, v4forms[0], freeBits(m, "a", 20))
			if w < 0 {
				r.fill(m, "v", 2, 2)
			} else {
				r.fill(m, "v", 2, 2, 2, 2)
			}
			return []*packRow{r}
		}})
	}
	return cells
}

// packCell decides one list of rows.
func (b *bitRun) packCell(pack *ssa.Function, pc packCell) {
	m := b.machine()
	m.Select, m.Quiet, m.Traces = true, true, 1
	m.MaxStep = 700000
	m.UseText()
	m.Globals(pack.Pkg)
	rows := pc.make(m)
	for _, r := range rows {
		notMapped(m, r)
	}
	var meta bits.Value
	var metaT types.Type
	var metaSt bits.Outcome
	jl := m.Bounded("len(json)", 2, 1<<24)
	js := m.Input(types.NewSlice(byteT), "json").(*bits.Slice)
	js.Len = jl
	m.Models["encoding/json.Marshal"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		metaSt = s.StateOf().Copy()
		if i, ok := args[0].(*bits.Iface); ok {
			meta, metaT = i.V, i.T
			if p, ok := metaT.(*types.Pointer); ok {
				meta, metaT = m.Deref(metaSt, meta), p.Elem()
			}
		}
		return []bits.Ret{{V: bits.Tuple{js, &bits.Iface{Nil: 1}}}}
	}
	sink := m.NewStream()
	w := &bits.Iface{T: types.NewPointer(b.stdType("bytes", "Buffer")), V: sink}
	outs := b.run(m, pack, b.ipData(m, rows, packFields, pc.ver), w)
	bad := func(f string, a ...interface{}) {
		b.fail(packRule, pack, "for "+pc.name+": "+fmt.Sprintf(f, a...)+notes(m))
	}
	if len(outs) == 0 {
		bad("never returns")
		return
	}
	for _, o := range outs {
		e, ok := o.Res[0].(*bits.Iface)
		if !ok {
			bad("the error is not known")
			return
		}
		n := o.Bit(e.Nil)
		if pc.fails {
			if n != 0 {
				bad("packing does not fail")
			}
			continue
		}
		if n == 0 {
			bad("packing fails")
			return
		}
		if n != 1 || len(outs) > 1 {
			bad("it is not known whether packing fails")
			return
		}
		items, ok := m.Written(o, sink)
		if !ok || len(items) < 5 {
			bad("what is written is not known")
			return
		}
		t := &packed{m: m, o: o, bad: bad}
		if s, ok := items[4].(*bits.Slice); !ok || m.Key(s) != m.Key(js) || !m.Same(t.word(items[:4], 32), m.Resize(jl, 32, false)) {
			bad("the file does not begin with the length of its header and the header")
			return
		}
		t.data = items[5:]
		for _, x := range t.data {
			if _, ok := x.(*bits.Int); !ok {
				bad("what is written is not known byte by byte")
				return
			}
		}
		if !b.packedMeta(t, meta, metaT, metaSt, pc, jl) {
			return
		}
		var leaves []packLeaf
		for _, r := range rows {
			if len(r.path) == 0 {
				leaves = append(leaves, packLeaf{[]bits.Bit{0}, r.text}, packLeaf{[]bits.Bit{1}, r.text})
				continue
			}
			leaves = append(leaves, packLeaf{r.path, r.text})
		}
		if msg := t.walk(0, 0, leaves); msg != "" {
			bad("%s", msg)
		}
	}
}

type packLeaf struct {
	path []bits.Bit
	text []*bits.Int
}

// packed is a file that was written.
type packed struct {
	m    *bits.Machine
	o    bits.Outcome
	data []bits.Value // nodes and records
	n    int64        // how many nodes
	bad  func(f string, a ...interface{})
}

func (t *packed) word(items []bits.Value, width int) *bits.Int {
	var bs []*bits.Int
	for _, x := range items {
		v, ok := x.(*bits.Int)
		if !ok {
			v = t.m.Input(byteT, "?").(*bits.Int)
		}
		bs = append(bs, v)
	}
	return word(t.m, bs, width, false)
}

// packedMeta checks the header.
func (b *bitRun) packedMeta(t *packed, meta bits.Value, mt types.Type, st bits.Outcome, pc packCell, jl *bits.Int) bool {
	m := t.m
	s, ok := meta.(*bits.Struct)
	if !ok {
		t.bad("the header is not known")
		return false
	}
	u, ok := mt.Underlying().(*types.Struct)
	if !ok {
		t.bad("the header is no structure")
		return false
	}
	by := map[string]bits.Value{}
	for i := 0; i < u.NumFields(); i++ {
		tag := strings.Split(reflect.StructTag(u.Tag(i)).Get("json"), ",")[0]
		by[tag] = s.F[i]
	}
	num := func(k string) (int64, bool) {
		x, ok := by[k].(*bits.Int)
		if !ok {
			return 0, false
		}
		return m.Under(t.o, x).Const()
	}
	n, ok := num("node_count")
	if !ok || n < 1 || 8*n+8 > int64(len(t.data)) {
		t.bad("the header gives %d nodes, in a file of %d bytes", n, len(t.data))
		return false
	}
	t.n = n
	if size, ok := num("total_size"); !ok || size != int64(len(t.data)) {
		t.bad("the header gives a size of %d, not %d", size, len(t.data))
		return false
	}
	if v, ok := num("ip_version"); !ok || v != int64(pc.ver) {
		t.bad("the header gives the address families as %d, not %d", v, pc.ver)
		return false
	}
	var fs []string
	for i := 0; i < m.Len(st, by["fields"]); i++ {
		f, _ := m.Text(m.ElemAt(st, by["fields"], i))
		fs = append(fs, f)
	}
	if strings.Join(fs, ",") != strings.Join(packNames, ",") {
		t.bad("the header gives the columns as %v, not %v", fs, packNames)
		return false
	}
	ls, ok := m.Entries(st, by["languages"])
	if !ok || len(ls) != 1 {
		t.bad("the header does not give one language")
		return false
	}
	l, _ := m.Text(ls[0].K)
	if k, ok := ls[0].V.(*bits.Int); l != "CN" || !ok || m.String(k) != "0" {
		t.bad("the header does not give language CN at column 0")
		return false
	}
	return true
}

// child is a word of a node, where b is v.
func (t *packed) child(i int64, bit bits.Bit) (int64, bool) {
	m := t.m
	if bit > 1 {
		o, ok := t.o.With(bit, true)
		if !ok {
			return 0, false
		}
		l, ok1 := m.Under(o, t.word(t.data[8*i+4:8*i+8], 64)).Const()
		o, ok = t.o.With(bit, false)
		if !ok {
			return 0, false
		}
		r, ok2 := m.Under(o, t.word(t.data[8*i:8*i+4], 64)).Const()
		return l, ok1 && ok2 && l == r
	}
	at := 8*i + 4*int64(bit)
	return m.Under(t.o, t.word(t.data[at:at+4], 64)).Const()
}

// walk checks what is below node i, where the leaves are those below it.
func (t *packed) walk(i int64, depth int, leaves []packLeaf) string {
	if i < 0 || i >= t.n {
		return fmt.Sprintf("at bit %d the walk comes to node %d of %d", depth, i, t.n)
	}
	if depth > 128 {
		return "the trie is deeper than an address"
	}
	at := bits.Bit(0)
	if len(leaves) > 0 {
		at = leaves[0].path[depth]
	}
	for _, side := range []bits.Bit{at, at ^ 1} {
		var in []packLeaf
		for _, l := range leaves {
			if l.path[depth] == side {
				in = append(in, l)
			} else if l.path[depth] != side^1 {
				return "the rows are not told apart"
			}
		}
		x, ok := t.child(i, side)
		if !ok {
			return fmt.Sprintf("at bit %d it is not known where node %d leads%s", depth, i, t.both(i, side))
		}
		switch {
		case len(in) == 0:
			if x == t.n {
				continue
			}
			if x > t.n {
				return fmt.Sprintf("addresses that differ from every row at bit %d have a record", depth)
			}
			if msg := t.walk(x, depth+1, nil); msg != "" {
				return msg
			}
		case len(in) == 1 && len(in[0].path) == depth+1:
			if x <= t.n {
				return fmt.Sprintf("after the %d bits of a row there is no record", depth+1)
			}
			if msg := t.record(8*t.n+x-t.n, in[0]); msg != "" {
				return msg
			}
		default:
			if x >= t.n {
				return fmt.Sprintf("after %d bits of a row the walk ends", depth+1)
			}
			if msg := t.walk(x, depth+1, in); msg != "" {
				return msg
			}
		}
	}
	return ""
}

func (t *packed) both(i int64, b bits.Bit) string {
	return ": [" + t.m.String(t.word(t.data[8*i:8*i+4], 32)) + "] and [" + t.m.String(t.word(t.data[8*i+4:8*i+8], 32)) + "] by " + t.m.BitKey(b)
}

// record checks the record at an offset.
func (t *packed) record(at int64, l packLeaf) string {
	if at+2 > int64(len(t.data)) || at < 8*t.n+8 {
		return "a record lies outside the file or among the nodes"
	}
	n, ok := t.m.Under(t.o, t.word(t.data[at:at+2], 64)).Const()
	if !ok || n != int64(len(l.text)) || at+2+n > int64(len(t.data)) {
		return fmt.Sprintf("the record of a row is %d bytes long, not %d", n, len(l.text))
	}
	for j, want := range l.text {
		got := t.m.Under(t.o, t.data[at+2+int64(j)].(*bits.Int))
		if d := diffBits(t.m, got, want); d != "" {
			return fmt.Sprintf("byte %d of the record of a row is %s", j, d)
		}
	}
	return ""
}

var _ = load.ModPath
