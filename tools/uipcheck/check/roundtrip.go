package check

import (
	"fmt"
	"go/types"
	"math/big"
	"net"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/bits"
	"uipcheck/load"
)

func init() {
	register("C13", "proof", roundTrips)
	register("C23", "proof", separatorsStay)
}

const tripRule = "what is packed is what is dumped"
const sepRule = "a separator in a value stays in its column"

// tripVal is a value of a row: text of n free bytes, with lit in it after the
// first at.
type tripVal struct {
	n, at int
	lit   string
	any   bool // what becomes of it is left open
	want  string
	same  string // the same text as other values of this name
}

type tripRow struct {
	v6     bool
	d      int
	last   bool
	values []tripVal
	joined bool // to the row before, in a format of ranges
}

// tripCell is data to pack and dump.
type tripCell struct {
	name   string
	format string
	fields []string
	rows   []tripRow
	ver    int
	nets   []string // the networks of the rows
}

// cidrs are the networks of the addresses from lo to hi.
func cidrs(lo, hi *big.Int, n int) []string {
	var r []string
	one := big.NewInt(1)
	for lo.Cmp(hi) <= 0 {
		k := uint(0)
		for ; int(k) < 8*n; k++ {
			e := new(big.Int).Add(lo, new(big.Int).Lsh(one, k+1))
			if lo.Bit(int(k)) == 1 || e.Sub(e, one).Cmp(hi) > 0 {
				break
			}
		}
		r = append(r, (&net.IPNet{IP: lo.FillBytes(make([]byte, n)), Mask: net.CIDRMask(8*n-int(k), 8*n)}).String())
		lo = new(big.Int).Add(lo, new(big.Int).Lsh(one, k))
	}
	return r
}

// ends are the first and the last address of a network.
func ends(cidr string) (lo, hi *big.Int, n int) {
	_, c, err := net.ParseCIDR(cidr)
	if err != nil {
		panic(err)
	}
	n = len(c.IP)
	ones, _ := c.Mask.Size()
	lo = new(big.Int).SetBytes(c.IP)
	hi = new(big.Int).Lsh(big.NewInt(1), uint(8*n-ones))
	return lo, hi.Add(hi, lo).Sub(hi, big.NewInt(1)), n
}

func (b *bitRun) trips(rule string, cells []tripCell) error {
	if f := os.Getenv("CELL"); f != "" {
		var keep []tripCell
		for _, c := range cells {
			if strings.Contains(c.format+": "+c.name, f) {
				keep = append(keep, c)
			}
		}
		cells = keep
	}
	for _, f := range []string{"plain", "memip"} {
		if b.packOf("db/format/"+f) == nil || b.dumpOf("db/format/"+f) == nil {
			return fmt.Errorf("the pack or dump of %s files is not there", f)
		}
	}
	b.each(len(cells), func(i int) { b.trip(rule, cells[i]) })
	b.sample("%d lists of rows packed as text and dumped", len(cells))
	return nil
}

// memipColumns are the columns of the format of ranges.
var memipColumns = []string{"city", "province", "district", "isp", "country", "continent"}

// trip decides one cell.
func (b *bitRun) trip(rule string, tc tripCell) {
	pack, dump := b.packOf("db/format/"+tc.format), b.dumpOf("db/format/"+tc.format)
	t := b.newTextRun(pack.Pkg)
	m := t.m
	bad := func(f *ssa.Function, s string, a ...interface{}) {
		if os.Getenv("ALLCELLS") != "" {
			fmt.Printf("BAD %s: %s: %s\n", tc.format, tc.name, fmt.Sprintf(s, a...)+notes(m))
		}
		b.fail(rule, f, "for "+tc.format+": "+tc.name+": "+fmt.Sprintf(s, a...)+notes(m))
	}
	str := types.Typ[types.String]
	raw, data := b.typeOf("db/inf", "IpRaw"), b.typeOf("db/inf", "IpData")
	vers := m.Input(b.typeOf("db/inf", "VersionInfo"), "version").(*bits.Struct)
	vt := vers.T.Underlying().(*types.Struct)
	for i := range vers.F {
		if vt.Field(i).Name() == "IpType" {
			vers.F[i] = m.Const(uint64(tc.ver), 64, true)
		}
	}
	if tc.nets == nil {
		t.ranges = []textRange{}
	}
	var rows []bits.Value
	var want []wantRow
	var end []*bits.Int
	var from *big.Int // the range with the row before
	sofar := 0
	joins := map[string]bool{}
	same := map[string]*bits.Slice{}
	for i, r := range tc.rows {
		ip, mask, ptr := t.network(fmt.Sprintf("n%d.", i), r.v6, r.d, r.last)
		if tc.nets != nil {
			ip, mask, ptr = t.netBytes(tc.nets[i])
		}
		var vs []bits.Value
		by := map[string]bits.Value{}
		for k, v := range r.values {
			x := t.plain(fmt.Sprintf("v%d.%d", i, k), v.n)
			x = append(append(x[:v.at:v.at], t.lit(v.lit)...), x[v.at:]...)
			s := t.str(x)
			if v.same != "" {
				if same[v.same] == nil {
					// unlike those of other names
					for _, y := range same {
						if a, ok := m.Content(bits.Outcome{}.Fresh(), y); ok && v.n > 0 && len(a) > 0 && v.lit == "" {
							m.Assume(m.Equal(a[0], x[0].(*bits.Int)), false)
						}
					}
					same[v.same] = s
				}
				s = same[v.same]
			} else if v.n > 0 {
				// unlike the value of the row before
				if i > 0 && k < len(tc.rows[i-1].values) {
					p := tc.rows[i-1].values[k]
					if p.n == v.n && p.lit == v.lit && p.at == v.at && p.same == "" {
						y := m.Input(byteT, fmt.Sprintf("v%d.%d.0", i-1, k)).(*bits.Int)
						m.Assume(m.Equal(m.Input(byteT, fmt.Sprintf("v%d.%d.0", i, k)).(*bits.Int), y), false)
					}
				}
			}
			vs = append(vs, s)
			var w bits.Value = s
			if v.any {
				w = kept(append(append([]bits.Value(nil), x[:v.at]...), x[v.at+len(v.lit):]...))
				if tc.format == "memip" && k < len(tc.fields) && tc.fields[k] == "isp" {
					w = nil // one of few
				}
			} else if v.want != "" {
				w = m.Str(v.want)
			}
			if k < len(tc.fields) {
				if _, ok := by[tc.fields[k]]; !ok {
					by[tc.fields[k]] = w
				}
			}
		}
		rows = append(rows, named(m, raw, map[string]bits.Value{"Cidr": ptr, "FieldValues": m.List(str, vs...)}))
		var ws []bits.Value
		if tc.format == "plain" {
			for _, f := range tc.fields {
				ws = append(ws, by[f])
			}
			want = append(want, wantRow{ip, mask, ws})
			continue
		}
		for _, f := range memipColumns {
			w, ok := by[f]
			if !ok {
				w = m.Str("默认")
			}
			ws = append(ws, w)
		}
		if tc.nets != nil {
			lo, hi, n := ends(tc.nets[i])
			if r.joined {
				want = want[:sofar]
			} else {
				from, sofar = lo, len(want)
			}
			for _, c := range cidrs(from, hi, n) {
				ip2, mask2, _ := t.netBytes(c)
				want = append(want, wantRow{ip2, mask2, ws})
			}
			continue
		}
		lo, hi := rangeOf(m, ip, mask)
		lo, hi = form16(m, lo), form16(m, hi)
		if r.joined {
			joins[m.ListKey(end)+" "+m.ListKey(lo)] = true
			x := &t.ranges[len(t.ranges)-1]
			x.end = hi
			end = hi
			continue
		}
		end = hi
		// the networks of a line are whatever its range has
		ip2, mask2, p2 := t.network(fmt.Sprintf("sub%d.", i), r.v6, r.d, false)
		t.ranges = append(t.ranges, textRange{start: lo, end: hi, nets: []bits.Value{p2}})
		want = append(want, wantRow{ip2, mask2, ws})
	}
	// whether ranges are next to each other is C22's
	join := func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		o := s.StateOf()
		r, ok1 := m.Deref(o, args[0]).(*bits.Struct)
		n, ok2 := m.Deref(o, args[1]).(*bits.Struct)
		if !ok1 || !ok2 {
			return nil
		}
		re, ok1 := m.Content(o, fieldOf(r, "End"))
		ip, ok2 := m.Content(o, fieldOf(n, "IP"))
		mask, ok3 := m.Content(o, fieldOf(n, "Mask"))
		if !ok1 || !ok2 || !ok3 {
			return nil
		}
		if !joins[m.ListKey(form16(m, re))+" "+m.ListKey(form16(m, ip))] {
			return []bits.Ret{{V: &bits.Bool{B: 0}}}
		}
		_, hi := rangeOf(m, ip, mask)
		fs := append([]bits.Value(nil), r.F...)
		st := r.T.Underlying().(*types.Struct)
		for i := range fs {
			if st.Field(i).Name() == "End" {
				fs[i] = slice(m, copyBytes(form16(m, hi)))
			}
		}
		m.SetPtr(s, args[0].(*bits.Ptr), m.Fields(r.T, fs...))
		return []bits.Ret{{V: &bits.Bool{B: 1}}}
	}
	if tc.nets == nil {
		m.Models["(*"+load.ModPath+"/ipnet.Range"+").JoinIPNet"] = join
	}
	var fs []bits.Value
	for _, f := range tc.fields {
		fs = append(fs, m.Str(f))
	}
	ipd := m.New(named(m, data, map[string]bits.Value{"Fields": m.List(str, fs...), "Version": m.New(vers), "Ips": m.List(raw, rows...)}))
	sink := m.NewStream()
	outs := b.run(m, pack, ipd, &bits.Iface{T: types.NewPointer(b.stdType("bytes", "Buffer")), V: sink})
	one := func(f *ssa.Function, outs []bits.Outcome, err int) (o bits.Outcome, ok bool) {
		if len(outs) != 1 {
			bad(f, "%d outcomes where one is expected", len(outs))
			return
		}
		e, is := outs[0].Res[err].(*bits.Iface)
		if !is || outs[0].Bit(e.Nil) != 1 {
			bad(f, "it fails: %v %v", m.Key(outs[0].Res[err]), len(outs[0].Res))
			return
		}
		return outs[0], true
	}
	o, ok := one(pack, outs, 0)
	if !ok {
		return
	}
	items, ok := m.Written(o, sink)
	if !ok {
		bad(pack, "what is written is not known")
		return
	}
	if os.Getenv("ITEMS") != "" {
		var l []string
		for _, i := range items {
			l = append(l, m.Key(i))
		}
		fmt.Println(strings.Join(l, " "))
	}
	b.saw(dump)
	o, ok = one(dump, m.RunFrom(o, dump, m.Bytes(items), &bits.Iface{Nil: 1}), 1)
	if !ok {
		return
	}
	fields := tc.fields
	if tc.format == "memip" {
		fields = memipColumns
	}
	if msg := b.rowsAre(m, o, o.Res[0], fields, want); msg != "" {
		bad(pack, "%s", msg)
		return
	}
	s := m.Deref(o, o.Res[0]).(*bits.Struct)
	v := m.Deref(o, fieldOf(s, "Version"))
	if tc.format == "plain" {
		if m.Key(v) != m.Key(vers) {
			bad(pack, "the version is not that of the data")
		}
		return
	}
	x, ok := v.(*bits.Struct)
	if !ok || m.Key(fieldOf(x, "IpType")) != m.Key(m.Const(uint64(tc.ver), 64, true)) {
		bad(pack, "the version does not name the family of the data")
	}
}

func roundTrips(c *Ctx) (*Result, error) {
	b := newBitRun(c, "Packing rows is interpreted with free networks and free values, and dumping with what was packed.")
	b.res.Rules = []string{tripRule}
	if err := b.trips(tripRule, tripCells()); err != nil {
		return nil, err
	}
	if err := b.trieTripAll(tripRule, trieTrips()); err != nil {
		return nil, err
	}
	return b.done(), nil
}

func (b *bitRun) trieTripAll(rule string, cells []trieTrip) error {
	pack, dump := b.packOf("db/format/ipdb"), b.dumpOf("db/format/ipdb")
	if pack == nil || dump == nil {
		return fmt.Errorf("the pack or dump of ipdb files is not there")
	}
	if f := os.Getenv("CELL"); f != "" {
		var keep []trieTrip
		for _, c := range cells {
			if strings.Contains("ipdb: "+c.name, f) {
				keep = append(keep, c)
			}
		}
		cells = keep
	}
	b.each(len(cells), func(i int) { b.trieTrip(rule, pack, dump, cells[i]) })
	b.sample("%d partitions of the address space packed as ipdb and dumped", len(cells))
	return nil
}

// trieTrip is a partition of the address space: the networks that leave a
// path at each bit, and the one at its end.
type trieTrip struct {
	name string
	v6   bool
	path []byte // bits
	turn bool   // packed from the last to the first
	same int    // rows of the same values follow each other in this number
	cols []string
	sep  *tripVal // value in of the first row
	in   int
	cut  bool // the values of a row are the same text, cut in other places
}

func trieTrips() []trieTrip {
	var cells []trieTrip
	for _, v6 := range []bool{false, true} {
		n, depths := 32, []int{1, 2, 3, 7, 8, 9, 16, 24, 31, 32}
		if v6 {
			n, depths = 128, []int{1, 2, 8, 31, 64, 96, 127, 128}
		}
		for pi, pat := range []string{"0", "1", "01", "0010000000000001", "110"} {
			if v6 && pi == 1 {
				pat = "1111111000"
			}
			for _, d := range depths {
				if d > n {
					continue
				}
				t := trieTrip{v6: v6, turn: (d+pi)%2 == 1, same: 1 + (d+pi)%3}
				for i := 0; i < d; i++ {
					t.path = append(t.path, pat[i%len(pat)]-'0')
				}
				t.cols = []string{"country", "province", "isp"}
				if d%3 == 0 {
					t.cols = []string{"isp", "continent", "line", "asn", "district", "city"}
				}
				if d == 3 || d == 8 && v6 {
					c := t
					c.cut, c.same = true, 1
					c.cols = []string{"country", "province", "isp"}
					c.name = fmt.Sprintf("the networks off %s... to /%d, IPv6: %v, values that are the same text cut elsewhere", pat, d, v6)
					cells = append(cells, c)
				}
				t.name = fmt.Sprintf("the networks off %s... to /%d, IPv6: %v, columns %v, from the last: %v, %d of the same values", pat, d, v6, t.cols, t.turn, t.same)
				cells = append(cells, t)
			}
		}
	}
	return cells
}

func (b *bitRun) trieTrip(rule string, pack, dump *ssa.Function, tc trieTrip) {
	t := b.newTextRun(pack.Pkg)
	m := t.m
	m.MaxStep = 6000000
	m.Rounds = 1 << 15
	bad := func(f *ssa.Function, s string, a ...interface{}) {
		if os.Getenv("ALLCELLS") != "" {
			fmt.Printf("BAD %s: %s\n", tc.name, fmt.Sprintf(s, a...)+notes(m))
		}
		b.fail(rule, f, "for ipdb: "+tc.name+": "+fmt.Sprintf(s, a...)+notes(m))
	}
	str := types.Typ[types.String]
	n, ver := 4, 1
	if tc.v6 {
		n, ver = 16, 2
	}
	type leaf struct {
		ip   []byte
		ones int
	}
	var leaves, after []leaf
	at := make([]byte, n)
	for k, bit := range tc.path {
		l := append([]byte(nil), at...)
		l[k/8] |= (bit ^ 1) << (7 - k%8)
		if bit == 1 {
			leaves = append(leaves, leaf{l, k + 1})
			at[k/8] |= 0x80 >> (k % 8)
		} else {
			after = append([]leaf{{l, k + 1}}, after...)
		}
	}
	leaves = append(append(leaves, leaf{at, len(tc.path)}), after...)
	var rows []bits.Value
	var want []wantRow
	raw, data := b.typeOf("db/inf", "IpRaw"), b.typeOf("db/inf", "IpData")
	var vs, back []bits.Value // packed, and dumped
	for i, l := range leaves {
		mk := make([]byte, n)
		for k := 0; k < l.ones; k++ {
			mk[k/8] |= 0x80 >> (k % 8)
		}
		if i%tc.same == 0 {
			vs, back = nil, nil
			cut := t.lit("abcdefgh")
			for c, name := range tc.cols {
				if tc.cut {
					n := len(cut)
					if c < len(tc.cols)-1 {
						n = min(n, i>>c&1+c+i/2)
					}
					vs, back = append(vs, t.str(cut[:n:n])), append(back, t.str(cut[:n:n]))
					cut = cut[n:]
					continue
				}
				x := t.plain(fmt.Sprintf("v%d.%d", i, c), []int{4, 0, 3, 1, 5, 7}[(i+c)%6])
				if c == 0 {
					// tell it from the others
					x = append(t.lit(fmt.Sprintf("r%03d", i)), t.plain(fmt.Sprintf("w%d", i), 2)...)
				}
				y := x
				if k := (i + len(leaves)) % (2 * len(continents)); name == "continent" && k < len(continents) {
					// by its name or its code
					y = t.lit(continents[k][1])
					x = t.lit(continents[k][i%2])
				}
				if tc.sep != nil && i == 0 && c == tc.in {
					x = t.plain("sep", tc.sep.n)
					x = append(append(x[:tc.sep.at:tc.sep.at], t.lit(tc.sep.lit)...), x[tc.sep.at:]...)
					vs = append(vs, t.str(x))
					if tc.sep.any {
						back = append(back, kept(append(append([]bits.Value(nil), x[:tc.sep.at]...), x[tc.sep.at+len(tc.sep.lit):]...)))
					} else {
						back = append(back, t.str(x))
					}
					continue
				}
				vs, back = append(vs, t.str(x)), append(back, t.str(y))
			}
		}
		ip, mask := constInts(m, l.ip...), constInts(m, mk...)
		cidr := m.New(named(m, b.stdType("net", "IPNet"), map[string]bits.Value{"IP": slice(m, copyBytes(ip)), "Mask": slice(m, copyBytes(mask))}))
		rows = append(rows, named(m, raw, map[string]bits.Value{"Cidr": cidr, "FieldValues": m.List(str, vs...)}))
		want = append(want, wantRow{ip, mask, back})
	}
	if tc.turn {
		for i, j := 0, len(rows)-1; i < j; i, j = i+1, j-1 {
			rows[i], rows[j] = rows[j], rows[i]
		}
	}
	var fs []bits.Value
	for _, f := range tc.cols {
		fs = append(fs, m.Str(f))
	}
	extra := m.Input(types.NewSlice(str), "extra")
	version := m.New(named(m, b.typeOf("db/inf", "VersionInfo"), map[string]bits.Value{
		"IpType": m.Const(uint64(ver), 64, true), "Version": m.Str("test"), "ExtraInfo": extra}))
	ipd := m.New(named(m, data, map[string]bits.Value{"Fields": m.List(str, fs...), "Version": version, "Ips": m.List(raw, rows...)}))
	sink := m.NewStream()
	outs := b.run(m, pack, ipd, &bits.Iface{T: types.NewPointer(b.stdType("bytes", "Buffer")), V: sink})
	one := func(f *ssa.Function, outs []bits.Outcome, err int) (o bits.Outcome, ok bool) {
		if len(outs) != 1 {
			bad(f, "%d outcomes where one is expected", len(outs))
			return
		}
		e, is := outs[0].Res[err].(*bits.Iface)
		if !is || outs[0].Bit(e.Nil) != 1 {
			bad(f, "it fails")
			return
		}
		return outs[0], true
	}
	o, ok := one(pack, outs, 0)
	if !ok {
		return
	}
	items, ok := m.Written(o, sink)
	if !ok {
		bad(pack, "what is written is not known")
		return
	}
	b.saw(dump)
	o, ok = one(dump, m.RunFrom(o, dump, m.Bytes(items), &bits.Iface{Nil: 1}), 1)
	if !ok {
		return
	}
	if os.Getenv("ALLCELLS") != "" {
		fmt.Println("END", len(tc.path), m.Steps)
	}
	if msg := b.rowsAre(m, o, o.Res[0], tc.cols, want); msg != "" {
		bad(pack, "%s", msg)
		return
	}
	s := m.Deref(o, o.Res[0]).(*bits.Struct)
	v, ok := m.Deref(o, fieldOf(s, "Version")).(*bits.Struct)
	if !ok || m.Key(fieldOf(v, "IpType")) != m.Key(m.Const(uint64(ver), 64, true)) {
		bad(pack, "the version does not name the family of the data")
		return
	}
	if t, ok := m.Text(fieldOf(v, "Version")); !ok || t != "test" {
		bad(pack, "the version is not that of the data")
	}
	if m.Key(fieldOf(v, "ExtraInfo")) != m.Key(extra) {
		bad(pack, "the notes of the version are not those of the data")
	}
}

func tripCells() []tripCell {
	var cells []tripCell
	fams := [][]bool{{false}, {true}, {false, false}, {true, true}, {false, false, false}, {true, true, true}}
	names := func(n int) []string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("c%d", i))
		}
		return l
	}
	for _, v6 := range append(fams, []bool{}, []bool{false, true}, []bool{true, false, true}) {
		ver := 1
		for _, x := range v6 {
			if x {
				ver = 2
			}
		}
		for cols := 1; cols <= 3; cols++ {
			for last := 0; last < 2; last++ {
				for _, same := range []bool{false, true} {
					c := tripCell{format: "plain", fields: names(cols), ver: ver}
					c.name = fmt.Sprintf("%d rows of %d columns, IPv6: %v, same values: %v, to the last address: %d", len(v6), cols, v6, same, last)
					for i, f := range v6 {
						r := tripRow{v6: f, d: 9 + 7*i, last: last == 1 && i == len(v6)-1}
						for k := 0; k < cols; k++ {
							v := tripVal{n: []int{2, 0, 3, 1}[(i+k)%4]}
							if same {
								v = tripVal{n: 2, same: fmt.Sprint("s", k)}
							}
							r.values = append(r.values, v)
						}
						c.rows = append(c.rows, r)
					}
					cells = append(cells, c)
				}
			}
		}
	}
	// every prefix length, and bytes that mean nothing to the format
	for d := 0; d <= 128; d++ {
		v6 := d > 32 || d%2 == 1
		cells = append(cells, tripCell{name: fmt.Sprintf("a network of %d bits, IPv6: %v", d, v6), format: "plain", fields: names(2), ver: 1 + int(b2bit(v6)),
			rows: []tripRow{{v6: v6, d: d, values: []tripVal{{n: 1}, {n: 1}}}}})
		cells = append(cells, tripCell{name: fmt.Sprintf("a network of %d bits, IPv6: %v", d, v6), format: "memip", fields: memipColumns, ver: 1 + int(b2bit(v6)),
			rows: []tripRow{{v6: v6, d: d, values: []tripVal{{n: 1}, {n: 1}, {n: 1}, {lit: "移动"}, {n: 1}, {n: 1}}}}})
	}
	for _, x := range " -:.#/|'\"" {
		cells = append(cells, tripCell{name: fmt.Sprintf("values with %q", x), format: "plain", fields: names(3), ver: 1,
			rows: []tripRow{{d: 10, values: []tripVal{{n: 2, lit: string(x)}, {n: 1, at: 1, lit: string(x)}, {lit: string(x)}}}}})
	}
	for _, x := range ",:.#/|\t" {
		cells = append(cells, tripCell{name: fmt.Sprintf("values with %q", x), format: "memip", fields: memipColumns, ver: 1,
			rows: []tripRow{{d: 10, values: []tripVal{{n: 2, lit: string(x)}, {n: 1, at: 1, lit: string(x)}, {lit: string(x)}, {lit: "电信"}, {n: 1, lit: string(x)}, {n: 1, lit: string(x)}}}}})
	}
	// columns of the format of ranges
	city, prov, dist, ctry, cont := tripVal{n: 3}, tripVal{n: 2}, tripVal{n: 1}, tripVal{n: 4}, tripVal{n: 3}
	isp := tripVal{lit: "电信"}
	full := []tripVal{city, prov, dist, isp, ctry, cont}
	for _, v6 := range fams {
		ver := 1 + int(b2bit(v6[0]))
		for bits := 0; bits < 1<<(len(v6)-1); bits++ {
			c := tripCell{name: fmt.Sprintf("%d rows, IPv6: %v, next to the one before with its values: %b", len(v6), v6[0], bits), format: "memip", fields: memipColumns, ver: ver}
			for i, f := range v6 {
				r := tripRow{v6: f, d: 9 + 7*i, values: append([]tripVal(nil), full...)}
				if i > 0 && bits>>(i-1)&1 == 1 {
					r.joined = true
				}
				c.rows = append(c.rows, r)
			}
			g := 0
			for i := range c.rows {
				if !c.rows[i].joined {
					g = i
				}
				for k := range c.rows[i].values {
					if k != 3 {
						c.rows[i].values[k].same = fmt.Sprintf("g%d.%d", g, k)
					}
				}
			}
			cells = append(cells, c)
			// the same values, but not next to each other
			d := tripCell{name: c.name + "; all the same", format: "memip", fields: memipColumns, ver: ver}
			for _, r := range c.rows {
				r.values = append([]tripVal(nil), r.values...)
				for k := range r.values {
					if k != 3 {
						r.values[k].same = fmt.Sprintf("g.%d", k)
					}
				}
				d.rows = append(d.rows, r)
			}
			cells = append(cells, d)
		}
		// next to each other, but one column differs
		if len(v6) == 2 {
			for k := 0; k < 6; k++ {
				c := tripCell{name: fmt.Sprintf("2 rows, IPv6: %v, that differ in %s", v6[0], memipColumns[k]), format: "memip", fields: memipColumns, ver: ver}
				if k == 0 {
					continue // rows of one province are joined
				}
				for i, f := range v6 {
					r := tripRow{v6: f, d: 9 + 7*i, values: append([]tripVal(nil), full...)}
					for q := range r.values {
						if q == 3 && k == 3 && i == 1 {
							r.values[q].lit = "联通"
						} else if q != 3 && q != k {
							r.values[q].same = fmt.Sprint("s", q)
						}
					}
					c.rows = append(c.rows, r)
				}
				cells = append(cells, c)
			}
		}
	}
	// networks whose text is known
	for _, k := range append(knownNets, joinedNets...) {
		for _, format := range []string{"plain", "memip"} {
			kinds := []string{"values by range", "the same values", "other values", "column 0 differs", "column 1 differs"}
			if format == "memip" {
				kinds = []string{"values by range", "the same values", "other values", "column 1 differs", "column 2 differs", "column 3 differs", "column 4 differs", "column 5 differs"}
			}
			for kind, how := range kinds {
				c := tripCell{name: fmt.Sprintf("the networks %v, %s", k.nets, how), format: format, fields: []string{"c0", "c1"}, ver: 1 + int(b2bit(k.v6))}
				if format == "memip" {
					c.fields = memipColumns
				}
				var prev *big.Int
				for g, l := range k.nets {
					for i, n := range l {
						r := tripRow{v6: k.v6}
						lo, hi, _ := ends(n)
						next := prev != nil && prev.Cmp(lo) == 0
						prev = hi.Add(hi, big.NewInt(1))
						r.joined = next && (kind == 1 || kind == 0 && i > 0)
						tag := []string{fmt.Sprint("g", g), "g", fmt.Sprint("g", g, ".", i), ""}[min(kind, 3)]
						for q := range c.fields {
							v := tripVal{n: 3, same: fmt.Sprint(tag, q)}
							if format == "memip" && q == 3 {
								v = isp
							}
							if how == fmt.Sprintf("column %d differs", q) {
								v = tripVal{n: 3, same: fmt.Sprint(q, "of row", len(c.rows))}
								if format == "memip" && q == 3 {
									v = tripVal{lit: []string{"电信", "联通", "移动"}[len(c.rows)%3]}
								}
							}
							r.values = append(r.values, v)
						}
						c.nets = append(c.nets, n)
						c.rows = append(c.rows, r)
					}
				}
				cells = append(cells, c)
			}
		}
	}
	// other orders of columns, columns that are not there, values with a
	// meaning
	one := func(name string, fields []string, vs ...tripVal) {
		for _, v6 := range []bool{false, true} {
			cells = append(cells, tripCell{name: name, format: "memip", fields: fields, ver: 1 + int(b2bit(v6)), rows: []tripRow{{v6: v6, d: 17, values: vs}}})
		}
	}
	rot := func(k int) (fs []string, vs []tripVal) {
		for i := range full {
			fs = append(fs, memipColumns[(i+k)%6])
			vs = append(vs, full[(i+k)%6])
		}
		return
	}
	for k := 1; k < 6; k++ {
		fs, vs := rot(k)
		one(fmt.Sprintf("columns from %s on", fs[0]), fs, vs...)
		one(fmt.Sprintf("columns from %s on but for the last two", fs[0]), fs[:4], vs[:4]...)
		one(fmt.Sprintf("columns from %s on and others", fs[0]), append([]string{"line", fs[0], "asn"}, fs[1:]...), append([]tripVal{{n: 2}, vs[0], {n: 1}}, vs[1:]...)...)
	}
	for k := range full {
		for _, v := range []string{"", "保留", "保留地址"} {
			vs := append([]tripVal(nil), full...)
			vs[k] = tripVal{lit: v, want: "默认"}
			one(fmt.Sprintf("column %d is %q", k, v), memipColumns, vs...)
		}
		for q := range full {
			vs := append([]tripVal(nil), full...)
			if k != 3 && q != 3 && q > k {
				vs[k], vs[q] = tripVal{n: 3, same: "both"}, tripVal{n: 3, same: "both"}
				one(fmt.Sprintf("columns %d and %d are the same", k, q), memipColumns, vs...)
			}
		}
		for _, v := range []string{"AS", "亚洲", "香港", "电信", "默认", "x保留", "其他", "未知", "-1", "0"} {
			vs := append([]tripVal(nil), full...)
			vs[k] = tripVal{lit: v}
			switch {
			case k == 1 && v == "香港", k == 5 && v == "AS", k == 3 && v != "电信" && v != "默认", v == "-1":
				continue // decided elsewhere
			}
			one(fmt.Sprintf("column %d is %q", k, v), memipColumns, vs...)
		}
	}
	for _, p := range [][2]string{{"电信", "电信"}, {"联通", "联通"}, {"移动", "移动"}, {"铁通", "其他"}, {"BGP", "其他"}} {
		vs := append([]tripVal(nil), full...)
		vs[3] = tripVal{lit: p[0], want: p[1]}
		one("isp "+p[0], memipColumns, vs...)
	}
	for _, p := range append([][2]string{{"XX", "XX"}}, continents...) {
		vs := append([]tripVal(nil), full...)
		vs[5] = tripVal{lit: p[0], want: p[1]}
		one("continent "+p[0], memipColumns, vs...)
	}
	for _, p := range []string{"香港", "澳门", "台湾"} {
		for k := 0; k < 6; k++ {
			vs := append([]tripVal(nil), full...)
			vs[1] = tripVal{lit: p}
			vs[2].want = "默认"
			fs := append(append([]string(nil), memipColumns[k:]...), memipColumns[:k]...)
			one(fmt.Sprintf("province %s, columns from %s on", p, fs[0]), fs, append(append([]tripVal(nil), vs[k:]...), vs[:k]...)...)
		}
	}
	return cells
}

// joinedNets are networks that are not those of their range.
var joinedNets = []struct {
	v6   bool
	nets [][]string
}{
	{false, [][]string{{"0.0.0.0/2", "64.0.0.0/2"}, {"128.0.0.0/2", "192.0.0.0/2"}}},
	{false, [][]string{{"1.0.1.0/24", "1.0.2.0/24", "1.0.3.0/24", "1.0.4.0/25", "1.0.4.128/25"}, {"1.0.5.0/24"}, {"1.0.7.0/24", "1.0.8.0/24"}}},
	{false, [][]string{{"255.255.255.252/32", "255.255.255.253/32", "255.255.255.254/32", "255.255.255.255/32"}}},
	{false, [][]string{{"127.255.255.254/32", "127.255.255.255/32", "128.0.0.0/32"}, {"128.0.0.1/32"}, {"128.0.0.2/32"}}},
	{true, [][]string{{"::/2", "4000::/2"}, {"8000::/2", "c000::/2"}}},
	{true, [][]string{{"2001:db8:0:ffff::/64", "2001:db8:1::/64", "2001:db8:1:1::/64"}, {"2001:db8:1:3::/64"}}},
	{true, [][]string{{"ffff:ffff:ffff:ffff:ffff:ffff:ffff:fffe/128", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff/128"}}},
}

func separatorsStay(c *Ctx) (*Result, error) {
	b := newBitRun(c, "Packing rows is interpreted with every separator of the output at every place of a value, and dumping with what was packed.")
	b.res.Rules = []string{sepRule}
	var cells []tripCell
	for _, format := range []string{"plain", "memip"} {
		fields, seps := []string{"c0", "c1", "c2"}, []string{",", "\t", "\n", "\r", "\r\n", ",,", "\n\n", ",\t", "\n#", "\n#### "}
		if format == "memip" {
			fields, seps = memipColumns, []string{"-", " ", "\n", "\r", "\r\n", "--", "  ", "- ", " -", "\n\n"}
		}
		for _, sep := range seps {
			for col := range fields {
				for n := 0; n <= 2; n++ {
					for at := 0; at <= n; at++ {
						for _, rows := range []int{1, 2} {
							c := tripCell{name: fmt.Sprintf("%q at %d of %d bytes of column %d, %d rows", sep, at, n, col, rows), format: format, fields: fields, ver: 1}
							for i := 0; i < rows; i++ {
								r := tripRow{d: 9 + 7*i}
								for k := range fields {
									v := tripVal{n: 2*((k+i)%2) + 1}
									if format == "memip" && k == 3 {
										v = tripVal{lit: "电信"}
									}
									if k == col && i == 0 {
										v = tripVal{n: n, at: at, lit: sep, any: true}
									}
									r.values = append(r.values, v)
								}
								c.rows = append(c.rows, r)
							}
							cells = append(cells, c)
						}
					}
				}
			}
		}
	}
	if err := b.trips(sepRule, cells); err != nil {
		return nil, err
	}
	var tries []trieTrip
	for _, sep := range []string{"\t", "\t\t", "\n", ", -"} {
		for col := 0; col < 3; col++ {
			for n := 0; n <= 2; n++ {
				for at := 0; at <= n; at++ {
					tries = append(tries, trieTrip{
						name: fmt.Sprintf("%q at %d of %d bytes of column %d", sep, at, n, col),
						path: []byte{byte(n % 2)}, same: 1, cols: []string{"country", "isp", "line"}, in: col,
						sep: &tripVal{n: n, at: at, lit: sep, any: sep[0] == '\t'}})
				}
			}
		}
	}
	if err := b.trieTripAll(sepRule, tries); err != nil {
		return nil, err
	}
	return b.done(), nil
}
