package check

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/bits"
	"uipcheck/load"
)

func init() {
	register("C08", "proof", trieLookups)
}

const lookupRule = "lookup follows the trie"

// opener finds the function of a format that opens a database.
func (b *bitRun) opener(relPkg string) *ssa.Function {
	if f := b.c.P.Func(relPkg, "newQuerier"); f != nil && len(f.Blocks) > 0 {
		return f
	}
	p := b.c.P.Pkg(relPkg)
	if p == nil {
		return nil
	}
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, ok := p.Members[n].(*ssa.Function)
		if !ok || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 2 {
			continue
		}
		if isByteSlice(f.Signature.Params().At(0).Type()) && strings.HasSuffix(f.Signature.Results().At(0).Type().String(), "db/inf.Query") {
			return f
		}
	}
	return nil
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), byteT)
}

// trieCell is a class of lookups: where the walk for the address ends.
type trieCell struct {
	version int    // address families in the file: 1, 2, 3
	v4      bool   // the address is IPv4
	form    string // how it is given
	start   int    // v4: depth at which the walk to the IPv4 part ends, 96 if it gets there
	depth   int    // depth at which the walk for the address ends
	kind    string // "record", "empty" or "deep"
	size    string // "ample", "exact", "short"
	cached  bool   // looked up before, by another address or the same
	rs      int    // awdb: record size
	ask     *versionAsk
}

// versionAsk asks for the version of an opened file, and not for an address.
type versionAsk struct {
	set   map[string]func(m *bits.Machine, t types.Type) bits.Value // in the description
	meta  *bits.Struct
	check func(m *bits.Machine, o bits.Outcome, q *bits.Iface, meta *bits.Struct)
}

// describe sets what the description of the file says.
func (a *versionAsk) describe(m *bits.Machine, v *bits.Struct) {
	if a == nil {
		return
	}
	st := v.T.Underlying().(*types.Struct)
	for i := range v.F {
		if f := a.set[st.Field(i).Name()]; f != nil {
			v.F[i] = f(m, st.Field(i).Type())
		}
	}
	a.meta = v
	order := func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		v := args[0]
		if i, ok := v.(*bits.Iface); ok && i.T != nil {
			v = i.V
		}
		l, ok := v.(*bits.Slice)
		if !ok {
			return nil
		}
		n := m.Len(c.StateOf(), l)
		var vs []string
		for i := 0; i < n; i++ {
			t, ok := m.Text(m.ElemAt(c.StateOf(), l, i))
			if !ok {
				return nil
			}
			vs = append(vs, t)
		}
		if n < 0 {
			return nil
		}
		sort.Strings(vs)
		for i, t := range vs {
			m.SetPtr(c, m.At(l, m.N(int64(i))), m.Str(t))
		}
		return []bits.Ret{{}}
	}
	// any order: whether it is one is not asked here
	m.Models["sort.Slice"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		return []bits.Ret{{}}
	}
	m.Models["sort.SliceStable"] = m.Models["sort.Slice"]
	m.Models["fmt.Sprintf"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		f, ok := m.Text(args[0])
		n := m.Len(c.StateOf(), args[1])
		parts := strings.Split(strings.ReplaceAll(f, "%v", "%s"), "%s")
		if !ok || n != len(parts)-1 || strings.Contains(strings.Join(parts, ""), "%") {
			return nil
		}
		var l []bits.Value
		for i, p := range parts {
			for _, x := range []byte(p) {
				l = append(l, m.Const(uint64(x), 8, false))
			}
			if i == n {
				break
			}
			v := m.ElemAt(c.StateOf(), args[1], i)
			if x, ok := v.(*bits.Iface); ok && x.T != nil {
				v = x.V
			}
			bs, ok := m.Content(c.StateOf(), v)
			if !ok || !strText(v) {
				return nil
			}
			for _, x := range bs {
				l = append(l, x)
			}
		}
		r := m.Bytes(l)
		r.Str = true
		return []bits.Ret{{V: r}}
	}
	for _, f := range []string{"sort.Strings", "sort.Sort", "sort.Stable", "slices.Sort", "slices.Sort[[]string string]", "slices.Sort[[]string, string]"} {
		m.Models[f] = order
	}
}

func (c trieCell) String() string {
	fam := "an IPv6 address"
	if c.v4 {
		fam = "an IPv4 address"
	}
	what := map[string]string{"record": "a record", "empty": "no record", "deep": "a node below the last bit"}[c.kind]
	s := fmt.Sprintf("%s (%s) that the trie takes to %s at bit %d", fam, c.form, what, c.depth)
	if c.v4 && c.start < 96 {
		s += fmt.Sprintf(", the IPv4 part ending at bit %d", c.start)
	}
	if c.size == "exact" {
		s += ", the record last in the file"
	}
	if c.size == "short" && c.rs > 0 {
		s += ", the record past the end of the file"
	} else if c.size == "short" {
		s += ", the record one byte too long for the file"
	}
	if c.rs > 0 {
		s += fmt.Sprintf(", record size %d", c.rs)
	}
	return s
}

type trieKey trieCell

// address makes the address of a cell and the bits that are walked.
func (c trieCell) address(m *bits.Machine, name string) (*bits.Slice, []bits.Bit) {
	n := 16
	if c.v4 {
		n = 4
	}
	bs := freeBytes(m, name, n)
	if !c.v4 {
		// not a mapped address: the bytes before this one as in a mapped
		// one, this one not
		j := 0
		fmt.Sscanf(c.form, "byte %d", &j)
		for i := 0; i < j; i++ {
			bs[i] = m.Const(uint64(mapped[i]), 8, false)
		}
		m.Assume(m.Equal(bs[j], m.Const(uint64(mapped[j]), 8, false)), false)
		if j >= 10 {
			m.Assume(m.Equal(bs[j], m.Const(0, 8, false)), false)
		}
	}
	var bl []bits.Bit
	for k := 0; k < 8*n; k++ {
		b := bitAt(bs, k)
		bl = append(bl, b)
		if b > 1 {
			m.Choose(b)
		}
	}
	if c.form == "16 bytes" {
		bs = append(constInts(m, mapped...), bs...)
	}
	return slice(m, bs), bl
}

// ipdbCell is one cell of lookups in an ipdb file.
type ipdbCell struct {
	trieCell
	m    *bits.Machine
	file *bits.Slice // the whole file
	base *bits.Int   // where the nodes start in it
	n    *bits.Int   // how many nodes
}

// child is what bit says about node x.
func (c *ipdbCell) child(x *bits.Int, bit bits.Bit) *bits.Int {
	m := c.m
	at := m.Plus(c.base, m.Times(x, 8), m.Times(m.Wide(m.FromBits([]bits.Bit{bit}, false), true), 4))
	return c.word(at, 4)
}

// word reads n bytes, the first one highest.
func (c *ipdbCell) word(at *bits.Int, n int) *bits.Int {
	var bs []*bits.Int
	for i := 0; i < n; i++ {
		bs = append(bs, c.m.ByteAt(c.file, c.m.Plus(at, c.m.N(int64(i)))))
	}
	return word(c.m, bs, 64, true)
}

// walk goes down from x along the bits, and states that it ends where the
// cell says; ok is false for a cell that no file is in.
func walk(m *bits.Machine, x, n *bits.Int, bl []bits.Bit, depth int, kind string, child func(x *bits.Int, b bits.Bit) *bits.Int) (end *bits.Int, ok bool) {
	ok = true
	for j := 0; j < depth; j++ {
		ok = m.Order(x, n, -1) && ok
		x = child(x, bl[j])
	}
	switch kind {
	case "record":
		ok = m.Order(x, n, 1) && ok
	case "empty":
		ok = m.Order(x, n, 0) && ok
	case "deep", "inner":
		ok = m.Order(x, n, -1) && ok
	case "leaf": // a record or none
		for _, s := range []bool{true, false} {
			ok = m.Assume(m.Less(m.Wide(x, s), m.Wide(n, s)), false) && ok
		}
	}
	return x, ok
}

func trieLookups(c *Ctx) (*Result, error) {
	b := newBitRun(c, "For every depth at which the walk for an address can end, and every way it can end, opening a file and looking the address up are interpreted with the file and the address free; the node read at each step, the record that is decoded and the prefix length have to be those of the walk.")
	b.res.Rules = []string{lookupRule}
	if err := b.ipdbLookups(); err != nil {
		return nil, err
	}
	if err := b.awdbLookups(); err != nil {
		return nil, err
	}
	return b.done(), nil
}

// dumpOf finds the function of a format that dumps a database.
func (b *bitRun) dumpOf(relPkg string) *ssa.Function {
	ok := func(f *ssa.Function) bool {
		s := f.Signature
		return len(f.Blocks) > 0 && s.Recv() == nil && s.Params().Len() == 2 && s.Results().Len() == 2 && isByteSlice(s.Params().At(0).Type()) &&
			strings.HasSuffix(s.Params().At(1).Type().String(), "db/inf.Exporter") && strings.HasSuffix(s.Results().At(0).Type().String(), "db/inf.IpData")
	}
	p := b.c.P.Pkg(relPkg)
	if p == nil {
		return nil
	}
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if f, is := p.Members[n].(*ssa.Function); is && ok(f) {
			return f
		}
	}
	return nil
}

// finder gets the function a dump finds networks with, and the state it is
// called in.
func (b *bitRun) finder(m *bits.Machine, dump *ssa.Function, file bits.Value) (fs []*bits.Func, os []bits.Outcome) {
	_, all := b.walkers()
	if len(all) == 0 {
		return
	}
	for _, w := range all {
		m.Models[w.String()] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
			for _, a := range args {
				if f, ok := a.(*bits.Func); ok {
					fs = append(fs, f)
					os = append(os, s.StateOf().Copy())
				}
			}
			return []bits.Ret{}
		}
	}
	b.run(m, dump, file, &bits.Iface{Nil: 1})
	for _, w := range all {
		delete(m.Models, w.String())
	}
	return
}

var ipdbFieldNames = []string{"isp_domain", "line", "owner_domain", "country_name", "district", "city_name", "asn", "region_name"}
var ipdbInfoField = map[string]string{"isp_domain": "Isp", "line": "Line", "country_name": "Country", "district": "District", "city_name": "City", "asn": "Asn", "region_name": "Province"}

func (b *bitRun) ipdbLookups() error {
	open := b.opener("db/format/ipdb")
	query := b.g.method("db/query", "Db", "Query")
	dump := b.dumpOf("db/format/ipdb")
	if open == nil || query == nil || dump == nil {
		return fmt.Errorf("the opener or dumper of ipdb files or Db.Query is not there")
	}
	var cells []trieCell
	add := func(c trieCell) { cells = append(cells, c) }
	kinds := func(d, max int) []string {
		if d == max {
			return []string{"record", "empty", "deep"}
		}
		return []string{"record", "empty"}
	}
	for _, form := range []string{"4 bytes", "16 bytes"} {
		for _, v := range []int{1, 3} {
			for d := 0; d <= 32; d++ {
				for _, k := range kinds(d, 32) {
					add(trieCell{version: v, v4: true, form: form, start: 96, depth: d, kind: k, size: "ample"})
				}
			}
		}
	}
	for s := 0; s < 96; s++ {
		for _, k := range []string{"record", "empty"} {
			add(trieCell{version: 3, v4: true, form: "4 bytes", start: s, kind: k, size: "ample"})
		}
	}
	for d := 0; d <= 128; d++ {
		for _, k := range kinds(d, 128) {
			add(trieCell{version: 2, form: "byte 0", start: 96, depth: d, kind: k, size: "ample"})
		}
	}
	for j := 1; j < 12; j++ {
		for _, d := range []int{1, 8*j + 3, 96, 97, 128} {
			for _, k := range kinds(d, 128) {
				add(trieCell{version: 2, form: fmt.Sprintf("byte %d", j), start: 96, depth: d, kind: k, size: "ample"})
			}
		}
	}
	for _, d := range []int{0, 1, 33, 64, 128} {
		add(trieCell{version: 3, form: "byte 0", start: 96, depth: d, kind: "record", size: "ample"})
	}
	for _, d := range []int{1, 8, 14, 20, 32} {
		for _, s := range []string{"exact", "short"} {
			add(trieCell{version: 1, v4: true, form: "4 bytes", start: 96, depth: d, kind: "record", size: s})
			add(trieCell{version: 2, form: "byte 0", start: 96, depth: 4 * d, kind: "record", size: s})
		}
	}
	if f := os.Getenv("CELL"); f != "" {
		var keep []trieCell
		for _, c := range cells {
			if strings.Contains(fmt.Sprintf("%+v", trieKey(c)), f) {
				keep = append(keep, c)
			}
		}
		cells = keep
	}
	b.each(len(cells), func(i int) { b.ipdbLookup(open, dump, query, cells[i]) })
	b.sample("ipdb: %d classes of lookups", len(cells))
	return nil
}

// ipdbLookup decides one cell.
func (b *bitRun) ipdbLookup(open, dump, query *ssa.Function, tc trieCell) {
	m := b.machine()
	m.Select, m.Quiet = true, false
	m.MaxStep = 300000
	c := &ipdbCell{trieCell: tc, m: m}
	file := m.Input(open.Params[0].Type(), "file").(*bits.Slice)
	c.file = &bits.Slice{Obj: file.Obj, Off: m.N(0), Len: file.Len}
	ml := c.word(m.N(0), 4)
	c.base = m.Plus(m.N(4), ml)
	c.n = m.Small("nodes", 28)
	ip, bl := tc.address(m, "ip")
	x := m.N(0)
	ok := true
	if tc.version&1 == 1 {
		// to the IPv4 part: ::ffff:0:0/96
		var v4 []bits.Bit
		for i := 0; i < 96; i++ {
			v4 = append(v4, b2bit(i >= 80))
		}
		kind := "any"
		if tc.start < 96 {
			kind = "leaf"
		}
		var s *bits.Int
		s, ok = walk(m, x, c.n, v4, tc.start, kind, c.child)
		if tc.v4 {
			x = s
		}
	}
	if ok {
		x, ok = walk(m, x, c.n, bl, tc.depth, tc.kind, c.child)
	}
	if !ok {
		return // nothing is like this
	}
	at := m.Plus(c.base, m.Times(c.n, 8), m.Minus(x, c.n))
	size := c.word(at, 2)
	switch tc.size {
	case "ample":
		c.file.Len = m.Bounded("filelen", 1<<45, 1<<46)
	case "exact":
		c.file.Len = m.Plus(at, m.N(2), size)
	case "short":
		c.file.Len = m.Plus(at, m.N(1), size)
	}
	m.Index = func(n int64) *bits.Int {
		if !tc.v4 {
			return nil
		}
		k := 0
		for 1<<uint(k) < n {
			k++
		}
		if 1<<uint(k) != n || k > 32 {
			return nil
		}
		var l []bits.Bit
		for i := k - 1; i >= 0; i-- {
			l = append(l, bl[i])
		}
		for len(l) < 64 {
			l = append(l, 0)
		}
		return m.FromBits(l, true)
	}
	off := m.Bounded("langoff", 0, 1<<10)
	asked, right := 0, 0
	m.Models["encoding/json.Unmarshal"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		src, ok1 := args[0].(*bits.Slice)
		dst, ok2 := args[1].(*bits.Iface)
		if !ok1 || !ok2 {
			return nil
		}
		p, ok := dst.V.(*bits.Ptr)
		if !ok {
			return nil
		}
		if !m.Same(src.Off, m.N(4)) || !m.Same(src.Len, ml) {
			b.fail(lookupRule, s.Fn, "the description of the file is not read from where it is")
		}
		t := dst.T.Underlying().(*types.Pointer).Elem()
		v := m.Input(t, "meta").(*bits.Struct)
		st := t.Underlying().(*types.Struct)
		for i := range v.F {
			switch st.Field(i).Name() {
			case "NodeCount":
				v.F[i] = c.n
			case "TotalSize":
				v.F[i] = m.Minus(c.file.Len, c.base)
			case "IPVersion":
				if w, ok := v.F[i].(*bits.Int); ok {
					v.F[i] = m.Const(uint64(tc.version), len(w.Bits), w.Signed)
				}
			case "Languages":
				v.F[i] = m.Map(st.Field(i).Type(), bits.Pair{K: m.Str("CN"), V: off})
			case "Fields":
				var l []bits.Value
				for _, n := range ipdbFieldNames {
					l = append(l, m.Str(n))
				}
				v.F[i] = m.List(types.Typ[types.String], l...)
			}
		}
		tc.ask.describe(m, v)
		m.SetPtr(s, p, v)
		return []bits.Ret{{V: &bits.Iface{Nil: 1}}}
	}
	split := func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		src, ok := args[0].(*bits.Slice)
		if !ok {
			return nil
		}
		asked++
		key := "wrong"
		if src.Obj == c.file.Obj && m.Same(src.Off, m.Plus(at, m.N(2))) && m.Same(src.Len, size) {
			right++
			key = "record"
		}
		r := m.Input(s.Call.Signature().Results().At(0).Type(), key).(*bits.Slice)
		r.Len = m.Bounded("columns", 1<<20, 1<<21)
		return []bits.Ret{{V: r}}
	}
	m.Models["strings.Split"], m.Models["strings.SplitN"] = split, split
	cell := tc.String()
	opened := 0
	var done []bits.Outcome
	for _, o := range b.run(m, open, c.file) {
		i, ok := o.Res[1].(*bits.Iface)
		if !ok || o.Bit(i.Nil) == 0 {
			continue
		}
		q, ok := o.Res[0].(*bits.Iface)
		if !ok || q.T == nil {
			continue
		}
		opened++
		if tc.ask != nil {
			tc.ask.check(m, o, q, tc.ask.meta)
			continue
		}
		done = append(done, m.RunFrom(o, query, b.dbOf(m, query, q), ip)...)
	}
	if tc.ask != nil {
		if opened == 0 {
			b.fail(versionRule, open, "such a file cannot be opened"+notes(m))
		}
		return
	}
	col := func(k int) bits.Value {
		rec := m.Input(types.NewSlice(types.Typ[types.String]), "record").(*bits.Slice)
		return m.ElemOf(rec, m.Plus(off, m.N(int64(k))))
	}
	want := map[string]string{}
	cols := map[string]string{}
	for i, n := range ipdbFieldNames {
		if f := ipdbInfoField[n]; f != "" {
			want[f] = m.Key(col(i))
		}
		cols[n] = m.Key(col(i))
	}
	b.saw(query)
	fs, fo := b.finder(m, dump, c.file)
	for i, f := range fs {
		for _, o := range m.Apply(fo[i], f, ip) {
			if msg := b.findResult(m, o, tc, bl, cols); msg != "" {
				if os.Getenv("ALLCELLS") != "" {
					fmt.Printf("BAD dump %+v: %.200s\n", trieKey(tc), msg)
				}
				b.fail(lookupRule, f.Fn, "for "+cell+": "+msg+notes(m))
			}
		}
	}
	if opened == 0 || len(fs) == 0 {
		b.fail(lookupRule, open, "for "+cell+": such a file cannot be opened"+notes(m))
		return
	}
	if len(done) == 0 {
		b.fail(lookupRule, query, "for "+cell+": the lookup never returns"+notes(m))
	}
	for _, o := range done {
		if msg := b.lookupResult(m, o, tc, want); msg != "" {
			if os.Getenv("ALLCELLS") != "" {
				if len(msg) > 200 {
					msg = msg[:200]
				}
				fmt.Printf("BAD %+v: %s\n", trieKey(tc), msg)
			}
			b.fail(lookupRule, query, "for "+cell+": "+msg+notes(m))
		}
	}
}

func b2bit(x bool) bits.Bit {
	if x {
		return 1
	}
	return 0
}

// lookupResult compares a result of Db.Query with what its cell asks for.
func (b *bitRun) lookupResult(m *bits.Machine, o bits.Outcome, tc trieCell, want map[string]string) string {
	if len(o.Res) != 3 {
		return "unexpected results"
	}
	if stop, msg := failing(o, tc); stop {
		return msg
	}
	n, ok := o.Res[1].(*bits.Int)
	if !ok {
		return "the prefix length is not known"
	}
	if v, ok := n.Const(); !ok || v != int64(tc.prefix()) {
		return fmt.Sprintf("the prefix length is %s, not %d", m.String(n), tc.prefix())
	}
	p, ok := o.Res[0].(*bits.Ptr)
	if !ok {
		return "the record is not known"
	}
	s, ok := m.Deref(o, p).(*bits.Struct)
	if !ok {
		return "the record is not known"
	}
	st := s.T.Underlying().(*types.Struct)
	for i := range s.F {
		name := st.Field(i).Name()
		if w, used := want[name]; used && m.Key(s.F[i]) != w {
			return fmt.Sprintf("%s is %s, not %s", name, m.Key(s.F[i]), w)
		}
	}
	return ""
}

// failing decides whether a lookup, whose error is the last result, has to
// fail.
func failing(o bits.Outcome, tc trieCell) (stop bool, msg string) {
	e, ok := o.Res[len(o.Res)-1].(*bits.Iface)
	if !ok || o.Bit(e.Nil) > 1 {
		return true, "whether it fails is not decided"
	}
	failed := o.Bit(e.Nil) == 0
	if tc.kind != "record" || tc.size == "short" {
		if !failed {
			return true, "the lookup succeeds"
		}
		return true, ""
	}
	if failed {
		return true, "the lookup fails"
	}
	return false, ""
}

// prefix is the prefix length a lookup gives.
func (c trieCell) prefix() int {
	if c.rs > 0 && c.v4 && c.version == 6 && c.start < 96 {
		return c.start
	}
	return c.depth
}

// findResult compares a result of the function a dump finds networks with.
func (b *bitRun) findResult(m *bits.Machine, o bits.Outcome, tc trieCell, bl []bits.Bit, want map[string]string) string {
	if len(o.Res) != 3 {
		return "unexpected results"
	}
	if stop, msg := failing(o, tc); stop {
		return msg
	}
	p, ok := o.Res[0].(*bits.Ptr)
	if !ok {
		return "the network is not known"
	}
	ip, ok1 := m.Content(o, m.Deref(o, p, 0))
	mask, ok2 := m.Content(o, m.Deref(o, p, 1))
	if !ok1 || !ok2 {
		return "the network is not known"
	}
	n := tc.prefix()
	if tc.prefix() != tc.depth {
		// the network of the IPv6 part the IPv4 part ends in
		bl = make([]bits.Bit, 128)
	}
	var wi, wm []*bits.Int
	for k := 0; k < len(bl); k += 8 {
		x, y := make([]bits.Bit, 8), make([]bits.Bit, 8)
		for i := 0; i < 8; i++ {
			if k+i < n {
				x[7-i], y[7-i] = bl[k+i], 1
			}
		}
		wi, wm = append(wi, m.FromBits(x, false)), append(wm, m.FromBits(y, false))
	}
	if d := diffBytes(m, form16(m, ip), form16(m, wi)); d != "" {
		return "the network: " + d
	}
	if len(mask) == 16 && len(wm) == 4 {
		wm = append(constInts(m, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255), wm...)
	}
	if d := diffBytes(m, mask, wm); d != "" {
		return "the mask: " + d
	}
	ps, ok := m.Entries(o, o.Res[1])
	if !ok {
		return "the values are not known"
	}
	got := map[string]string{}
	for _, p := range ps {
		k, ok := m.Text(p.K)
		if !ok {
			return "a name of a value is not known"
		}
		got[k] = m.Key(p.V)
	}
	for k, w := range want {
		if got[k] != w {
			return fmt.Sprintf("the value of %s is %s, not %s", k, got[k], w)
		}
	}
	return ""
}

// awdbCell is one cell of lookups in an awdb file.
type awdbCell struct {
	trieCell
	m    *bits.Machine
	file *bits.Slice
	n    *bits.Int
}

// child is what bit says about node x: the left record of a node for 0, the
// right one for 1.
func (c *awdbCell) child(x *bits.Int, bit bits.Bit) *bits.Int {
	m := c.m
	at := m.Times(x, int64(c.rs/4))
	by := func(k int64) []bits.Bit { return m.ByteAt(c.file, m.Plus(at, m.N(k))).Bits }
	join := func(parts ...[]bits.Bit) *bits.Int { // high first
		var l []bits.Bit
		for i := len(parts) - 1; i >= 0; i-- {
			l = append(l, parts[i]...)
		}
		for len(l) < 64 {
			l = append(l, 0)
		}
		return m.FromBits(l, true)
	}
	var left, right *bits.Int
	switch c.rs {
	case 24:
		left, right = join(by(0), by(1), by(2)), join(by(3), by(4), by(5))
	case 28:
		left, right = join(by(3)[4:], by(0), by(1), by(2)), join(by(3)[:4], by(4), by(5), by(6))
	case 32:
		left, right = join(by(0), by(1), by(2), by(3)), join(by(4), by(5), by(6), by(7))
	}
	switch bit {
	case 0:
		return left
	case 1:
		return right
	}
	return m.Ite(bit, right, left)
}

var awdbInfo = map[string]string{"country": "Country", "province": "Province", "city": "City", "isp": "Isp", "asnumber": "Asn", "continent": "Continent", "line": "Line"}

func (b *bitRun) awdbLookups() error {
	open := b.opener("db/format/awdb")
	dump := b.dumpOf("db/format/awdb")
	query := b.g.method("db/query", "Db", "Query")
	if open == nil || query == nil || dump == nil {
		return fmt.Errorf("the opener or dumper of awdb files or Db.Query is not there")
	}
	var cells []trieCell
	for _, rs := range []int{24, 28, 32} {
		add := func(c trieCell) {
			c.rs = rs
			for _, k := range []string{"record", "empty", "deep"} {
				if k == "deep" && (c.depth < 32 || !c.v4 && c.depth < 128) {
					continue
				}
				c.kind = k
				cells = append(cells, c)
			}
		}
		for d := 0; d <= 32; d++ {
			for _, v := range []int{4, 6} {
				add(trieCell{version: v, v4: true, form: "4 bytes", start: 96, depth: d})
			}
			if rs == 28 {
				add(trieCell{version: 6, v4: true, form: "16 bytes", start: 96, depth: d})
			}
		}
		step := 7
		if rs == 28 {
			step = 1
		}
		for s := 0; s < 96; s += step {
			add(trieCell{version: 6, v4: true, form: "4 bytes", start: s})
		}
		for d := 0; d <= 128; d++ {
			if d%8 == 0 || rs == 28 {
				add(trieCell{version: 6, form: "byte 0", start: 96, depth: d})
			}
		}
	}
	for d := 1; d <= 32; d += 15 {
		cells = append(cells, trieCell{version: 4, v4: true, form: "4 bytes", start: 96, depth: d, kind: "record", size: "short", rs: 24})
	}
	for j := 1; j < 12; j++ {
		for _, k := range []string{"record", "empty"} {
			cells = append(cells, trieCell{version: 6, form: fmt.Sprintf("byte %d", j), start: 96, depth: 8*j + 3, kind: k, rs: 24})
		}
	}
	if f := os.Getenv("CELL"); f != "" {
		var keep []trieCell
		for _, c := range cells {
			if strings.Contains(fmt.Sprintf("%+v", trieKey(c)), f) {
				keep = append(keep, c)
			}
		}
		cells = keep
	}
	b.each(len(cells), func(i int) { b.awdbLookup(open, dump, query, cells[i]) })
	b.sample("awdb: %d classes of lookups", len(cells))
	return nil
}

func (b *bitRun) awdbLookup(open, dump, query *ssa.Function, tc trieCell) {
	m := b.machine()
	m.Select = true
	m.MaxStep = 300000
	c := &awdbCell{trieCell: tc, m: m}
	c.file = m.Input(open.Params[0].Type(), "file").(*bits.Slice)
	c.file.Len = m.Bounded("filelen", 1<<45, 1<<46)
	if tc.size == "short" {
		c.file.Len = m.Bounded("filelen", 2000, 1<<20)
	}
	c.n = m.Small("nodes", 28)
	ip, bl := tc.address(m, "ip")
	x, ok := m.N(0), true
	if tc.version == 6 {
		kind := "any"
		if tc.start < 96 {
			kind = "leaf"
		}
		var s *bits.Int
		s, ok = walk(m, x, c.n, make([]bits.Bit, 96), tc.start, kind, c.child)
		if tc.v4 {
			x = s
		}
	}
	if ok {
		x, ok = walk(m, x, c.n, bl, tc.depth, tc.kind, c.child)
	}
	if !ok {
		b.skip(tc.String())
		return
	}
	tree := m.Times(c.n, int64(tc.rs/4))
	// the description is in the last 2000 bytes; the data before it
	marker := m.Bounded("marker", 0, 1900)
	metaAt := m.Plus(m.Minus(c.file.Len, m.N(2000)), marker)
	if tc.kind == "record" {
		// the record is in the data, or past the end of it
		off, n, in := m.Minus(m.Minus(x, c.n), m.N(16)), m.Minus(metaAt, m.Plus(tree, m.N(16))), tc.size != "short"
		for _, s := range []bool{true, false} {
			ok = m.Assume(m.Less(m.Wide(off, s), m.Wide(n, s)), in) && ok
			ok = m.Assume(m.Less(m.Wide(off, s), m.Wide(c.file.Len, s)), in) && ok
			ok = m.Assume(m.Less(m.Wide(x, s), m.Wide(m.Plus(c.n, m.N(16)), s)), false) && ok
			ok = m.Assume(m.Less(m.Wide(m.N(0), s), m.Wide(x, s)), true) && ok
			ok = m.Assume(m.Equal(m.Wide(x, s), m.Wide(m.N(0), s)), false) && ok
		}
		if !ok {
			b.skip(tc.String())
			return
		}
	}
	m.Models["bytes.LastIndex"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		in, ok := args[0].(*bits.Slice)
		if !ok || in.Obj != c.file.Obj {
			return nil
		}
		return []bits.Ret{{V: m.Minus(metaAt, in.Off)}}
	}
	val := func(k string) bits.Value { return m.Input(types.NewSlice(byteT), "value "+k) }
	reflectModels(m)
	wrong := ""
	m.Call = func(m *bits.Machine, f *ssa.Function, s *bits.Site, args []bits.Value) []bits.Ret {
		return b.awdbDecode(c, f, s, args, metaAt, m.Plus(tree, m.N(16)), m.Plus(tree, m.Minus(x, c.n)), val, &wrong)
	}
	lookup := "(*" + load.ModPath + "/db/format/awdb.Reader).LookupNetwork"
	cell := tc.String()
	m.Models[lookup] = trialLookup(val)
	var opened []bits.Outcome
	for _, o := range b.run(m, open, c.file) {
		if i, ok := o.Res[1].(*bits.Iface); ok && o.Bit(i.Nil) != 0 {
			opened = append(opened, o)
		}
	}
	if tc.ask != nil {
		for _, o := range opened {
			if q, ok := o.Res[0].(*bits.Iface); ok && q.T != nil {
				tc.ask.check(m, o, q, tc.ask.meta)
			}
		}
		if len(opened) == 0 {
			b.fail(versionRule, open, "such a file cannot be opened"+notes(m))
		}
		return
	}
	fs, at := b.finder(m, dump, c.file)
	delete(m.Models, lookup)
	if len(opened) == 0 || len(fs) == 0 {
		b.fail(lookupRule, open, "for "+cell+": such a file cannot be opened"+notes(m))
		return
	}
	want, vals := map[string]string{}, map[string]string{}
	for k, f := range awdbInfo {
		want[f] = m.Key(textOf(val(k)))
		vals[k] = m.Key(textOf(val(k)))
	}
	report := func(f *ssa.Function, o bits.Outcome, msg string) {
		if wrong != "" && msg != "" {
			msg = wrong
		}
		if msg != "" {
			if os.Getenv("ALLCELLS") != "" {
				fmt.Printf("BAD %+v: %.200s\n", trieKey(tc), msg)
			}
			b.fail(lookupRule, f, "for "+cell+": "+msg+notes(m))
		}
	}
	for _, o := range opened {
		q, ok := o.Res[0].(*bits.Iface)
		if !ok || q.T == nil {
			b.fail(lookupRule, open, "for "+cell+": what is opened is not known")
			continue
		}
		done := m.RunFrom(o, query, b.dbOf(m, query, q), ip)
		if len(done) == 0 {
			b.fail(lookupRule, query, "for "+cell+": the lookup never returns"+notes(m))
		}
		for _, o := range done {
			report(query, o, b.lookupResult(m, o, tc, want))
		}
	}
	for i, f := range fs {
		done := m.Apply(at[i], f, ip)
		if len(done) == 0 {
			b.fail(lookupRule, f.Fn, "for "+cell+": the lookup never returns"+notes(m))
		}
		for _, o := range done {
			report(f.Fn, o, b.findResult(m, o, tc, bl, vals))
		}
	}
}

// textOf is the string made of bytes.
func textOf(v bits.Value) bits.Value {
	s := *v.(*bits.Slice)
	s.Str = true
	return &s
}

// dbOf is a handle on an open database.
func (b *bitRun) dbOf(m *bits.Machine, query *ssa.Function, q bits.Value) bits.Value {
	t := query.Params[0].Type().Underlying().(*types.Pointer).Elem()
	v := m.Zero(t).(*bits.Struct)
	st := t.Underlying().(*types.Struct)
	for k := range v.F {
		if types.IsInterface(st.Field(k).Type()) {
			v.F[k] = q
		}
	}
	return m.New(v)
}

// awdbMarker is what the description of an awdb file follows.
const awdbMarker = "\xab\xcd\xefipplus360.com"

// awdbRecord is a record as the decoder gives it.
func awdbRecord(m *bits.Machine, val func(string) bits.Value) bits.Value {
	empty := types.NewInterfaceType(nil, nil)
	t := types.NewMap(types.Typ[types.String], empty)
	var ps []bits.Pair
	var ks []string
	for k := range awdbInfo {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		ps = append(ps, bits.Pair{K: m.Str(k), V: &bits.Iface{T: types.NewSlice(byteT), V: val(k)}})
	}
	return &bits.Iface{T: t, V: m.Map(t, ps...)}
}

// awdbDecode stands for the decoder: it fills in the description of the file
// or the record, if asked for what is there.
func (b *bitRun) awdbDecode(c *awdbCell, f *ssa.Function, s *bits.Site, args []bits.Value, metaAt, dataAt, rec *bits.Int, val func(string) bits.Value, wrong *string) []bits.Ret {
	m := c.m
	if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "db/format/awdb") {
		return nil
	}
	dst, bufArg, atArg := decodeCall(m, f, s, args)
	if dst == nil {
		return nil
	}
	st, ok := args[bufArg].(*bits.Struct)
	if !ok {
		st = m.Deref(s.StateOf(), args[bufArg]).(*bits.Struct)
	}
	buf, at := st.F[0].(*bits.Slice), args[atArg].(*bits.Int)
	p, ok := dst.V.(*bits.Ptr)
	if !ok {
		return nil
	}
	t := dst.T.Underlying().(*types.Pointer).Elem()
	pos := m.Plus(m.Wide(buf.Off, true), m.Wide(at, true))
	if st, ok := t.Underlying().(*types.Struct); ok {
		if !m.Same(m.Minus(pos, metaAt), m.N(int64(len(awdbMarker)))) || buf.Obj != c.file.Obj {
			*wrong = "the description of the file is not read from where it is"
			m.SetPtr(s, p, m.Input(t, "wrong meta"))
			return []bits.Ret{{V: bits.Tuple{m.ResultOf(s).(bits.Tuple)[0], &bits.Iface{Nil: 1}}}}
		}
		v := m.Input(t, "meta").(*bits.Struct)
		for i := range v.F {
			w, isInt := v.F[i].(*bits.Int)
			if !isInt {
				continue
			}
			switch st.Field(i).Name() {
			case "NodeCount":
				v.F[i] = m.Wide(c.n, w.Signed)
			case "RecordSize":
				v.F[i] = m.Const(uint64(c.rs), len(w.Bits), w.Signed)
			case "IPVersion":
				v.F[i] = m.Const(uint64(c.version), len(w.Bits), w.Signed)
			}
		}
		c.ask.describe(m, v)
		m.SetPtr(s, p, v)
	} else {
		good := val
		if !m.Same(pos, rec) || buf.Obj != c.file.Obj {
			*wrong = "the record is read at " + m.Key(pos) + ", not at " + m.Key(rec)
			good = func(k string) bits.Value { return val("elsewhere " + k) }
		}
		if !m.Same(m.Wide(buf.Off, true), dataAt) || !m.Same(m.Plus(m.Wide(buf.Off, true), m.Wide(buf.Len, true)), metaAt) {
			*wrong = "the data is not what lies between the tree and the description"
			good = func(k string) bits.Value { return val("elsewhere " + k) }
		}
		m.SetPtr(s, p, awdbRecord(m, good))
	}
	return []bits.Ret{{V: bits.Tuple{m.ResultOf(s).(bits.Tuple)[0], &bits.Iface{Nil: 1}}}}
}
