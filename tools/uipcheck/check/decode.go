package check

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/bits"
	"uipcheck/load"
)

func init() {
	register("C20", "proof", recordDecoding)
}

const decodeRule = "records are decoded as they are encoded"

// encoding is one way a value can be encoded.
type encoding struct {
	what string // "string", "bytes", "uint", "int", "big", "bool", "float32", "float64", "map", "array", "bad"
	typ  int    // type number in the file
	ctrl int    // the first byte
	size int    // for fixed sizes; -1 otherwise
	ptr  bool   // a pointer (ctrl) to a short string
	deep bool   // a pointer to a pointer
}

func (e encoding) String() string {
	if e.ptr {
		return fmt.Sprintf("a pointer with first byte %#02x to a short string", e.ctrl)
	}
	if e.what == "bad" {
		return fmt.Sprintf("a value of type %d and size bits %d, which is not valid", e.typ, e.ctrl&31)
	}
	return fmt.Sprintf("a value of type %d (%s) and size bits %d", e.typ, e.what, e.ctrl&31)
}

type decodeCell struct {
	enc  encoding
	at   string // "value", "key", "record"
	end  string // "ample", "exact", "short"
	keys int
}

func (c decodeCell) String() string {
	s := c.enc.String()
	switch c.at {
	case "key":
		s += " as a name"
	case "record":
		s += " in place of the record"
	}
	switch c.end {
	case "exact":
		s += ", last in the data"
	case "short":
		s += ", one byte too long for the data"
	}
	return s
}

func encodings() (vals, keys []encoding) {
	types := map[int]string{2: "string", 3: "float64", 4: "bytes", 5: "uint", 6: "uint", 7: "map", 8: "int", 9: "uint", 10: "big", 11: "array", 14: "bool", 15: "float32"}
	max := map[int]int{5: 2, 6: 4, 8: 4, 9: 8, 10: 16}
	for t := 2; t < 20; t++ {
		for sz := 0; sz < 32; sz++ {
			ctrl := sz
			if t < 8 {
				ctrl |= t << 5
			}
			e := encoding{what: types[t], typ: t, ctrl: ctrl, size: sz}
			switch e.what {
			case "string", "bytes":
				if sz >= 29 {
					e.size = -1
				}
			case "float64":
				if sz != 8 {
					e.what = "bad"
				}
			case "float32":
				if sz != 4 {
					e.what = "bad"
				}
			case "uint", "int", "big":
				if sz > max[t] {
					e.what = "bad"
				}
			case "bool":
				if sz > 1 {
					e.what = "bad"
				}
			case "map", "array":
				if sz > 2 {
					continue // the matter of the entries
				}
			case "":
				e.what = "bad"
			}
			if e.what == "bad" && sz >= 29 && t != 2 {
				continue
			}
			vals = append(vals, e)
			if t == 2 {
				keys = append(keys, e)
			}
			if t > 2 && sz == 1 {
				keys = append(keys, encoding{what: "bad", typ: t, ctrl: ctrl, size: sz})
			}
		}
	}
	for c := 0x20; c < 0x40; c++ {
		e := encoding{what: "string", typ: 1, ctrl: c, size: 3, ptr: true}
		vals, keys = append(vals, e), append(keys, e)
	}
	vals = append(vals, encoding{what: "string", typ: 1, ctrl: 0x20, size: 3, ptr: true, deep: true})
	return
}

func recordDecoding(c *Ctx) (*Result, error) {
	b := newBitRun(c, "For every first byte a value or name in a record can have, looking an address up is interpreted with the other bytes of the data free; the name and value that come out have to be the ones that are encoded, and the entry after it has to be found where it is.")
	b.res.Rules = []string{decodeRule}
	open := b.opener("db/format/awdb")
	dump := b.dumpOf("db/format/awdb")
	if open == nil || dump == nil {
		return nil, fmt.Errorf("the opener or dumper of awdb files is not there")
	}
	vals, keys := encodings()
	var cells []decodeCell
	for _, e := range vals {
		for _, end := range []string{"ample", "exact", "short"} {
			if (e.what == "bad" || e.deep) && end != "ample" {
				continue
			}
			cells = append(cells, decodeCell{enc: e, at: "value", end: end})
		}
	}
	for _, e := range keys {
		cells = append(cells, decodeCell{enc: e, at: "key", end: "ample"})
	}
	for c := 0x20; c < 0x40; c++ {
		cells = append(cells, decodeCell{enc: encoding{what: "map", typ: 1, ctrl: c, ptr: true}, at: "record", end: "ample"})
	}
	if f := os.Getenv("CELL"); f != "" {
		var keep []decodeCell
		for _, c := range cells {
			if strings.Contains(fmt.Sprintf("%+v", struct{ C any }{c.enc})+c.String(), f) {
				keep = append(keep, c)
			}
		}
		cells = keep
	}
	b.each(len(cells), func(i int) { b.decodeOne(open, dump, cells[i]) })
	b.sample("%d ways to encode a name or a value", len(cells))
	return b.done(), nil
}

// wantText is a text that comes out of the data: bytes [at, at+n).
type wantText struct {
	at, n *bits.Int
}

// data is what is known of the data of a file.
type dataOf struct {
	m    *bits.Machine
	s    *bits.Slice
	ok   bool
	bad  string
	used []*bits.Int
}

func (d *dataOf) byteAt(i *bits.Int) *bits.Int { return d.m.ByteAt(d.s, i) }

// put states that byte i is v.
func (d *dataOf) put(i *bits.Int, v int) {
	x := d.byteAt(i)
	for k := 0; k < 8; k++ {
		d.ok = d.m.Assume(x.Bits[k], v>>uint(k)&1 == 1) && d.ok
	}
}

func (d *dataOf) num(at *bits.Int, n int) *bits.Int {
	var l []bits.Bit
	for i := n - 1; i >= 0; i-- {
		l = append(l, d.byteAt(d.m.Plus(at, d.m.N(int64(i)))).Bits...)
	}
	for len(l) < 64 {
		l = append(l, 0)
	}
	return d.m.FromBits(l[:64], true)
}

// encode writes what is known of an encoding at a place; the value is the
// text that is meant or the name of a printed value.
func (d *dataOf) encode(at *bits.Int, e encoding) (next *bits.Int, text *wantText, printed string) {
	m := d.m
	plus := func(k int) *bits.Int { return m.Plus(at, m.N(int64(k))) }
	d.put(at, e.ctrl)
	if e.ptr {
		n := (e.ctrl>>3)&3 + 1
		p := d.num(plus(1), n)
		switch v := int64(e.ctrl & 7); n {
		case 1:
			p = m.Plus(p, m.N(v<<8))
		case 2:
			p = m.Plus(p, m.N(v<<16+2048))
		case 3:
			p = m.Plus(p, m.N(v<<24+526336))
		}
		if e.what == "map" {
			return plus(1 + n), &wantText{at: p}, ""
		}
		if e.deep {
			d.put(p, 0x28)
			p = m.Plus(d.num(m.Plus(p, m.N(1)), 2), m.N(2048))
		}
		d.put(p, 0x43)
		return plus(1 + n), &wantText{m.Plus(p, m.N(1)), m.N(3)}, ""
	}
	h := 1
	if e.typ > 7 {
		d.put(plus(1), e.typ-7)
		h = 2
	}
	size := m.N(int64(e.size))
	if e.size < 0 {
		switch e.ctrl & 31 {
		case 29:
			size = m.Plus(d.num(plus(h), 1), m.N(29))
			h++
		case 30:
			size = m.Plus(d.num(plus(h), 2), m.N(285))
			h += 2
		case 31:
			size = m.Plus(d.num(plus(h), 3), m.N(65821))
			h += 3
		}
	}
	body := plus(h)
	next = m.Plus(body, size)
	switch e.what {
	case "string", "bytes":
		return next, &wantText{body, size}, ""
	case "bool":
		return body, nil, "bool " + fmt.Sprint(e.size)
	case "uint":
		return next, nil, "int " + numKey(m, d.raw(body, e.size), false)
	case "int":
		l := d.raw(body, e.size)
		return next, nil, "int " + numKey(m, l, e.size == 4)
	case "big":
		return next, nil, "int " + numKey(m, d.raw(body, e.size), false)
	case "float32":
		return next, nil, "float32 " + bitsKey(m, d.raw(body, 4))
	case "float64":
		return next, nil, "float64 " + bitsKey(m, d.raw(body, 8))
	case "map":
		for i := 0; i < e.size; i++ {
			d.put(body, 0x41)
			d.put(m.Plus(body, m.N(1)), 'p'+i)
			d.put(m.Plus(body, m.N(2)), 0x42)
			body = m.Plus(body, m.N(5))
		}
		return body, nil, "?"
	case "array":
		for i := 0; i < e.size; i++ {
			d.put(body, 0x42)
			body = m.Plus(body, m.N(3))
		}
		return body, nil, "?"
	}
	return next, nil, ""
}

// raw is a number of n bytes, from the low end.
func (d *dataOf) raw(at *bits.Int, n int) []bits.Bit {
	var l []bits.Bit
	for i := n - 1; i >= 0; i-- {
		l = append(l, d.byteAt(d.m.Plus(at, d.m.N(int64(i)))).Bits...)
	}
	return l
}

func bitsKey(m *bits.Machine, l []bits.Bit) string {
	var b strings.Builder
	for _, x := range l {
		b.WriteString(m.BitKey(x) + ".")
	}
	return b.String()
}

// numKey names a number by its bits, in 129 of them.
func numKey(m *bits.Machine, l []bits.Bit, signed bool) string {
	n := append([]bits.Bit(nil), l...)
	top := bits.Bit(0)
	if signed && len(l) > 0 {
		top = l[len(l)-1]
	}
	for len(n) < 129 {
		n = append(n, top)
	}
	return bitsKey(m, n)
}

// printed names what fmt.Sprint makes of a value.
func printedKey(m *bits.Machine, o bits.Outcome, v bits.Value) string {
	i, ok := v.(*bits.Iface)
	if !ok || i.T == nil {
		return "unknown"
	}
	switch x := i.V.(type) {
	case *bits.Int:
		x = m.Under(o, x)
		return "int " + numKey(m, x.Bits, x.Signed)
	case *bits.Bool:
		if b := o.Bit(x.B); b < 2 {
			return fmt.Sprintf("bool %d", b)
		}
	case *bits.Ptr:
		if op, ok := m.Deref(o, x).(*bits.Opaque); ok && strings.HasSuffix(i.T.String(), "big.Int") {
			return op.Key
		}
	case *bits.Opaque:
		if strings.HasPrefix(x.Key, "float") {
			if b, ok := i.T.Underlying().(*types.Basic); ok && strings.HasPrefix(x.Key, b.Name()+" ") {
				return x.Key
			}
			return i.T.String() + " of " + x.Key
		}
	}
	return "other " + m.Key(v)
}

func (b *bitRun) decodeOne(open, dump *ssa.Function, dc decodeCell) {
	m := b.machine()
	m.Select = true
	m.MaxStep = 8000
	m.Deep = 4
	tc := trieCell{version: 4, v4: true, form: "4 bytes", start: 96, depth: 1, kind: "record", rs: 24}
	c := &awdbCell{trieCell: tc, m: m}
	c.file = m.Input(open.Params[0].Type(), "file").(*bits.Slice)
	c.file.Len = m.Bounded("filelen", 1<<45, 1<<46)
	c.n = m.Small("nodes", 24)
	ip, bl := tc.address(m, "ip")
	x, ok := walk(m, m.N(0), c.n, bl, 1, "record", c.child)
	off := m.Minus(m.Minus(x, c.n), m.N(16))
	for _, s := range []bool{true, false} {
		ok = m.Assume(m.Less(m.Wide(off, s), m.Wide(c.file.Len, s)), true) && ok
		ok = m.Assume(m.Less(m.Wide(x, s), m.Wide(m.Plus(c.n, m.N(16)), s)), false) && ok
		ok = m.Assume(m.Less(m.Wide(m.N(0), s), m.Wide(x, s)), true) && ok
		ok = m.Assume(m.Equal(m.Wide(x, s), m.Wide(m.N(0), s)), false) && ok
	}
	// the data
	d := &dataOf{m: m, ok: ok, s: m.Input(types.NewSlice(byteT), "data").(*bits.Slice)}
	d.s = &bits.Slice{Obj: d.s.Obj, Off: m.N(0), Len: m.Bounded("datalen", 1<<34, 1<<35)}
	rec := m.Small("rec", 20)
	if dc.enc.ptr && dc.end != "ample" {
		rec = m.N(0)
	}
	at := rec
	type entry struct {
		key, val *wantText
		printed  string
	}
	var want []entry
	fail := dc.enc.what == "bad" || dc.end == "short" || dc.enc.deep && dc.at == "key"
	n := 2
	if dc.end != "ample" {
		n = 1
	}
	if dc.at == "record" {
		_, t, _ := d.encode(at, dc.enc)
		at = t.at
	}
	d.put(at, 0xe0|n)
	at = m.Plus(at, m.N(1))
	short := func(ch int) *wantText {
		d.put(at, 0x41)
		d.put(m.Plus(at, m.N(1)), ch)
		t := &wantText{m.Plus(at, m.N(1)), m.N(1)}
		at = m.Plus(at, m.N(2))
		return t
	}
	for i := 0; i < n; i++ {
		var e entry
		if i == 0 && dc.at == "key" {
			at, e.key, _ = d.encode(at, dc.enc)
		} else {
			e.key = short('a' + i)
		}
		if i == 0 && dc.at == "value" {
			at, e.val, e.printed = d.encode(at, dc.enc)
		} else {
			d.put(at, 0x42)
			e.val = &wantText{m.Plus(at, m.N(1)), m.N(2)}
			at = m.Plus(at, m.N(3))
		}
		want = append(want, e)
	}
	if !d.ok {
		b.skip(dc.String())
		return
	}
	switch {
	case dc.end == "exact" && dc.enc.ptr:
		// the string is last, not the pointer
		d.s.Len = m.Plus(want[0].val.at, want[0].val.n)
		for _, s := range []bool{true, false} {
			for k := int64(0); k < 9; k++ {
				m.Assume(m.Less(m.Wide(m.Plus(rec, m.N(k)), s), m.Wide(d.s.Len, s)), true)
				m.Assume(m.Less(m.Wide(d.s.Len, s), m.Wide(m.Plus(rec, m.N(k)), s)), false)
			}
		}
	case dc.end == "short" && dc.enc.ptr:
		d.s.Len = m.Minus(m.Plus(want[0].val.at, want[0].val.n), m.N(1))
		for _, s := range []bool{true, false} {
			for k := int64(0); k < 9; k++ {
				m.Assume(m.Less(m.Wide(m.Plus(rec, m.N(k)), s), m.Wide(d.s.Len, s)), true)
				m.Assume(m.Less(m.Wide(d.s.Len, s), m.Wide(m.Plus(rec, m.N(k)), s)), false)
			}
		}
	case dc.end == "exact":
		d.s.Len = at
	case dc.end == "short":
		d.s.Len = m.Minus(at, m.N(1))
	}
	tree := m.Times(c.n, int64(c.rs/4))
	marker := m.Bounded("marker", 0, 1900)
	metaAt := m.Plus(m.Minus(c.file.Len, m.N(2000)), marker)
	m.Models["bytes.LastIndex"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		in, ok := args[0].(*bits.Slice)
		if !ok || in.Obj != c.file.Obj {
			return nil
		}
		return []bits.Ret{{V: m.Minus(metaAt, in.Off)}}
	}
	reflectModels(m)
	decodeModels(m)
	val := func(k string) bits.Value { return m.Input(types.NewSlice(byteT), "value "+k) }
	wrong := ""
	inside, looked := false, false
	m.Call = func(m *bits.Machine, f *ssa.Function, s *bits.Site, args []bits.Value) []bits.Ret {
		if inside || f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "db/format/awdb") {
			return nil
		}
		dst, bufArg, atArg := decodeCall(m, f, s, args)
		if dst == nil {
			return nil
		}
		if _, ok := dst.T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
			return b.awdbDecode(c, f, s, args, metaAt, m.Plus(tree, m.N(16)), m.Plus(tree, m.Minus(x, c.n)), val, &wrong)
		}
		// the record: in data of its own
		looked = true
		as := append([]bits.Value(nil), args...)
		as[atArg] = m.Resize(rec, len(args[atArg].(*bits.Int).Bits), args[atArg].(*bits.Int).Signed)
		switch v := args[bufArg].(type) {
		case *bits.Struct:
			as[bufArg] = &bits.Struct{T: v.T, F: []bits.Value{d.s}}
		case *bits.Ptr:
			st := m.Deref(s.StateOf(), v).(*bits.Struct)
			as[bufArg] = m.New(&bits.Struct{T: st.T, F: []bits.Value{d.s}})
		}
		inside = true
		defer func() { inside = false }()
		rs := []bits.Ret{}
		for _, o := range m.RunFrom(s.StateOf().Copy(), f, as...) {
			if len(o.Res) == 1 {
				rs = append(rs, o.From(o.Res[0]))
			} else {
				rs = append(rs, o.From(bits.Tuple(o.Res)))
			}
		}
		return rs
	}
	lookup := "(*" + load.ModPath + "/db/format/awdb.Reader).LookupNetwork"
	m.Models[lookup] = trialLookup(val)
	fs, at0 := b.finder(m, dump, c.file)
	delete(m.Models, lookup)
	cell := dc.String()
	bad := func(msg string) {
		if os.Getenv("ALLCELLS") != "" {
			fmt.Printf("BAD %s: %.300s\n", cell, msg)
		}
		b.fail(decodeRule, fs[0].Fn, "for "+cell+": "+msg+notes(m))
	}
	if len(fs) == 0 {
		b.fail(decodeRule, open, "for "+cell+": such a file cannot be opened"+notes(m))
		return
	}
	f := fs[0]
	done := m.Apply(at0[0], f, ip)
	if !looked {
		bad("no record is decoded")
		return
	}
	if len(done) == 0 {
		bad("the lookup never returns")
	}
	for _, o := range done {
		e, ok := o.Res[len(o.Res)-1].(*bits.Iface)
		if !ok || o.Bit(e.Nil) > 1 {
			bad("whether it fails is not decided")
			continue
		}
		failed := o.Bit(e.Nil) == 0
		if fail || failed {
			if failed && !fail {
				bad("the record is not decoded: an error")
			} else if !failed {
				bad("it is decoded all the same")
			}
			continue
		}
		ps, ok := m.Entries(o, o.Res[1])
		if !ok {
			bad("the values are not known")
			continue
		}
		if len(ps) != len(want) {
			bad(fmt.Sprintf("%d values, not %d", len(ps), len(want)))
			continue
		}
		for i, w := range want {
			msg := "it is not there"
			for _, p := range ps {
				if d.isText(o, p.K, w.key) != "" {
					continue
				}
				switch {
				case w.val != nil:
					msg = d.isText(o, p.V, w.val)
				case w.printed == "?":
					msg = ""
				default:
					msg = ""
					if got, want := m.Key(p.V), m.Key(m.Input(types.Typ[types.String], "printed "+w.printed)); got != want {
						msg = "it is printed from something else"
					}
				}
			}
			if msg != "" {
				bad(fmt.Sprintf("entry %d: %s", i+1, msg))
			}
		}
	}
}

// isText tells what is wrong with a text, "" if nothing is.
func (d *dataOf) isText(o bits.Outcome, v bits.Value, w *wantText) string {
	m := d.m
	s, ok := v.(*bits.Slice)
	if !ok {
		return "it is not a text"
	}
	n := m.Under(o, s.Len)
	if !m.Same(m.Wide(n, true), m.Under(o, w.n)) {
		return "it is " + m.String(n) + " bytes long, not " + m.String(w.n)
	}
	if k, ok := w.n.Const(); ok {
		for i := int64(0); i < k; i++ {
			x, ok := m.ElemIn(o, s, m.N(i)).(*bits.Int)
			if !ok {
				return "it is not known"
			}
			if msg := diffBits(m, x, m.Under(o, d.byteAt(m.Plus(w.at, m.N(i))))); msg != "" {
				return fmt.Sprintf("byte %d is %s", i, msg)
			}
		}
		return ""
	}
	i := m.Bounded("i", 0, 1<<30)
	x, ok := m.ElemIn(o, s, i).(*bits.Int)
	if !ok {
		return "it is not known"
	}
	if msg := diffBits(m, x, d.byteAt(m.Plus(w.at, i))); msg != "" {
		return "byte i is " + msg
	}
	return ""
}

// decodeCall recognises a call that decodes a value at a place in data.
func decodeCall(m *bits.Machine, f *ssa.Function, s *bits.Site, args []bits.Value) (dst *bits.Iface, bufArg, atArg int) {
	bufArg, atArg = -1, -1
	for i, a := range args {
		switch v := a.(type) {
		case *bits.Struct:
			if types.TypeString(v.T, nil) == "reflect.Value" {
				x, place := refl(v)
				if x != nil && !place {
					if _, ok := x.T.Underlying().(*types.Pointer); ok {
						dst = x
					}
				}
			} else if len(v.F) == 1 {
				if _, ok := v.F[0].(*bits.Slice); ok {
					bufArg = i
				}
			}
		case *bits.Ptr:
			if st, ok := m.Deref(s.StateOf(), v).(*bits.Struct); ok && len(st.F) == 1 {
				if _, ok := st.F[0].(*bits.Slice); ok {
					bufArg = i
				}
			}
		case *bits.Int:
			if atArg < 0 {
				atArg = i
			}
		}
	}
	if dst == nil || bufArg < 0 || atArg < 0 || f.Signature.Results().Len() != 2 {
		return nil, -1, -1
	}
	return dst, bufArg, atArg
}

// trialLookup stands for the lookup when a file is opened.
func trialLookup(val func(string) bits.Value) func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
	return func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		r := m.ResultOf(s).(bits.Tuple)
		if len(r) != 3 {
			return nil
		}
		if p, ok := args[2].(*bits.Iface); ok {
			if q, ok := p.V.(*bits.Ptr); ok {
				m.SetPtr(s, q, awdbRecord(m, val))
			}
		}
		r[1], r[2] = &bits.Bool{B: 1}, &bits.Iface{Nil: 1}
		return []bits.Ret{{V: r}}
	}
}

// decodeModels are the library functions that values go through.
func decodeModels(m *bits.Machine) {
	str := types.Typ[types.String]
	m.Models["fmt.Sprint"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		l, ok := args[0].(*bits.Slice)
		if !ok {
			return nil
		}
		if n, ok := l.Len.Const(); !ok || n != 1 {
			return nil
		}
		return []bits.Ret{{V: m.Input(str, "printed "+printedKey(m, s.StateOf(), m.ElemIn(s.StateOf(), l, m.N(0))))}}
	}
	decimal := func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		x, ok := args[0].(*bits.Int)
		if !ok {
			return nil
		}
		if len(args) > 1 {
			if base, ok := args[1].(*bits.Int); !ok || m.Key(base) != "10" {
				return nil
			}
		}
		x = m.Under(s.StateOf(), x)
		return []bits.Ret{{V: m.Input(str, "printed int "+numKey(m, x.Bits, x.Signed))}}
	}
	m.Models["strconv.FormatInt"], m.Models["strconv.FormatUint"], m.Models["strconv.Itoa"] = decimal, decimal, decimal
	m.Models["(*math/big.Int).SetBytes"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		p, ok := args[0].(*bits.Ptr)
		l, ok2 := m.Content(s.StateOf(), args[1])
		if !ok || !ok2 {
			return nil
		}
		var raw []bits.Bit
		for i := len(l) - 1; i >= 0; i-- {
			raw = append(raw, l[i].Bits...)
		}
		m.SetPtr(s, p, &bits.Opaque{Key: "int " + numKey(m, raw, false)})
		return []bits.Ret{{V: p}}
	}
	for n, w := range map[string]int{"32": 32, "64": 64} {
		n, w := n, w
		m.Models["math.Float"+n+"frombits"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
			x, ok := args[0].(*bits.Int)
			if !ok || len(x.Bits) != w {
				return nil
			}
			x = m.Under(s.StateOf(), x)
			return []bits.Ret{{V: &bits.Opaque{Key: "float" + n + " " + bitsKey(m, x.Bits), T: s.Call.Signature().Results().At(0).Type()}}}
		}
	}
}
