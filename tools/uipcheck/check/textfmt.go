package check

import (
	"fmt"
	"go/types"
	"net"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/bits"
	"uipcheck/load"
)

const textRule = "a text file's rows are all read"

// textRun is a machine for formats of lines, with what it knows of the texts
// of networks, addresses and numbers.
type textRun struct {
	b      *bitRun
	m      *bits.Machine
	pairs  []textPair
	n      int
	saved  map[string]bits.Value // what a JSON text stands for
	savedT map[string]types.Type
	ranges []textRange // what IPNets gives
	hooked bool
}

// textPair: a text and what it stands for.
type textPair struct {
	kind string
	text []bits.Value
	v    bits.Value
	key  string
}

type textRange struct {
	start, end []*bits.Int // 16 bytes
	nets       []bits.Value
}

// plainSet are the bytes that mean something in some format.
const plainSet = " ,\t\n\v\f\r-_:#.|/\\\"'0+\x85\xa0"

// plain is n free bytes that are no separators.
func (t *textRun) plain(name string, n int) []bits.Value {
	var r []bits.Value
	for i := 0; i < n; i++ {
		x := t.m.Input(byteT, fmt.Sprintf("%s.%d", name, i)).(*bits.Int)
		for k := 0; k < len(plainSet); k++ {
			t.m.Assume(t.m.Equal(x, t.m.Const(uint64(plainSet[k]), 8, false)), false)
		}
		r = append(r, x)
	}
	return r
}

func (t *textRun) str(items []bits.Value) *bits.Slice {
	s := t.m.Bytes(items)
	s.Str = true
	return s
}

func (t *textRun) lit(s string) []bits.Value {
	var r []bits.Value
	for i := 0; i < len(s); i++ {
		r = append(r, t.m.Const(uint64(s[i]), 8, false))
	}
	return r
}

func (t *textRun) itemsKey(items []bits.Value) string {
	var ps []string
	for _, i := range items {
		ps = append(ps, t.m.Key(i))
	}
	return strings.Join(ps, ";")
}

// textOf is the text of something of a kind with a key; mid is in its middle.
func (t *textRun) textOf(kind, key, mid string, v bits.Value) []bits.Value {
	for _, p := range t.pairs {
		if p.kind == kind && p.key == key {
			return p.text
		}
	}
	if x, ok := t.real(kind, v); ok {
		l := t.lit(x)
		t.pairs = append(t.pairs, textPair{kind, l, v, key})
		return l
	}
	t.n++
	name := fmt.Sprintf("%s%d", kind, t.n)
	x := append(append(t.plain(name+"a", 1), t.lit(mid)...), t.plain(name+"b", 1)...)
	// unlike the other texts of its kind
	for _, p := range t.pairs {
		if p.kind == kind && len(p.text) > 0 {
			t.m.Assume(t.m.Equal(p.text[0].(*bits.Int), x[0].(*bits.Int)), false)
		}
	}
	t.pairs = append(t.pairs, textPair{kind, x, v, key})
	return x
}

// meant finds what a text stands for.
func (t *textRun) meant(kind string, items []bits.Value) (bits.Value, bool) {
	k := t.itemsKey(items)
	for _, p := range t.pairs {
		if p.kind == kind && t.itemsKey(p.text) == k {
			return p.v, true
		}
	}
	l, ok := constBytes(items)
	if !ok {
		return nil, false
	}
	m := t.m
	switch text := string(l); kind {
	case "net":
		if _, n, err := net.ParseCIDR(text); err == nil {
			return named(m, t.b.stdType("net", "IPNet"), map[string]bits.Value{"IP": slice(m, constInts(m, n.IP...)), "Mask": slice(m, constInts(m, n.Mask...))}), true
		}
	case "ip":
		if ip := net.ParseIP(text); ip != nil {
			return slice(m, constInts(m, ip...)), true
		}
	case "number":
		if x, err := strconv.ParseUint(text, 10, 64); err == nil {
			return m.Const(x, 64, false), true
		}
	}
	return nil, false
}

// constBytes are the bytes of items that are known.
func constBytes(items []bits.Value) ([]byte, bool) {
	var l []byte
	for _, i := range items {
		x, ok := i.(*bits.Int)
		if !ok {
			return nil, false
		}
		c, ok := x.Const()
		if !ok {
			return nil, false
		}
		l = append(l, byte(c))
	}
	return l, true
}

// real is the text of something that is known.
func (t *textRun) real(kind string, v bits.Value) (string, bool) {
	known := func(v bits.Value) ([]byte, bool) {
		l, ok := t.m.Content(bits.Outcome{}.Fresh(), v)
		if !ok {
			return nil, false
		}
		var r []byte
		for _, x := range l {
			c, ok := x.Const()
			if !ok {
				return nil, false
			}
			r = append(r, byte(c))
		}
		return r, true
	}
	switch kind {
	case "net":
		s := v.(*bits.Struct)
		ip, ok1 := known(fieldOf(s, "IP"))
		mask, ok2 := known(fieldOf(s, "Mask"))
		if ok1 && ok2 {
			return (&net.IPNet{IP: ip, Mask: mask}).String(), true
		}
	case "ip":
		if ip, ok := known(v); ok {
			return net.IP(ip).String(), true
		}
	case "number":
		if c, ok := v.(*bits.Int).Const(); ok {
			return fmt.Sprint(c), true
		}
	}
	return "", false
}

// netKey identifies a network by its bytes.
func (t *textRun) netKey(o bits.Outcome, v bits.Value) (string, bits.Value, bool) {
	m := t.m
	s, ok := v.(*bits.Struct)
	if !ok {
		if s, ok = m.Deref(o, v).(*bits.Struct); !ok {
			return "", nil, false
		}
	}
	ip, ok1 := m.Content(o, fieldOf(s, "IP"))
	mask, ok2 := m.Content(o, fieldOf(s, "Mask"))
	if !ok1 || !ok2 {
		return "", nil, false
	}
	return m.ListKey(ip) + "/" + m.ListKey(mask), s, true
}

func (b *bitRun) newTextRun(pkg *ssa.Package) *textRun {
	m := b.machine()
	m.Select, m.Quiet, m.Traces = true, true, 1
	m.MaxStep = 60000
	t := &textRun{b: b, m: m, saved: map[string]bits.Value{}, savedT: map[string]types.Type{}}
	m.UseText()
	m.Globals(pkg)
	equalModels(m)
	str := types.Typ[types.String]
	_ = str
	noErr := &bits.Iface{Nil: 1}
	bad := func(what string) *bits.Iface { return &bits.Iface{Key: what} }
	one := func(items []bits.Value) []bits.Ret { return []bits.Ret{{V: t.str(items)}} }
	netText := func(o bits.Outcome, v bits.Value) ([]bits.Value, bool) {
		k, s, ok := t.netKey(o, v)
		if !ok {
			return nil, false
		}
		ip, _ := m.Content(o, fieldOf(s.(*bits.Struct), "IP"))
		mid := "."
		if len(ip) == 16 {
			mid = ":"
		}
		return t.textOf("net", k, mid+"/", s), true
	}
	ipText := func(o bits.Outcome, v bits.Value) ([]bits.Value, bool) {
		ip, ok := m.Content(o, v)
		if !ok || len(ip) != 4 && len(ip) != 16 {
			return nil, false
		}
		mid := ":"
		l := form16(m, ip)
		if diffBytes(m, l[:12], constInts(m, mapped...)) == "" {
			mid = "."
		}
		return t.textOf("ip", m.ListKey(l), mid, slice(m, copyBytes(l))), true
	}
	num := func(o bits.Outcome, v bits.Value) ([]bits.Value, bool) {
		x, ok := v.(*bits.Int)
		if !ok {
			return nil, false
		}
		x = m.Resize(m.Under(o, x), 64, x.Signed)
		return t.textOf("number", m.Key(x), "", x), true
	}
	m.Models["(*net.IPNet).String"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		if x, ok := netText(s.StateOf(), args[0]); ok {
			return one(x)
		}
		return nil
	}
	m.Models["(net.IP).String"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		if x, ok := ipText(s.StateOf(), args[0]); ok {
			return one(x)
		}
		return nil
	}
	m.Models["(time.Time).String"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		return one(t.plain("time", 2))
	}
	m.Models["(time.Time).Format"] = m.Models["(time.Time).String"]
	m.Verb = func(m *bits.Machine, s *bits.Site, verb byte, i *bits.Iface) ([]bits.Value, bool) {
		if i.T == nil {
			return nil, false
		}
		switch ty := strings.TrimPrefix(i.T.String(), "*"); {
		case ty == "net.IPNet" && verb != 'd':
			return netText(s.StateOf(), i.V)
		case ty == "net.IP" && verb != 'd':
			return ipText(s.StateOf(), i.V)
		case ty == "time.Time":
			return t.plain("time", 2), true
		}
		if _, ok := i.V.(*bits.Int); ok && (verb == 'd' || verb == 'v') {
			return num(s.StateOf(), i.V)
		}
		return nil, false
	}
	dec := func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		if x, ok := num(s.StateOf(), args[0]); ok {
			return one(x)
		}
		return nil
	}
	for _, n := range []string{"Itoa", "FormatInt", "FormatUint"} {
		m.Models["strconv."+n] = dec
	}
	content := func(s *bits.Site, v bits.Value) ([]bits.Value, bool) {
		l, ok := m.Content(s.StateOf(), v)
		if !ok {
			return nil, false
		}
		var r []bits.Value
		for _, x := range l {
			r = append(r, x)
		}
		return r, true
	}
	for _, n := range []string{"ParseUint", "ParseInt", "Atoi"} {
		m.Models["strconv."+n] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
			l, ok := content(s, args[0])
			if !ok {
				return nil
			}
			res := s.Call.Signature().Results().At(0).Type()
			if len(args) > 1 {
				if base, ok := args[1].(*bits.Int); !ok || m.Key(base) != m.Key(m.Const(10, 64, true)) {
					return nil
				}
			}
			if v, ok := t.meant("number", l); ok {
				_, signed := intSign(res)
				size := int64(64)
				if len(args) > 2 {
					x, ok := args[2].(*bits.Int)
					if !ok {
						return nil
					}
					if size, ok = x.Const(); !ok {
						return nil
					}
					if size == 0 {
						size = 64
					}
				}
				if signed {
					size--
				}
				x := m.Under(s.StateOf(), v.(*bits.Int))
				for k := size; k < int64(len(x.Bits)); k++ {
					switch x.Bits[k] {
					case 0:
					case 1:
						return []bits.Ret{{V: bits.Tuple{m.Zero(res), bad("a number out of range")}}}
					default:
						m.Notes = append(m.Notes, "a number that may be out of range")
						return nil
					}
				}
				return []bits.Ret{{V: bits.Tuple{m.Resize(v.(*bits.Int), 64, signed), noErr}}}
			}
			return []bits.Ret{{V: bits.Tuple{m.Zero(res), bad("no number")}}}
		}
	}
	m.Models["strings.Map"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		f, ok1 := args[0].(*bits.Func)
		l, ok2 := content(s, args[1])
		if !ok1 || !ok2 || f.Fn == nil {
			return nil
		}
		if r, ok := t.mapped(s.StateOf(), f, l); ok {
			return one(r)
		}
		return nil
	}
	m.Models["net.ParseIP"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		l, ok := content(s, args[0])
		if !ok {
			return nil
		}
		if v, ok := t.meant("ip", l); ok {
			return []bits.Ret{{V: v}}
		}
		return []bits.Ret{{V: m.NilSlice()}}
	}
	m.Models["net.ParseCIDR"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		l, ok := content(s, args[0])
		if !ok {
			return nil
		}
		if v, ok := t.meant("net", l); ok {
			// as net.ParseCIDR makes it
			ns := v.(*bits.Struct)
			return []bits.Ret{{V: bits.Tuple{m.Input(s.Call.Signature().Results().At(0).Type(), "an address of it"), m.New(ns), noErr}}}
		}
		return []bits.Ret{{V: bits.Tuple{m.NilSlice(), &bits.Ptr{}, bad("no network")}}}
	}
	m.Models["encoding/json.Marshal"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		i, ok := args[0].(*bits.Iface)
		if !ok || i.T == nil {
			return nil
		}
		v, ty := i.V, i.T
		if p, ok := ty.(*types.Pointer); ok {
			v, ty = m.Deref(s.StateOf(), v), p.Elem()
		}
		if v == nil {
			return nil
		}
		x := t.textOf("json", m.Key(v), "", v)
		t.savedT[t.itemsKey(x)] = ty
		return []bits.Ret{{V: bits.Tuple{m.Bytes(x), noErr}}}
	}
	m.Models["encoding/json.Unmarshal"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		l, ok := content(s, args[0])
		dst, ok2 := args[1].(*bits.Iface)
		if !ok || !ok2 {
			return nil
		}
		p, ok := dst.V.(*bits.Ptr)
		if !ok {
			return nil
		}
		v, ok := t.meant("json", l)
		if !ok {
			return []bits.Ret{{V: bad("no JSON")}}
		}
		e := dst.T.Underlying().(*types.Pointer).Elem()
		if _, isPtr := e.Underlying().(*types.Pointer); isPtr {
			v = m.New(v)
		}
		m.SetPtr(s, p, v)
		return []bits.Ret{{V: noErr}}
	}
	for _, n := range []string{"errors.New", "fmt.Errorf"} {
		m.Models[n] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
			return []bits.Ret{{V: bad("error")}}
		}
	}
	m.Models["(*"+load.ModPath+"/ipnet.Range).IPNets"] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		if t.ranges == nil {
			return nil
		}
		r, ok := m.Deref(s.StateOf(), args[0]).(*bits.Struct)
		if !ok {
			return nil
		}
		st, ok1 := m.Content(s.StateOf(), fieldOf(r, "Start"))
		en, ok2 := m.Content(s.StateOf(), fieldOf(r, "End"))
		if !ok1 || !ok2 {
			return nil
		}
		t.hooked = true
		for _, x := range t.ranges {
			if diffBytes(m, form16(m, st), x.start) == "" && diffBytes(m, form16(m, en), x.end) == "" {
				return []bits.Ret{{V: m.List(s.Call.Signature().Results().At(0).Type().(*types.Slice).Elem(), x.nets...)}}
			}
		}
		m.Notes = append(m.Notes, "a range that is in no line of the file")
		return []bits.Ret{{V: m.NilSlice()}}
	}
	return t
}

// mapped is what strings.Map makes of a text. A free byte is part of any
// character but those it is known not to be.
func (t *textRun) mapped(o bits.Outcome, f *bits.Func, l []bits.Value) ([]bits.Value, bool) {
	m := t.m
	var out []bits.Value
	call := func(o bits.Outcome, r *bits.Int) (*bits.Int, bool) {
		outs := m.Apply(o, f, r)
		if len(outs) != 1 || len(outs[0].Res) != 1 {
			return nil, false
		}
		x, ok := outs[0].Res[0].(*bits.Int)
		return x, ok
	}
	for i := 0; i < len(l); i++ {
		x, ok := l[i].(*bits.Int)
		if !ok {
			return nil, false
		}
		x = m.Under(o, x)
		if _, known := x.Const(); known {
			n := i
			for n < len(l) {
				y, ok := l[n].(*bits.Int)
				if _, known := y.Const(); !ok || !known {
					break
				}
				n++
			}
			text, _ := constBytes(l[i:n])
			for _, r := range string(text) {
				y, ok := call(o, m.Const(uint64(r), 32, true))
				if !ok {
					return nil, false
				}
				c, ok := y.Const()
				if !ok {
					return nil, false
				}
				if c >= 0 {
					out = append(out, t.lit(string(rune(c)))...)
				}
			}
			i = n - 1
			continue
		}
		r := m.Input(types.Typ[types.Rune], "rune of "+m.Key(x)).(*bits.Int)
		p := o
		for k := 0; k < 128; k++ {
			if o.Bit(m.Equal(x, m.Const(uint64(k), 8, false))) == 0 {
				if p, ok = p.With(m.Equal(r, m.Const(uint64(k), 32, true)), false); !ok {
					return nil, false
				}
			}
		}
		if y, ok := call(p.Copy(), r); !ok || diffBits(m, y, r) != "" {
			return nil, false
		}
		out = append(out, x)
	}
	return out, true
}

func intSign(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	return 64, ok && b.Info()&types.IsUnsigned == 0
}

// network makes a network of d bits: free ones, or all ones.
func (t *textRun) network(name string, v6 bool, d int, last bool) (ip, mask []*bits.Int, ptr *bits.Ptr) {
	m := t.m
	n := 4
	if v6 {
		n = 16
	}
	ip = constInts(m, make([]byte, n)...)
	f := freeBits(m, name, 128)
	mk := make([]byte, n)
	for k := 0; k < d; k++ {
		x := f[k]
		if last {
			x = 1
		}
		if v6 && k < 8 && !last {
			x = bits.Bit(0x20 >> (7 - k) & 1) // 2000::/8 and the like: not an IPv4 one
			if k == 2 {
				x = 1
			}
		}
		setBit(ip, k, x)
		mk[k/8] |= 0x80 >> (k % 8)
	}
	normAll(m, ip)
	mask = constInts(m, mk...)
	ptr = m.New(named(m, t.b.stdType("net", "IPNet"), map[string]bits.Value{"IP": slice(m, copyBytes(ip)), "Mask": slice(m, copyBytes(mask))}))
	return
}

// textCell is a file of lines.
type textCell struct {
	name   string
	format string
	v6     []bool // the family of each row
	last   int    // the row that has the last address, -1 for none
	cols   int
	bad    string // what is wrong with line at
	at     int
	end    string // what ends the lines
	open   bool   // the last line has no end
	export bool
	same   bool // rows have the same values
	but    int  // but for this column, counted from one
	nets   [][]string
}

// knownNets are rows of networks whose text is known: one network each, or
// those of one range.
var knownNets = []struct {
	v6   bool
	nets [][]string
}{
	{false, [][]string{{"0.0.0.0/0"}}},
	{false, [][]string{{"0.0.0.0/1"}, {"128.0.0.0/1"}}},
	{false, [][]string{{"0.0.0.0/32"}, {"0.0.0.1/32"}, {"0.0.0.2/31"}}},
	{false, [][]string{{"1.0.0.0/24"}, {"1.0.1.0/24", "1.0.2.0/23", "1.0.4.0/32"}, {"1.0.4.1/32"}}},
	{false, [][]string{{"10.0.0.0/8"}, {"100.64.0.0/10"}, {"127.0.0.0/8"}, {"169.254.0.0/16"}, {"172.16.0.0/12"}, {"192.168.0.0/16"}, {"224.0.0.0/4"}, {"240.0.0.0/4"}}},
	{false, [][]string{{"255.255.255.0/25", "255.255.255.128/26"}, {"255.255.255.192/26"}}},
	{false, [][]string{{"255.255.255.252/31", "255.255.255.254/32"}, {"255.255.255.255/32"}}},
	{false, [][]string{{"255.255.255.253/32", "255.255.255.254/31"}}},
	{true, [][]string{{"::/0"}}},
	{true, [][]string{{"::/1"}, {"8000::/1"}}},
	{true, [][]string{{"::/96"}, {"::1:0:0/96"}}},
	{true, [][]string{{"2001::/16"}, {"2400:da00::/32", "2400:da01::/128"}, {"fe80::/10"}}},
	{true, [][]string{{"2001:db8::/47", "2001:db8:2::/48"}, {"2001:db8:3::/48"}, {"ff00::/8"}}},
	{true, [][]string{{"ffff:ffff:ffff:ffff:ffff:ffff:ffff:fffd/128", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:fffe/127"}}},
	{true, [][]string{{"ffff:ffff:ffff:ffff:ffff:ffff:ffff:fffe/128"}, {"ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff/128"}}},
}

// netBytes is a network whose text is given.
func (t *textRun) netBytes(cidr string) (ip, mask []*bits.Int, ptr *bits.Ptr) {
	_, n, err := net.ParseCIDR(cidr)
	if err != nil {
		panic(err)
	}
	ip, mask = constInts(t.m, n.IP...), constInts(t.m, n.Mask...)
	ptr = t.m.New(named(t.m, t.b.stdType("net", "IPNet"), map[string]bits.Value{"IP": slice(t.m, copyBytes(ip)), "Mask": slice(t.m, copyBytes(mask))}))
	return
}

func (b *bitRun) textDumps() error {
	var cells []textCell
	fams := [][]bool{{}, {false}, {true}, {false, false}, {false, true}, {true, true}, {false, false, false}, {false, true, true}, {true, true, true, true}}
	for _, format := range []string{"plain", "memip"} {
		if b.dumpOf("db/format/"+format) == nil {
			return fmt.Errorf("the dump of %s files is not there", format)
		}
		for _, v6 := range fams {
			if format == "memip" && len(v6) == 0 {
				continue // a file without lines fails
			}
			for last := -1; last < len(v6); last++ {
				for _, end := range []string{"\n", "\r\n"} {
					for _, same := range []bool{false, true} {
						for k, cols := range []int{3, 1, 2} {
							if format == "memip" && k > 0 || k > 0 && (same || end != "\n") {
								continue
							}
							c := textCell{format: format, v6: v6, last: last, cols: cols, end: end, at: -1, same: same, open: (len(v6)+last)%2 == 0}
							c.name = fmt.Sprintf("%d rows of %d columns, IPv6: %v, the last address in %d, lines end in %q, same values: %v", len(v6), cols, v6, last+1, end, same)
							cells = append(cells, c)
						}
					}
				}
			}
			for at := range v6 {
				for _, w := range []string{"too few values", "too many values", "no network", "no separator", "an empty line"} {
					cells = append(cells, textCell{name: fmt.Sprintf("row %d of %d has %s", at+1, len(v6), w), format: format, v6: v6, last: -1, cols: 3, bad: w, at: at, end: "\n"})
				}
			}
			if format == "plain" {
				for _, w := range []string{"no description", "a short second line", "only one line", "only two lines", "a short third line"} {
					cells = append(cells, textCell{name: w, format: format, v6: v6, last: -1, cols: 2, bad: w, at: len(v6), end: "\n"})
				}
				cells = append(cells, textCell{name: fmt.Sprintf("%d rows, with a rule", len(v6)), format: format, v6: v6, last: -1, cols: 3, at: -1, end: "\n", export: true})
			}
		}
	}
	for _, k := range knownNets {
		for _, format := range []string{"plain", "memip"} {
			c := textCell{name: fmt.Sprintf("the networks %v", k.nets), format: format, last: -1, cols: 2, end: "\n", at: -1}
			for _, r := range k.nets {
				if format == "memip" {
					c.nets = append(c.nets, r)
					c.v6 = append(c.v6, k.v6)
					continue
				}
				for _, n := range r {
					c.nets = append(c.nets, []string{n})
					c.v6 = append(c.v6, k.v6)
				}
			}
			cells = append(cells, c)
		}
	}
	for _, format := range []string{"plain", "memip"} {
		for but := 1; but <= 6; but++ {
			if format == "memip" || but <= 3 {
				cells = append(cells, textCell{name: fmt.Sprintf("values that differ in column %d", but), format: format, v6: []bool{false, false, false}, last: -1, cols: 3, end: "\n", at: -1, same: true, but: but})
			}
		}
	}
	if f := os.Getenv("CELL"); f != "" {
		var keep []textCell
		for _, c := range cells {
			if strings.Contains(c.format+": "+c.name, f) {
				keep = append(keep, c)
			}
		}
		cells = keep
	}
	b.each(len(cells), func(i int) { b.textCell(cells[i]) })
	b.sample("%d classes of text files", len(cells))
	return nil
}

// textCell decides one file.
func (b *bitRun) textCell(tc textCell) {
	dump := b.dumpOf("db/format/" + tc.format)
	t := b.newTextRun(dump.Pkg)
	m := t.m
	bad := func(f string, a ...interface{}) {
		b.fail(textRule, dump, "for "+tc.format+": "+tc.name+": "+fmt.Sprintf(f, a...)+notes(m))
	}
	str := types.Typ[types.String]
	var file []bits.Value
	nl := func() { file = append(file, t.lit(tc.end)...) }
	fields := []string{"c0", "x", "c2"}[:tc.cols]
	vers := m.Input(b.typeOf("db/inf", "VersionInfo"), "version")
	head := 0
	if tc.format == "plain" {
		file = append(file, t.lit("#### ")...)
		file = append(file, t.plain("title", 2)...)
		nl()
		head++
		if tc.bad != "only one line" {
			if tc.bad == "a short second line" {
				file = append(file, t.lit("##")...)
			} else {
				file = append(file, t.lit("#### ")...)
				if tc.bad == "no description" {
					file = append(file, t.plain("nojson", 3)...)
				} else {
					file = append(file, t.textOf("json", m.Key(vers), "", vers)...)
				}
			}
			nl()
			head++
		}
		if tc.bad != "only one line" && tc.bad != "only two lines" {
			if tc.bad == "a short third line" {
				file = append(file, t.lit("#")...)
			} else {
				file = append(file, t.lit("#### "+strings.Join(fields, ","))...)
			}
			nl()
			head++
		}
	}
	nvals := tc.cols
	if tc.format == "memip" {
		nvals = 6
		if tc.nets == nil {
			t.ranges = []textRange{}
		}
	}
	var want []wantRow
	for i, v6 := range tc.v6 {
		if head < 3 && tc.format == "plain" {
			break // the rows would be read as the header
		}
		d := 12 + 5*i%20
		if v6 {
			d = 40 + 9*i
		}
		ip, mask, ptr := t.network(fmt.Sprintf("n%d.", i), v6, d, i == tc.last)
		if tc.nets != nil {
			ip, mask, ptr = t.netBytes(tc.nets[i][0])
		}
		var vals []bits.Value
		var row []bits.Value
		k := nvals
		if tc.at == i && tc.bad == "too few values" {
			k--
		}
		if tc.at == i && tc.bad == "too many values" {
			k++
		}
		sep, sep2 := ",", "\t"
		if tc.format == "memip" {
			sep, sep2 = "-", " "
		}
		for j := 0; j < k; j++ {
			name := fmt.Sprintf("v%d.%d", i, j)
			if tc.same {
				name = fmt.Sprintf("v%d", j)
			}
			x := t.plain(name, []int{2, 0, 3, 1}[(i+j)%4])
			if tc.same {
				x = t.plain(name, 2)
				if j+1 == tc.but {
					x[1] = m.Const(uint64('a'+i), 8, false)
				}
			}
			vals = append(vals, t.str(x))
			if j > 0 {
				row = append(row, t.lit(sep)...)
			}
			row = append(row, x...)
		}
		wrong := tc.at == i
		if wrong && tc.bad == "an empty line" {
			nl()
			continue
		}
		if tc.format == "plain" {
			var nt []bits.Value
			if wrong && tc.bad == "no network" {
				nt = t.plain("nonet", 3)
			} else {
				key, s, _ := t.netKey(bits.Outcome{}.Fresh(), ptrStruct(m, ptr))
				nt = t.textOf("net", key, "/", s)
			}
			file = append(file, nt...)
			want = append(want, wantRow{ip, mask, vals})
		} else {
			lo, hi := rangeOf(m, ip, mask)
			if tc.nets != nil {
				l := tc.nets[i]
				ip2, mask2, _ := t.netBytes(l[len(l)-1])
				_, hi = rangeOf(m, ip2, mask2)
			}
			var a, z []bits.Value
			if v6 {
				a, z = t.textOf("ip", m.ListKey(lo), ":", slice(m, copyBytes(lo))), t.textOf("ip", m.ListKey(hi), ":", slice(m, copyBytes(hi)))
			} else {
				x, y := m.Resize(word(m, lo, 32, false), 64, false), m.Resize(word(m, hi, 32, false), 64, false)
				a, z = t.textOf("number", m.Key(x), "", x), t.textOf("number", m.Key(y), "", y)
			}
			if wrong && tc.bad == "no network" {
				z = t.plain("noip", 3)
			}
			file = append(append(append(file, a...), t.lit(sep2)...), z...)
			// the networks of the range: one or two
			tr := textRange{start: form16(m, lo), end: form16(m, hi)}
			if tc.nets != nil {
				for _, n := range tc.nets[i] {
					ip2, mask2, _ := t.netBytes(n)
					want = append(want, wantRow{ip2, mask2, vals})
				}
			}
			for q := 0; q <= i%2 && tc.nets == nil; q++ {
				ip2, mask2, p2 := t.network(fmt.Sprintf("sub%d.%d.", i, q), v6, d+q, false)
				tr.nets = append(tr.nets, p2)
				want = append(want, wantRow{ip2, mask2, vals})
			}
			if tc.nets == nil {
				t.ranges = append(t.ranges, tr)
			}
		}
		if !(wrong && tc.bad == "no separator") {
			file = append(file, t.lit(sep2)...)
		}
		file = append(file, row...)
		if !tc.open || i < len(tc.v6)-1 {
			nl()
		}
	}
	exporter := &bits.Iface{Nil: 1}
	if tc.export {
		exporter = &bits.Iface{Key: "exporter"}
		asked := []string{"c2", "none", "c0"}
		for i := range want {
			want[i].values = []bits.Value{m.Str(fmt.Sprintf("e%d", i))}
		}
		k := 0
		for _, f := range []string{"Fields", "Export"} {
			f := f
			m.Models["("+b.typeOf("db/inf", "Exporter").String()+")."+f] = func(m *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
				o := s.StateOf()
				if f == "Fields" {
					var l []bits.Value
					for _, n := range asked {
						l = append(l, m.Str(n))
					}
					return []bits.Ret{{V: m.List(str, l...)}}
				}
				if m.Len(o, args[1]) != len(asked) {
					m.Notes = append(m.Notes, "the rule is not given its columns")
					return nil
				}
				for i, n := range []string{"c2", "", "c0"} {
					p, ok := m.ElemAt(o, args[1], i).(*bits.Struct)
					if !ok || !sameText(m, o, fieldOf(p, "Intern"), m.Str(n)) || !sameText(m, o, fieldOf(p, "Ext"), m.Str(n)) {
						m.Notes = append(m.Notes, "the rule is not given its columns")
						return nil
					}
				}
				es, ok := m.Entries(o, args[2])
				if !ok || len(es) != tc.cols {
					m.Notes = append(m.Notes, "the rule is not given the values of the row")
					return nil
				}
				k++
				return []bits.Ret{{V: m.List(str, m.Str(fmt.Sprintf("e%d", k-1)))}}
			}
		}
		fields = asked
	}
	outs := b.run(m, dump, m.Bytes(file), exporter)
	if len(outs) != 1 {
		bad("%d outcomes where one is expected", len(outs))
		return
	}
	o := outs[0]
	e, ok := o.Res[1].(*bits.Iface)
	if !ok {
		bad("the error is not known")
		return
	}
	if tc.bad != "" {
		if o.Bit(e.Nil) != 0 {
			bad("the dump does not fail")
		}
		return
	}
	if o.Bit(e.Nil) != 1 {
		bad("the dump fails")
		return
	}
	if tc.format == "memip" {
		fields = nil
	}
	if msg := b.rowsAre(m, o, o.Res[0], fields, want); msg != "" {
		bad("%s", msg)
		return
	}
	s := m.Deref(o, o.Res[0]).(*bits.Struct)
	v := m.Deref(o, fieldOf(s, "Version"))
	if tc.format == "plain" {
		if m.Key(v) != m.Key(vers) {
			bad("the version is not that of the file")
		}
		return
	}
	vs, ok := v.(*bits.Struct)
	ver := int64(1)
	if tc.v6[0] {
		ver = 2
	}
	if !ok || m.Key(fieldOf(vs, "IpType")) != m.Key(m.Const(uint64(ver), 64, true)) {
		bad("the version does not name the family of the file")
	}
}

// ptrStruct is what a pointer made with New points to.
func ptrStruct(m *bits.Machine, p *bits.Ptr) bits.Value {
	return m.Deref(bits.Outcome{}.Fresh(), p)
}

// rangeOf is the first and the last address of a network.
func rangeOf(m *bits.Machine, ip, mask []*bits.Int) (lo, hi []*bits.Int) {
	hi = copyBytes(ip)
	for k := 0; k < 8*len(ip); k++ {
		if bitAt(mask, k) == 0 {
			setBit(hi, k, 1)
		}
	}
	return copyBytes(ip), normAll(m, hi)
}
