package bits

import (
	"fmt"
	"go/types"
	"net"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/load"
)

// inlinable library packages: small pure functions on addresses and bytes.
func defaultInline(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	p := load.PkgOf(f)
	if load.InRepo(p) {
		return true
	}
	switch p {
	case "net":
		switch f.Name() {
		case "To4", "To16", "IPv4", "IPv4Mask", "isZeros", "allFF", "Mask", "CIDRMask", "Size", "simpleMaskLength", "Equal", "bytesEqual", "networkNumberAndMask":
			return true
		}
	case "encoding/binary":
		return true
	case "bytes":
		return f.Name() == "Equal"
	case "internal/byteorder":
		return true
	}
	return false
}

func (fr *frame) callInstr(t *trace, x *ssa.Call) []Ret {
	m := fr.m
	c := &x.Call
	var args []Value
	for _, a := range c.Args {
		args = append(args, fr.eval(t, a))
	}
	key := fr.where() + "." + x.Name()
	rt := x.Type()
	if rt == nil { // deferred: nobody looks at its results
		rt = c.Signature().Results()
		key = fr.where() + ".defer" + fmt.Sprint(len(t.defers))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(t, x, b.Name(), args)
	}
	var fn *ssa.Function
	var free []Value
	if c.IsInvoke() {
		i, ok := fr.eval(t, c.Value).(*Iface)
		if ok && i.T != nil {
			fn = m.Prog.LookupMethod(i.T, c.Method.Pkg(), c.Method.Name())
			args = append([]Value{i.V}, args...)
		} else {
			name := "(" + c.Value.Type().String() + ")." + c.Method.Name()
			if f := m.Models[name]; f != nil {
				return f(m, &Site{c, x, t.st, key, fr.fn}, append([]Value{fr.eval(t, c.Value)}, args...))
			}
			m.event(fr, t.st, Event{Kind: name, Args: append([]Value{fr.eval(t, c.Value)}, args...), Pos: x.Pos()})
			return []Ret{{V: m.result(rt, key)}}
		}
	} else if fn = c.StaticCallee(); fn == nil {
		if f, ok := fr.eval(t, c.Value).(*Func); ok {
			fn, free = f.Fn, f.Bound
		}
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			free = append(free, fr.eval(t, b))
		}
	}
	if fn == nil {
		if m.Dyn != nil {
			if rs := m.Dyn(m, &Site{c, x, t.st, key, fr.fn}, args); rs != nil {
				return rs
			}
		}
		m.event(fr, t.st, Event{Kind: "call", Args: args, Pos: x.Pos()})
		return []Ret{{V: m.result(rt, key)}}
	}
	name := fn.String()
	if m.Call != nil {
		if rs := m.Call(m, fn, &Site{c, x, t.st, key, fr.fn}, args); rs != nil {
			m.event(fr, t.st, Event{Kind: name, Args: args, Pos: x.Pos()})
			return rs
		}
	}
	if f := m.Models[name]; f != nil {
		rs := f(m, &Site{c, x, t.st, key, fr.fn}, args)
		if rs != nil {
			m.event(fr, t.st, Event{Kind: name, Args: args, Pos: x.Pos()})
			return rs
		}
	}
	if name == "net.ParseIP" {
		if txt, ok := m.Text(args[0]); ok {
			ip := net.ParseIP(txt)
			if ip == nil {
				return []Ret{{V: m.zero(rt)}}
			}
			return []Ret{{V: m.Bytes(m.constBytes(ip...))}}
		}
	}
	inline := m.Inline
	if inline == nil {
		inline = defaultInline
	}
	deep := 0
	for _, s := range m.stack {
		if s == fn {
			deep++
		}
	}
	if inline(fn) && len(fn.Blocks) > 0 && deep < 3+m.Deep && len(m.stack) < 40 {
		outs := m.call(fn, args, free, t.st, key+">"+fn.Name())
		var rs []Ret
		for _, o := range outs {
			var v Value
			switch len(o.Res) {
			case 0:
			case 1:
				v = o.Res[0]
			default:
				v = Tuple(o.Res)
			}
			rs = append(rs, Ret{v, o.St})
		}
		return rs
	}
	m.event(fr, t.st, Event{Kind: name, Args: args, Pos: x.Pos()})
	if pure(name) {
		var ks []string
		for _, a := range args {
			ks = append(ks, m.Key(a))
		}
		return []Ret{{V: m.result(rt, name+"("+strings.Join(ks, ",")+")")}}
	}
	return []Ret{{V: m.result(rt, key+":"+fn.Name())}}
}

func pure(name string) bool {
	for _, p := range []string{"strings.", "(net.IP).", "net.", "math."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// result is an unknown result.
func (m *Machine) result(t types.Type, key string) Value {
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() == 0 {
			return nil
		}
		var r Tuple
		for i := 0; i < tp.Len(); i++ {
			r = append(r, m.Input(tp.At(i).Type(), fmt.Sprintf("%s#%d", key, i)))
		}
		return r
	}
	return m.Input(t, key)
}

func (fr *frame) builtin(t *trace, x *ssa.Call, name string, args []Value) []Ret {
	m := fr.m
	switch name {
	case "len", "cap":
		switch a := args[0].(type) {
		case *Slice:
			return []Ret{{V: m.signed(m.under(t.st, a.Len))}}
		case *Opaque:
			if a.Obj != nil {
				if ps, ok := m.content(t.st, a.Obj).(*Pairs); ok && len(ps.L) < 2 {
					return []Ret{{V: m.i64(int64(len(ps.L)))}}
				}
			}
			if _, ok := x.Call.Args[0].Type().Underlying().(*types.Map); ok && a.Key == "zero" {
				return []Ret{{V: m.i64(0)}}
			}
			return []Ret{{V: m.length(a.Key)}}
		}
		switch u := x.Call.Args[0].Type().Underlying().(type) {
		case *types.Array:
			return []Ret{{V: m.i64(u.Len())}}
		case *types.Pointer:
			if at, ok := u.Elem().Underlying().(*types.Array); ok {
				return []Ret{{V: m.i64(at.Len())}}
			}
		}
	case "append":
		a, ok1 := args[0].(*Slice)
		b, ok2 := args[1].(*Slice)
		if !ok1 || !ok2 {
			break
		}
		m.event(fr, t.st, Event{Kind: "append", Args: args, Pos: x.Pos()})
		if _, known := m.under(t.st, b.Len).Const(); m.texts && !known && isBytes(x.Type()) {
			p, ok1 := m.pieces(t.st, a)
			q, ok2 := m.pieces(t.st, b)
			if ok1 && ok2 {
				return []Ret{{V: m.joined(append(append([]Value(nil), p...), q...), false)}}
			}
		}
		n := &Slice{Off: m.i64(0), Nil: 0}
		var back *Back
		if a.Obj == nil {
			back = &Back{Elem: x.Type().Underlying().(*types.Slice).Elem(), Zero: true, Elems: map[string]cell{}}
		} else if bk, ok := m.read(t.st, m.content(t.st, a.Obj), a.Path, nil).(*Back); ok {
			back = bk
		}
		if back == nil {
			break
		}
		n.Off = a.Off
		n.Len = m.signed(m.add(m.asIndex(a.Len), m.asIndex(b.Len), 0))
		if k, ok := b.Len.Const(); ok && k <= 1024 {
			for i := int64(0); i < k; i++ {
				p := m.sliceElem(b, m.i64(i))
				v := m.read(t.st, m.content(t.st, p.Obj), p.Path, back.Elem)
				back = m.setElem(t.st, back, m.add(m.asIndex(a.Off), m.add(m.asIndex(a.Len), m.i64(i), 0), 0), v)
			}
		} else {
			if bb, ok := m.readBack(t.st, b); ok && m.keys(a.Len) == "0" {
				// a copy
				back = bb
				n.Off = b.Off
			} else {
				back = &Back{Elem: back.Elem, Key: fmt.Sprintf("app%d", m.tick()), Elems: map[string]cell{}}
			}
		}
		n.Obj = fr.alloc(x, back, t.st)
		if m.keys(n.Len) == "0" {
			n.Nil = a.Nil
		}
		return []Ret{{V: n}}
	case "copy":
		a, ok1 := args[0].(*Slice)
		b, ok2 := args[1].(*Slice)
		if !ok1 || !ok2 {
			break
		}
		k, ok1 := a.Len.Const()
		l, ok2 := b.Len.Const()
		if ok1 && ok2 {
			if l < k {
				k = l
			}
			var vs []Value
			for i := int64(0); i < k; i++ {
				p := m.sliceElem(b, m.i64(i))
				vs = append(vs, m.read(t.st, m.content(t.st, p.Obj), p.Path, nil))
			}
			for i := int64(0); i < k; i++ {
				m.store(fr, t.st, m.sliceElem(a, m.i64(i)), vs[i], x)
			}
			return []Ret{{V: m.i64(k)}}
		}
		m.event(fr, t.st, Event{Kind: "copy", Args: args, Pos: x.Pos()})
		if bb, ok := m.readBack(t.st, b); ok && a.Obj != nil && len(a.Path) == 0 && m.keys(a.Off) == m.keys(b.Off) && m.keys(a.Len) == m.keys(b.Len) {
			t.st.put(a.Obj, bb)
		} else if ok && a.Obj != nil && len(a.Path) == 0 && m.whole(t.st, a) && m.keys(a.Len) == m.keys(b.Len) {
			shift := m.sub(m.asIndex(b.Off), m.asIndex(a.Off))
			t.st.put(a.Obj, &Back{Elem: bb.Elem, Key: fmt.Sprintf("copy%d", m.tick()), Elems: map[string]cell{}, Fill: func(i *Int) Value {
				return m.elem(newState(), bb, m.add(i, shift, 0))
			}})
		} else if a.Obj != nil {
			old, _ := m.readBack(t.st, a)
			if old != nil {
				t.st.put(a.Obj, m.write(t.st, m.content(t.st, a.Obj), a.Path, &Back{Elem: old.Elem, Key: fmt.Sprintf("copy%d", m.tick()), Elems: map[string]cell{}}))
			}
		}
		return []Ret{{V: m.length(fmt.Sprintf("copied%d", m.tick()))}}
	case "delete", "print", "println", "close":
		return []Ret{{}}
	case "min", "max":
	}
	return []Ret{{V: m.result(x.Type(), fr.where()+"."+x.Name())}}
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Uint8])
}

// whole tells whether a slice is all there is of its object.
func (m *Machine) whole(st *state, a *Slice) bool {
	b, ok := m.readBack(st, a)
	return ok && b.Zero && b.Gen == 0 && len(b.elems()) == 0 && m.keys(a.Off) == "0"
}

func (m *Machine) readBack(st *state, s *Slice) (*Back, bool) {
	if s.Obj == nil {
		return nil, false
	}
	b, ok := m.read(st, m.content(st, s.Obj), s.Path, nil).(*Back)
	return b, ok
}

// bytesOf lists the bytes of a slice of known length.
func (m *Machine) bytesOf(st *state, v Value) ([]*Int, bool) { return m.Content(Outcome{St: st}, v) }

func stdModels() map[string]func(m *Machine, c *Site, args []Value) []Ret {
	r := map[string]func(m *Machine, c *Site, args []Value) []Ret{}
	fresh := func(m *Machine, c *Site, _ []Value) []Ret {
		return []Ret{{V: &Iface{Key: "err " + c.Key, Nil: 0}}}
	}
	r["errors.New"], r["fmt.Errorf"] = fresh, fresh
	r["bytes.Compare"] = func(m *Machine, c *Site, args []Value) []Ret {
		a, ok1 := m.bytesOf(c.St, args[0])
		b, ok2 := m.bytesOf(c.St, args[1])
		if !ok1 || !ok2 {
			return []Ret{{V: m.compareKey(m.Key(args[0]), m.Key(args[1]))}}
		}
		for i := range a {
			if i >= len(b) {
				return []Ret{{V: m.i64(1)}}
			}
			if sameBits(a[i].Bits, b[i].Bits) {
				continue
			}
			l, g := c.St.bit(m.less(a[i], b[i])), c.St.bit(m.less(b[i], a[i]))
			if l == 1 {
				return []Ret{{V: m.i64(-1)}}
			}
			if g == 1 {
				return []Ret{{V: m.i64(1)}}
			}
			return []Ret{{V: m.compareKey(m.listKey(a), m.listKey(b))}}
		}
		if len(b) > len(a) {
			return []Ret{{V: m.i64(-1)}}
		}
		return []Ret{{V: m.i64(0)}}
	}
	r["bytes.Equal"] = func(m *Machine, c *Site, args []Value) []Ret {
		a, ok1 := m.bytesOf(c.St, args[0])
		b, ok2 := m.bytesOf(c.St, args[1])
		if !ok1 || !ok2 {
			return nil
		}
		if len(a) != len(b) {
			return []Ret{{V: &Bool{0}}}
		}
		e := Bit(1)
		for i := range a {
			e = m.bitAnd(e, c.St.bit(m.equal(a[i], b[i])))
		}
		return []Ret{{V: &Bool{e}}}
	}
	r["internal/bytealg.Equal"] = r["bytes.Equal"]
	lead := func(w int) func(m *Machine, c *Site, args []Value) []Ret {
		return func(m *Machine, c *Site, args []Value) []Ret {
			x, ok := args[0].(*Int)
			if !ok {
				return nil
			}
			n := 0
			for i := len(x.Bits) - 1; i >= 0; i-- {
				if x.Bits[i] == 1 {
					return []Ret{{V: m.i64(int64(n))}}
				}
				if x.Bits[i] != 0 {
					return nil
				}
				n++
			}
			return []Ret{{V: m.i64(int64(w))}}
		}
	}
	trail := func(w int) func(m *Machine, c *Site, args []Value) []Ret {
		return func(m *Machine, c *Site, args []Value) []Ret {
			x, ok := args[0].(*Int)
			if !ok {
				return nil
			}
			for i := 0; i < len(x.Bits); i++ {
				if x.Bits[i] == 1 {
					return []Ret{{V: m.i64(int64(i))}}
				}
				if x.Bits[i] != 0 {
					return nil
				}
			}
			return []Ret{{V: m.i64(int64(w))}}
		}
	}
	for n, w := range map[string]int{"": 64, "8": 8, "16": 16, "32": 32, "64": 64} {
		r["math/bits.LeadingZeros"+n] = lead(w)
		r["math/bits.TrailingZeros"+n] = trail(w)
	}
	r["math/bits.Len8"] = func(m *Machine, c *Site, args []Value) []Ret {
		rs := lead(8)(m, c, args)
		if rs == nil {
			return nil
		}
		k, _ := rs[0].V.(*Int).Const()
		return []Ret{{V: m.i64(8 - k)}}
	}
	return r
}

// compareKey is an unknown comparison result: its sign is what is asked.
func (m *Machine) compareKey(a, b string) *Int {
	s := m.Sym("cmp("+a+";"+b+")", 64)
	if s.Hi == nil {
		s.Lo, s.Hi = minusOne, one
	}
	return m.SymInt(s, true)
}

func (m *Machine) listKey(l []*Int) string {
	var ps []string
	for _, x := range l {
		ps = append(ps, m.keys(x))
	}
	return strings.Join(ps, " ")
}

// FromBits makes an integer of bits, low end first.
func (w *World) FromBits(b []Bit, signed bool) *Int {
	return w.norm(&Int{Bits: append([]Bit(nil), b...), Signed: signed})
}

// NilSlice is a nil slice.
func (m *Machine) NilSlice() *Slice { return &Slice{Off: m.i64(0), Len: m.i64(0), Nil: 1} }

// ResultOf is an unknown result of a modelled call.
func (m *Machine) ResultOf(s *Site) Value {
	r := s.Call.Signature().Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return m.Input(r.At(0).Type(), s.Key)
	}
	return m.result(r, s.Key)
}

// Bit is a bit under the facts of the outcome.
func (o Outcome) Bit(b Bit) Bit { return o.St.bit(b) }
