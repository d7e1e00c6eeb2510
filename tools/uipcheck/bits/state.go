package bits

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// state is what holds at a point: the values of the current function, what
// memory holds, and the bits assumed by the branches taken.
type state struct {
	mem   pmap[held]
	facts pmap[Bit] // by atom
}

// held is what an object holds.
type held struct {
	o *Obj
	v Value
}

func newState() *state { return &state{} }

func (s *state) clone() *state {
	n := *s
	return &n
}

// heap is what an object holds, if that was set.
func (s *state) heap(o *Obj) (Value, bool) {
	h, ok := s.mem.get(uint32(o.ID))
	return h.v, ok
}

func (s *state) put(o *Obj, v Value) { s.mem.set(uint32(o.ID), held{o, v}) }

func (s *state) bit(b Bit) Bit {
	if b.konst() {
		return b
	}
	if v, ok := s.facts.get(uint32(b >> 1)); ok {
		return v ^ (b & 1)
	}
	return b
}

// assume adds a fact; false if it contradicts.
func (s *state) assume(b Bit, v Bit) bool {
	b = s.bit(b)
	if b.konst() {
		return b == v
	}
	s.facts.set(uint32(b>>1), v^(b&1))
	return true
}

// under applies the facts to an integer.
func (m *Machine) under(s *state, x *Int) *Int {
	if s.facts.n == 0 {
		return x
	}
	var r *Int
	for i, b := range x.Bits {
		if c := s.bit(b); c != b {
			if r == nil {
				r = &Int{Bits: append([]Bit(nil), x.Bits...), Signed: x.Signed}
			}
			r.Bits[i] = c
		}
	}
	if r == nil {
		return x
	}
	return m.norm(r)
}

func intType(t types.Type) (width int, signed, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.UntypedInt:
		return 64, true, true
	}
	return 0, false, false
}

// length is a symbol for a length.
func (m *Machine) length(key string) *Int {
	s := m.Sym("len("+key+")", 64)
	if s.Hi == nil {
		s.Lo, s.Hi = new(big.Int), pow2(48)
	}
	return m.SymInt(s, true)
}

// Input is an unknown value of a type, named key.
func (m *Machine) Input(t types.Type, key string) Value {
	key = m.short(key)
	if w, signed, ok := intType(t); ok {
		return m.SymInt(m.Sym(key, w), signed)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &Bool{m.Atom(key)}
		case u.Info()&types.IsString != 0:
			o := m.inputObj(key+"[]", &Back{Elem: types.Typ[types.Uint8], Key: key})
			return &Slice{Obj: o, Off: m.i64(0), Len: m.length(key), Str: true}
		}
	case *types.Slice:
		o := m.inputObj(key+"[]", &Back{Elem: u.Elem(), Key: key})
		return &Slice{Obj: o, Off: m.i64(0), Len: m.length(key)}
	case *types.Array:
		return &Back{Elem: u.Elem(), Key: key, Elems: map[string]cell{}}
	case *types.Pointer:
		o := m.lazyObj(key+"^", u.Elem())
		return &Ptr{Obj: o}
	case *types.Struct:
		s := &Struct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, m.Input(u.Field(i).Type(), key+"."+u.Field(i).Name()))
		}
		return s
	case *types.Interface:
		return &Iface{Nil: m.Atom("nil(" + key + ")"), Key: key}
	}
	return &Opaque{Key: key, T: t}
}

func (m *Machine) inputObj(key string, v Value) *Obj {
	if o := m.inputs[key]; o != nil {
		return o
	}
	o := &Obj{ID: m.nextObj(), Key: key, Input: true}
	m.inputs[key] = o
	m.initial[o] = v
	return o
}

// lazyObj is an input object whose content is made when it is looked at.
func (m *Machine) lazyObj(key string, t types.Type) *Obj {
	if o := m.inputs[key]; o != nil {
		return o
	}
	o := &Obj{Key: key, Input: true, T: t}
	m.objs++
	o.ID = m.objs
	m.inputs[key] = o
	return o
}

func (m *Machine) i64(v int64) *Int { return m.Const(uint64(v), 64, true) }

// zero is the zero value of a type.
func (m *Machine) zero(t types.Type) Value {
	if w, signed, ok := intType(t); ok {
		return m.Const(0, w, signed)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &Bool{0}
		case u.Info()&types.IsString != 0:
			return &Slice{Off: m.i64(0), Len: m.i64(0), Str: true}
		}
	case *types.Slice:
		return &Slice{Off: m.i64(0), Len: m.i64(0), Nil: 1}
	case *types.Array:
		return &Back{Elem: u.Elem(), Zero: true, Elems: map[string]cell{}}
	case *types.Pointer:
		return &Ptr{}
	case *types.Struct:
		s := &Struct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, m.zero(u.Field(i).Type()))
		}
		return s
	case *types.Interface:
		return &Iface{Nil: 1}
	}
	return &Opaque{Key: "zero", T: t}
}

func (m *Machine) content(s *state, o *Obj) Value {
	if v, ok := s.heap(o); ok {
		return v
	}
	if v, ok := m.initial[o]; ok {
		return v
	}
	if o.T != nil && o.Input {
		v := m.Input(o.T, strings.TrimSuffix(o.Key, "^"))
		m.initial[o] = v
		return v
	}
	return &Opaque{Key: "?" + o.Key}
}

// elem reads element i of an array.
func (m *Machine) elem(s *state, b *Back, i *Int) Value {
	i = m.index(s, i)
	k := m.keys(i)
	es := b.elems()
	if c, ok := es[k]; ok {
		return c.v
	}
	if b.log != nil && constIndex(i) {
		es = nil
	}
	var near []string // elements that may be this one
	for q, c := range es {
		switch m.sameIndex(s, c.at, i) {
		case 0:
		case 1:
			return c.v
		default:
			near = append(near, q)
		}
	}
	if len(near) > 0 {
		// it is that one where the indexes agree
		sort.Strings(near)
		c := es[near[0]]
		e := m.sameIndex(s, c.at, i)
		if x, ok := c.v.(*Int); ok && m.plain(e) {
			o := *b
			o.Elems, o.log = map[string]cell{}, nil
			for q, d := range es {
				if m.sameIndex(s, d.at, i) != e {
					o.Elems[q] = d
				}
			}
			if y, ok := m.elem(s, &o, i).(*Int); ok && len(x.Bits) == len(y.Bits) {
				return m.Ite(e, x, y)
			}
		}
		return m.Input(b.Elem, fmt.Sprintf("%s[%s]@%d?", b.Key, k, m.tick()))
	}
	if b.Fill != nil {
		return b.Fill(i)
	}
	if b.Zero && b.Gen == 0 {
		return m.zero(b.Elem)
	}
	key := fmt.Sprintf("%s[%s]", b.Key, k)
	if b.Gen > 0 {
		key += fmt.Sprintf("@%d", b.Gen)
	}
	return m.Input(b.Elem, key)
}

// sameIndex is at == i.
func (m *Machine) sameIndex(s *state, at, i *Int) Bit {
	if len(at.Bits) == 64 && at.Lin != nil && at.Lin.isConst() && i.Lin != nil && i.Lin.isConst() {
		return b2(at.Lin.C == i.Lin.C)
	}
	return m.equal(m.index(s, at), i)
}

func (m *Machine) index(s *state, i *Int) *Int {
	i = m.under(s, i)
	if len(i.Bits) != 64 {
		i = m.convert(i, 64, true)
	}
	return i
}

func (m *Machine) setElem(s *state, b *Back, i *Int, v Value) *Back {
	i = m.index(s, i)
	n := &Back{Elem: b.Elem, Zero: b.Zero, Key: b.Key, Gen: b.Gen, Fill: b.Fill, Elems: map[string]cell{}}
	if constIndex(i) && b.long() {
		n.log = b.log.with(m.keys(i), cell{i, v})
		return n
	}
	for k, c := range b.elems() {
		e := m.sameIndex(s, c.at, i)
		if e == 0 {
			n.Elems[k] = c
		} else if e == 1 {
			n.Elems[k] = cell{c.at, v}
		} else if k != m.keys(i) {
			x, ok1 := c.v.(*Int)
			y, ok2 := v.(*Int)
			if ok1 && ok2 && m.plain(e) && len(x.Bits) == len(y.Bits) {
				n.Elems[k] = cell{c.at, m.Ite(e, y, x)}
			} else {
				n.Gen = m.tick()
			}
		}
	}
	if n.Key == "" && n.Gen > 0 {
		n.Key = fmt.Sprintf("mem%d", m.tick())
	}
	n.Elems[m.keys(i)] = cell{i, v}
	return n
}

// plain: a bit of an input, to tell elements apart by.
func (m *Machine) plain(b Bit) bool { return m.Select && !b.konst() && m.atoms[b>>1].sym != nil }

func (m *Machine) tick() int { m.ticks++; return m.ticks }

// read follows a path inside a value.
func (m *Machine) read(s *state, v Value, path []Elem, t types.Type) Value {
	for n, e := range path {
		switch x := v.(type) {
		case *Struct:
			if e.Field < 0 || e.Field >= len(x.F) {
				return m.Input(t, fmt.Sprintf("?%d", m.tick()))
			}
			v = x.F[e.Field]
		case *Back:
			if e.Field >= 0 {
				return m.Input(t, fmt.Sprintf("?%d", m.tick()))
			}
			v = m.elem(s, x, e.Index)
		case *Opaque:
			return m.Input(t, x.Key+m.pathKey(path[n:]))
		default:
			return m.Input(t, fmt.Sprintf("?%d", m.tick()))
		}
	}
	return v
}

func (m *Machine) pathKey(path []Elem) string {
	r := ""
	for _, e := range path {
		if e.Field >= 0 {
			r += fmt.Sprintf(".%d", e.Field)
		} else {
			r += "[" + m.keys(e.Index) + "]"
		}
	}
	return r
}

// write replaces a part of a value.
func (m *Machine) write(s *state, v Value, path []Elem, x Value) Value {
	if len(path) == 0 {
		return x
	}
	e := path[0]
	switch o := v.(type) {
	case *Struct:
		if e.Field < 0 || e.Field >= len(o.F) {
			return v
		}
		n := &Struct{T: o.T, F: append([]Value(nil), o.F...)}
		n.F[e.Field] = m.write(s, o.F[e.Field], path[1:], x)
		return n
	case *Back:
		if e.Field >= 0 {
			return v
		}
		var old Value
		if len(path) > 1 {
			old = m.elem(s, o, e.Index)
		}
		return m.setElem(s, o, e.Index, m.write(s, old, path[1:], x))
	}
	return v
}

// Key names a value.
func (m *Machine) Key(v Value) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *Int:
		return m.keys(x)
	case *Bool:
		return m.bitKey(x.B)
	case *Ptr:
		if x.Obj == nil {
			return "nil"
		}
		return fmt.Sprintf("&%d%s", x.Obj.ID, m.pathKey(x.Path))
	case *Slice:
		if x.Obj == nil {
			return fmt.Sprintf("s(%s,%v)", m.keys(x.Len), x.Nil)
		}
		return fmt.Sprintf("s(%d%s,%s,%s,%v)", x.Obj.ID, m.pathKey(x.Path), m.keys(x.Off), m.keys(x.Len), x.Nil)
	case *Struct:
		var ps []string
		for _, f := range x.F {
			ps = append(ps, m.Key(f))
		}
		return "{" + strings.Join(ps, ";") + "}"
	case *Back:
		var ps []string
		for k, c := range x.elems() {
			ps = append(ps, k+"="+m.Key(c.v))
		}
		sort.Strings(ps)
		return fmt.Sprintf("[%s %v %d %s]", x.Key, x.Zero, x.Gen, strings.Join(ps, ";"))
	case *Iface:
		if x.Nil == 1 {
			return "nil"
		}
		if x.T == nil {
			return "i(" + x.Key + "," + m.bitKey(x.Nil) + ")"
		}
		return "i(" + x.T.String() + "," + m.Key(x.V) + ")"
	case *Func:
		if x.Fn == nil {
			return "f()"
		}
		return "f(" + x.Fn.String() + ")"
	case Tuple:
		var ps []string
		for _, f := range x {
			ps = append(ps, m.Key(f))
		}
		return "(" + strings.Join(ps, ";") + ")"
	case *Opaque:
		if x.Obj != nil {
			return fmt.Sprintf("o(%s,%d)", x.Key, x.Obj.ID)
		}
		return "o(" + x.Key + ")"
	case *ranging:
		return fmt.Sprintf("range%d/%d", x.at, len(x.l))
	case *Stream:
		var ps []string
		for _, i := range x.Items {
			ps = append(ps, m.Key(i))
		}
		return fmt.Sprintf("stream(%s,%s)", strings.Join(ps, ";"), m.Key(x.To))
	case *Text:
		return "text(" + m.itemsKey(x.Items) + ")"
	case *reader:
		return fmt.Sprintf("reader%d(%s|%s)", x.buf.ID, m.itemsKey(x.line), m.itemsKey(x.items))
	case *replacer:
		return fmt.Sprintf("replacer%q", x.ps)
	case *Pairs:
		var ps []string
		for _, p := range x.L {
			ps = append(ps, m.Key(p.K)+":"+m.Key(p.V))
		}
		return "map{" + strings.Join(ps, ";") + "}"
	}
	return fmt.Sprintf("%T", v)
}

func (m *Machine) itemsKey(l []Value) string {
	var ps []string
	for _, i := range l {
		ps = append(ps, m.Key(i))
	}
	return strings.Join(ps, ";")
}

// merge joins two values; key names what becomes of a difference.
func (m *Machine) merge(a, b Value, key string) Value {
	if a == nil {
		return b
	}
	if _, tuple := a.(Tuple); b == nil || !tuple && a == b {
		return a
	}
	if m.alike(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Int:
		y, ok := b.(*Int)
		if !ok || len(x.Bits) != len(y.Bits) {
			break
		}
		if m.sel > 1 {
			return m.Ite(m.sel, x, y)
		}
		s := m.Sym("<"+key+">", len(x.Bits))
		m.came(s, x)
		m.came(s, y)
		return m.SymInt(s, x.Signed)
	case *Bool:
		if y, ok := b.(*Bool); ok {
			if m.sel > 1 {
				return &Bool{m.ite(m.sel, x.B, y.B)}
			}
			return &Bool{m.Atom("<" + key + ">")}
		}
	case *Slice:
		y, ok := b.(*Slice)
		if ok && x.Obj == y.Obj && m.pathKey(x.Path) == m.pathKey(y.Path) {
			n := &Slice{Obj: x.Obj, Path: x.Path, Str: x.Str, Nil: x.Nil}
			n.Off = m.merge(x.Off, y.Off, key+".off").(*Int)
			n.Len = m.mergeLen(x.Len, y.Len, key)
			if x.Nil != y.Nil {
				n.Nil = m.Atom("<" + key + ".nil>")
			}
			return n
		}
		if ok {
			o := m.inputObj("<"+key+">[]", &Opaque{Key: "<" + key + ">"})
			n := &Slice{Obj: o, Off: m.i64(0), Len: m.mergeLen(x.Len, y.Len, key), Nil: x.Nil, Str: x.Str}
			if x.Nil != y.Nil {
				n.Nil = m.Atom("<" + key + ".nil>")
			}
			return n
		}
	case *Struct:
		y, ok := b.(*Struct)
		if ok && len(x.F) == len(y.F) {
			n := &Struct{T: x.T}
			for i := range x.F {
				n.F = append(n.F, m.merge(x.F[i], y.F[i], fmt.Sprintf("%s.%d", key, i)))
			}
			return n
		}
	case *Back:
		y, ok := b.(*Back)
		if ok {
			n := &Back{Elem: x.Elem, Elems: map[string]cell{}, Key: x.Key, Zero: x.Zero, Gen: x.Gen}
			base := x.Key == y.Key && x.Zero == y.Zero && x.Gen == y.Gen
			if !base {
				n.Key, n.Zero, n.Gen = "<"+key+">", false, 1
			}
			s := newState()
			xs, ys := x.copied(), y.copied()
			for k, c := range xs {
				d, ok := ys[k]
				if ok && m.alike(c.v, d.v) {
					n.Elems[k] = c
				} else if ok {
					n.Elems[k] = cell{c.at, m.merge(c.v, d.v, key+"["+k+"]")}
				} else if base {
					n.Elems[k] = cell{c.at, m.merge(c.v, m.elem(s, y, c.at), key+"["+k+"]")}
				}
			}
			for k, d := range ys {
				if _, ok := xs[k]; !ok && base {
					n.Elems[k] = cell{d.at, m.merge(m.elem(s, x, d.at), d.v, key+"["+k+"]")}
				}
			}
			return n
		}
	case *Stream:
		y, ok := b.(*Stream)
		if ok && len(x.Items) == len(y.Items) {
			n := &Stream{To: x.To}
			for i := range x.Items {
				if m.alike(x.Items[i], y.Items[i]) {
					n.Items = append(n.Items, x.Items[i])
					continue
				}
				n.Items = append(n.Items, m.merge(x.Items[i], y.Items[i], fmt.Sprintf("%s[%d]", key, i)))
			}
			return n
		}
	case *Iface:
		y, ok := b.(*Iface)
		if ok {
			n := &Iface{Key: "<" + key + ">", Nil: x.Nil}
			if x.Nil != y.Nil {
				n.Nil = m.Atom("<" + key + ".nil>")
			}
			if x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
				n.T, n.V = x.T, m.merge(x.V, y.V, key+".v")
			}
			return n
		}
	case Tuple:
		y, ok := b.(Tuple)
		if ok && len(x) == len(y) {
			var n Tuple
			for i := range x {
				n = append(n, m.merge(x[i], y[i], fmt.Sprintf("%s.%d", key, i)))
			}
			return n
		}
	case *Ptr:
		return &Ptr{Obj: m.inputObj("<"+key+">^", &Opaque{Key: "<" + key + ">"})}
	}
	return &Opaque{Key: "<" + key + ">"}
}

// alike: two values that are the same.
func (m *Machine) alike(a, b Value) bool {
	switch x := a.(type) {
	case *Int:
		y, ok := b.(*Int)
		if !ok || len(x.Bits) != len(y.Bits) {
			return false
		}
		return x == y || sameBits(x.Bits, y.Bits) || m.keys(x) == m.keys(y)
	case *Back:
		y, ok := b.(*Back)
		if !ok || x.Key != y.Key || x.Zero != y.Zero || x.Gen != y.Gen {
			return false
		}
		if x == y || x.log != nil && x.log == y.log {
			return true
		}
		xs, ys := x.copied(), y.copied()
		if len(xs) != len(ys) {
			return false
		}
		for k, c := range xs {
			d, ok := ys[k]
			if !ok || !m.alike(c.v, d.v) {
				return false
			}
		}
		return true
	case *Stream:
		y, ok := b.(*Stream)
		if !ok || len(x.Items) != len(y.Items) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.Items {
			if !m.alike(x.Items[i], y.Items[i]) {
				return false
			}
		}
		return m.alike(x.To, y.To)
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.F {
			if !m.alike(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	}
	return m.Key(a) == m.Key(b)
}

func (m *Machine) mergeLen(a, b *Int, key string) *Int {
	if m.keys(a) == m.keys(b) {
		return a
	}
	if m.sel > 1 {
		return m.Ite(m.sel, a, b)
	}
	return m.length("<" + key + ">")
}

// came records where a merged symbol comes from.
func (m *Machine) came(s *Sym, x *Int) {
	if sameBits(m.SymInt(s, false).Bits, x.Bits) {
		return
	}
	k := m.Key(x)
	for _, f := range s.From {
		if m.Key(f) == k {
			return
		}
	}
	s.From = append(s.From, x)
}

// Origins lists what an integer may be: itself, or what its merges brought
// together.
func (m *Machine) Origins(x *Int) []*Int {
	var out []*Int
	seen := map[*Sym]bool{}
	var rec func(x *Int)
	rec = func(x *Int) {
		if b := x.Bits[0]; !b.konst() {
			if in := m.atoms[b>>1]; in.sym != nil && in.k == 0 && b&1 == 0 && len(in.sym.From) > 0 {
				// zero-extended or whole
				whole := in.sym.W <= len(x.Bits)
				for i := range x.Bits {
					want := Bit(0)
					if i < in.sym.W {
						want = in.sym.bit(i)
					}
					if x.Bits[i] != want {
						whole = false
					}
				}
				if whole {
					if seen[in.sym] {
						return
					}
					seen[in.sym] = true
					for _, f := range in.sym.From {
						rec(f.(*Int))
					}
					return
				}
			}
		}
		out = append(out, x)
	}
	rec(x)
	return out
}

func (m *Machine) mergeState(a, b *state, key string) *state {
	n := a.clone()
	if m.Select {
		defer func(old Bit) { m.sel = old }(m.sel)
		m.sel = m.selector(a, b)
	}
	differ(a.mem, b.mem, func(_ uint32, x held, inA bool, y held, inB bool) {
		switch {
		case inA && inB:
		case inA:
			y.v = x.v
			if _, old := m.initial[x.o]; old || x.o.Input {
				y.v = m.content(b, x.o)
			}
		default:
			x.v = y.v
			x.o = y.o
			if _, old := m.initial[y.o]; old || y.o.Input {
				x.v = m.content(a, y.o)
			}
		}
		n.put(x.o, m.merge(x.v, y.v, fmt.Sprintf("%s~%d", key, x.o.ID)))
	})
	differ(a.facts, b.facts, func(k uint32, x Bit, inA bool, y Bit, inB bool) {
		if inA && (!inB || x != y) {
			n.facts.del(k)
		}
	})
	return n
}

// selector is a literal that holds in a and not in b.
func (m *Machine) selector(a, b *state) Bit {
	if !m.Select || m.fixed > 0 {
		return 0
	}
	var r Bit
	differ(a.facts, b.facts, func(k uint32, x Bit, inA bool, y Bit, inB bool) {
		if inA && inB && x != y && r == 0 {
			r = Bit(k<<1) ^ not(x)
		}
	})
	return r
}

// Pairs is what a map holds.
type Pairs struct{ L []Pair }

// Pair is one entry of a map.
type Pair struct{ K, V Value }

// ranging is a loop over a map whose entries are known.
type ranging struct {
	l  []Pair
	at int
}

// lookup finds a key in a map whose entries are known; ok tells whether it
// could be decided.
func (fr *frame) lookup(st *state, mv, k Value, elem types.Type) (v Value, found, ok bool) {
	o, is := mv.(*Opaque)
	if is && o.Obj == nil && o.Key == "zero" { // no map
		return fr.m.zero(elem), false, true
	}
	if !is || o.Obj == nil {
		return nil, false, false
	}
	ps, is := fr.m.content(st, o.Obj).(*Pairs)
	if !is {
		return nil, false, false
	}
	for i := len(ps.L) - 1; i >= 0; i-- {
		switch st.bit(fr.equalValues(st, ps.L[i].K, k)) {
		case 1:
			return ps.L[i].V, true, true
		case 0:
		default:
			return nil, false, false
		}
	}
	return fr.m.zero(elem), false, true
}

// update adds an entry to a map.
func (fr *frame) update(st *state, mv, k, v Value) {
	o, is := mv.(*Opaque)
	if !is || o.Obj == nil {
		return
	}
	ps, is := fr.m.content(st, o.Obj).(*Pairs)
	if !is {
		return
	}
	l := append([]Pair(nil), ps.L...)
	for i := range l {
		if st.bit(fr.equalValues(st, l[i].K, k)) == 1 {
			l[i].V = v
			st.put(o.Obj, &Pairs{l})
			return
		}
	}
	st.put(o.Obj, &Pairs{append(l, Pair{k, v})})
}
