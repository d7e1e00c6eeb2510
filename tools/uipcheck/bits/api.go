package bits

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// New is a pointer to a new object holding v.
func (m *Machine) New(v Value) *Ptr {
	o := &Obj{ID: m.nextObj(), Key: "new"}
	m.initial[o] = v
	return &Ptr{Obj: o}
}

// Fields makes a structure.
func (m *Machine) Fields(t types.Type, fs ...Value) *Struct { return &Struct{T: t, F: fs} }

// Deref reads what p points to when o ends, or a field of it.
func (m *Machine) Deref(o Outcome, p Value, fields ...int) Value {
	x, ok := p.(*Ptr)
	if !ok || x.Obj == nil {
		return nil
	}
	v := m.read(o.St, m.content(o.St, x.Obj), x.Path, types.Typ[types.Uint8])
	for _, f := range fields {
		s, ok := v.(*Struct)
		if !ok || f >= len(s.F) {
			return nil
		}
		v = s.F[f]
	}
	return v
}

// Len is the length of a slice, -1 if it is not known.
func (m *Machine) Len(o Outcome, v Value) int {
	s, ok := v.(*Slice)
	if !ok {
		return -1
	}
	n, ok := m.under(o.St, s.Len).Const()
	if !ok {
		return -1
	}
	return int(n)
}

// ElemAt is element i of a slice when o ends.
func (m *Machine) ElemAt(o Outcome, v Value, i int) Value {
	s, ok := v.(*Slice)
	if !ok || s.Obj == nil {
		return nil
	}
	p := m.sliceElem(s, m.i64(int64(i)))
	return m.read(o.St, m.content(o.St, p.Obj), p.Path, types.Typ[types.Uint8])
}

// ListKey names a list of integers.
func (m *Machine) ListKey(l []*Int) string { return m.listKey(l) }

// StateOf makes an outcome of the state of a call being modelled.
func (s *Site) StateOf() Outcome { return Outcome{St: s.St} }

// List is a new slice of the given elements.
func (m *Machine) List(elem types.Type, vs ...Value) *Slice {
	o := &Obj{ID: m.nextObj(), Key: "list"}
	b := &Back{Elem: elem, Zero: true, Elems: map[string]cell{}}
	for i, v := range vs {
		at := m.i64(int64(i))
		b.Elems[m.keys(at)] = cell{at, v}
	}
	m.initial[o] = b
	return &Slice{Obj: o, Off: m.i64(0), Len: m.i64(int64(len(vs)))}
}

// RunFrom analyses a call of fn in the state another call left.
func (m *Machine) RunFrom(o Outcome, fn *ssa.Function, args ...Value) []Outcome {
	m.tick()
	for k, v := range m.Hints { // those that came after o began
		if _, ok := o.St.facts.get(uint32(k)); !ok {
			o.St.facts.set(uint32(k), v)
		}
	}
	return m.call(fn, args, nil, o.St, fmt.Sprintf("%s%d", fn.Name(), m.ticks))
}

// Plus adds integers of one width.
func (m *Machine) Plus(x *Int, ys ...*Int) *Int {
	for _, y := range ys {
		x = m.add(x, y, 0)
	}
	return x
}

// Minus is x - y.
func (m *Machine) Minus(x, y *Int) *Int { return m.sub(x, y) }

// Times is x times k.
func (m *Machine) Times(x *Int, k int64) *Int { return m.mul(x, m.i64(k)) }

// N is a constant int.
func (m *Machine) N(k int64) *Int { return m.i64(k) }

// Bounded is an unknown int between lo and hi.
func (m *Machine) Bounded(key string, lo, hi int64) *Int {
	s := m.Sym(key, 64)
	s.Lo, s.Hi = big.NewInt(lo), big.NewInt(hi)
	return m.SymInt(s, true)
}

// Wide widens an integer to 64 bits.
func (m *Machine) Wide(x *Int, signed bool) *Int { return m.convert(x, 64, signed) }

// ByteAt is byte i of an input.
func (m *Machine) ByteAt(s *Slice, i *Int) *Int {
	st := newState()
	p := m.sliceElem(s, i)
	v, _ := m.readChoice(st, m.content(st, p.Obj), p.Path, types.Typ[types.Uint8]).(*Int)
	return v
}

// Assume adds a fact all runs start from: x holds or does not. False if that
// contradicts what is known.
func (m *Machine) Assume(x Bit, v bool) bool {
	if m.Hints == nil {
		m.Hints = map[int32]Bit{}
	}
	if x.konst() {
		return x == b2(v)
	}
	w := b2(v) ^ (x & 1)
	if old, ok := m.Hints[int32(x>>1)]; ok {
		return old == w
	}
	m.Hints[int32(x>>1)] = w
	return true
}

// Order states how two ints of 64 bits compare: -1, 0 or 1.
func (m *Machine) Order(x, y *Int, c int) bool {
	ok := true
	for _, s := range []bool{true, false} {
		a, b := m.convert(x, 64, s), m.convert(y, 64, s)
		ok = m.Assume(m.less(a, b), c < 0) && ok
		ok = m.Assume(m.less(b, a), c > 0) && ok
		ok = m.Assume(m.equal(a, b), c == 0) && ok
	}
	return ok
}

// Same tells whether two integers are equal on all inputs.
func (m *Machine) Same(x, y *Int) bool {
	return sameBits(x.Bits, y.Bits) || x.Lin != nil && y.Lin != nil && len(x.Bits) == 64 && len(y.Bits) == 64 && x.Lin.Equal(y.Lin)
}

// SetPtr writes what a pointer points to, in the state of a call.
func (m *Machine) SetPtr(s *Site, p *Ptr, v Value) {
	s.St.put(p.Obj, m.write(s.St, m.content(s.St, p.Obj), p.Path, v))
}

// Map is a map of known entries.
func (m *Machine) Map(t types.Type, ps ...Pair) *Opaque {
	o := &Obj{ID: m.nextObj(), Key: "map"}
	m.initial[o] = &Pairs{ps}
	return &Opaque{Key: "map", T: t, Obj: o}
}

// Choose makes a bit one that addresses choose by.
func (m *Machine) Choose(b Bit) {
	if m.Choice == nil {
		m.Choice = map[int32]bool{}
	}
	m.Choice[int32(b>>1)] = true
}

// Small is an unknown of w bits, widened to an int.
func (m *Machine) Small(key string, w int) *Int {
	x := &Int{Bits: make([]Bit, 64), Signed: true}
	s := m.Sym(key, w)
	for i := 0; i < w; i++ {
		x.Bits[i] = s.bit(i)
	}
	return m.norm(x)
}

// Zero is the zero value of a type.
func (m *Machine) Zero(t types.Type) Value { return m.zero(t) }

// Equal is x == y, Less x < y.
func (m *Machine) Equal(x, y *Int) Bit { return m.equal(x, y) }
func (m *Machine) Less(x, y *Int) Bit  { return m.less(x, y) }

// ElemOf is element i of an input slice.
func (m *Machine) ElemOf(s *Slice, i *Int) Value {
	st := newState()
	p := m.sliceElem(s, i)
	return m.read(st, m.content(st, p.Obj), p.Path, types.Typ[types.Uint8])
}

// Apply analyses a call of a function value in the state another call left.
func (m *Machine) Apply(o Outcome, f *Func, args ...Value) []Outcome {
	m.tick()
	return m.call(f.Fn, args, f.Bound, o.St, fmt.Sprintf("%s%d", f.Fn.Name(), m.ticks))
}

// Entries lists what a map holds, if that is known.
func (m *Machine) Entries(o Outcome, v Value) ([]Pair, bool) {
	x, ok := v.(*Opaque)
	if !ok || x.Obj == nil {
		return nil, false
	}
	ps, ok := m.content(o.St, x.Obj).(*Pairs)
	if !ok {
		return nil, false
	}
	return ps.L, true
}

// Text is the value of a constant string.
func (m *Machine) Text(v Value) (string, bool) {
	s, ok := v.(*Slice)
	if !ok || !s.Str {
		return "", false
	}
	var r []byte
	n, ok := s.Len.Const()
	if !ok {
		return "", false
	}
	for i := int64(0); i < n; i++ {
		x, ok := m.at(newState(), s, i).(*Int)
		if !ok {
			return "", false
		}
		c, ok := x.Const()
		if !ok {
			return "", false
		}
		r = append(r, byte(c))
	}
	return string(r), true
}

// Copy is an outcome whose state is its own.
func (o Outcome) Copy() Outcome {
	o.St = o.St.clone()
	return o
}

// ElemIn is element i of a slice when o ends.
func (m *Machine) ElemIn(o Outcome, s *Slice, i *Int) Value {
	if s.Obj == nil {
		return nil
	}
	p := m.sliceElem(s, i)
	v := m.read(o.St, m.content(o.St, p.Obj), p.Path, types.Typ[types.Uint8])
	if n, ok := v.(*Int); ok {
		return m.under(o.St, n)
	}
	return v
}

// Under is an integer with the bits known when o ends.
func (m *Machine) Under(o Outcome, x *Int) *Int { return m.under(o.St, x) }

// Set adds an entry to a map of known entries.
func (m *Machine) Set(s *Site, mv, k, v Value) bool {
	o, ok := mv.(*Opaque)
	if !ok || o.Obj == nil {
		return false
	}
	ps, ok := m.content(s.St, o.Obj).(*Pairs)
	if !ok {
		return false
	}
	s.St.put(o.Obj, &Pairs{append(append([]Pair(nil), ps.L...), Pair{k, v})})
	return true
}

// From is the state of an outcome with a result, for a call that is modelled.
func (o Outcome) From(v Value) Ret { return Ret{V: v, St: o.St} }

// At points to element i of a slice.
func (m *Machine) At(s *Slice, i *Int) *Ptr { return m.sliceElem(s, m.asIndex(i)) }

// Zeros is a slice of n zero elements.
func (m *Machine) Zeros(elem types.Type, n *Int) *Slice {
	o := &Obj{ID: m.nextObj(), Key: "zeros"}
	m.initial[o] = &Back{Elem: elem, Zero: true, Elems: map[string]cell{}}
	return &Slice{Obj: o, Off: m.i64(0), Len: n}
}

// BitKey names a bit.
func (m *Machine) BitKey(b Bit) string { return m.bitKey(b) }

// Resize converts an integer to another width.
func (m *Machine) Resize(x *Int, w int, signed bool) *Int { return m.convert(x, w, signed) }

// With is an outcome for the inputs of which b is v; false if there are none.
func (o Outcome) With(b Bit, v bool) (Outcome, bool) {
	o.St = o.St.clone()
	return o, o.St.assume(b, b2(v))
}

// Unknown is a new unknown bit.
func (m *Machine) Unknown(key string) Bit { return m.Atom(fmt.Sprintf("%s%d", key, m.tick())) }

// Fresh is an outcome in which nothing has happened.
func (o Outcome) Fresh() Outcome { return Outcome{St: newState()} }

// SetGlobal makes v what a variable of a package holds.
func (m *Machine) SetGlobal(g *ssa.Global, v Value) { m.initial[m.global(g)] = v }

// GlobalPtr points to a variable of a package.
func (m *Machine) GlobalPtr(g *ssa.Global) *Ptr { return &Ptr{Obj: m.global(g)} }
