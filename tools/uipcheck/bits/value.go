// Package bits is an abstract interpreter of SSA whose integers are vectors
// of bits: constant, a bit of an input (or its complement), or unknown but
// numbered, so that two computations of one unknown agree. Next to its bits
// an integer has a linear form over the inputs, for addresses and offsets.
//
// It decides where each bit of a result comes from, over a whole cell of
// inputs at once: a cell fixes some input bits and leaves the others free.
package bits

import (
	"fmt"
	"go/types"
	"math/big"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Bit is 0, 1, or a literal: atom<<1, plus 1 for its complement.
type Bit int32

func (b Bit) konst() bool { return b < 2 }
func not(b Bit) Bit       { return b ^ 1 }

// Sym is a named unknown integer of some width.
type Sym struct {
	ID    int
	Key   string
	W     int
	Lo    *big.Int
	Hi    *big.Int // nil: the width's range, unsigned
	Def   *Lin     // the sum it stands for
	From  []Value  // what a merge brought together
	first int32    // atom of bit 0
}

type atomInfo struct {
	key string
	sym *Sym
	k   int
}

// World interns symbols and atoms.
type World struct {
	syms  map[string]*Sym
	byID  []*Sym
	atoms []atomInfo
	keyed map[string]int32
	brief map[string]string
	lone  map[*Sym]Bit   // symbols of a single bit
	runs  map[*Sym][]Bit // the bits a symbol of a part stands for
}

// short names what a long key stands for.
func (w *World) short(key string) string {
	if len(key) < 120 {
		return key
	}
	s := w.brief[key]
	if s == "" {
		s = fmt.Sprintf("#%d", len(w.brief))
		w.brief[key] = s
	}
	return s
}

func NewWorld() *World {
	return &World{syms: map[string]*Sym{}, atoms: make([]atomInfo, 1), keyed: map[string]int32{}, brief: map[string]string{}, lone: map[*Sym]Bit{}, runs: map[*Sym][]Bit{}}
}

func (w *World) Sym(key string, width int) *Sym {
	key = w.short(key)
	k := fmt.Sprintf("%s:%d", key, width)
	if s := w.syms[k]; s != nil {
		return s
	}
	s := &Sym{ID: len(w.byID), Key: key, W: width, first: int32(len(w.atoms))}
	w.syms[k] = s
	w.byID = append(w.byID, s)
	for i := 0; i < width; i++ {
		w.atoms = append(w.atoms, atomInfo{fmt.Sprintf("%s.%d", key, i), s, i})
	}
	return s
}

// Atom is a free bit of its own.
func (w *World) Atom(key string) Bit {
	key = w.short(key)
	if a, ok := w.keyed[key]; ok {
		return Bit(a << 1)
	}
	a := int32(len(w.atoms))
	w.atoms = append(w.atoms, atomInfo{key: key})
	w.keyed[key] = a
	return Bit(a << 1)
}

func (w *World) bitKey(b Bit) string {
	switch {
	case b == 0:
		return "0"
	case b == 1:
		return "1"
	case b&1 == 1:
		return "~" + w.atoms[b>>1].key
	}
	return w.atoms[b>>1].key
}

func (s *Sym) bit(k int) Bit { return Bit((s.first + int32(k)) << 1) }

// Lin is c + sum of coefficients times symbols, modulo 2^64.
type Lin struct {
	C uint64
	T []term // sorted by symbol
}
type term struct {
	s *Sym
	k uint64
}

func konst(c uint64) *Lin { return &Lin{C: c} }

func (a *Lin) isConst() bool { return len(a.T) == 0 }

func addLin(a, b *Lin, kb uint64) *Lin {
	r := &Lin{C: a.C + kb*b.C}
	i, j := 0, 0
	for i < len(a.T) || j < len(b.T) {
		switch {
		case j == len(b.T) || i < len(a.T) && a.T[i].s.ID < b.T[j].s.ID:
			r.T = append(r.T, a.T[i])
			i++
		case i == len(a.T) || b.T[j].s.ID < a.T[i].s.ID:
			if k := kb * b.T[j].k; k != 0 {
				r.T = append(r.T, term{b.T[j].s, k})
			}
			j++
		default:
			if k := a.T[i].k + kb*b.T[j].k; k != 0 {
				r.T = append(r.T, term{a.T[i].s, k})
			}
			i++
			j++
		}
	}
	return r
}

func (a *Lin) String() string {
	if len(a.T) == 0 {
		return fmt.Sprint(int64(a.C))
	}
	var ps []string
	for _, t := range a.T {
		if t.k == 1 {
			ps = append(ps, t.s.Key)
		} else {
			ps = append(ps, fmt.Sprintf("%d*%s", int64(t.k), t.s.Key))
		}
	}
	sort.Strings(ps)
	if a.C != 0 {
		ps = append(ps, fmt.Sprint(int64(a.C)))
	}
	return strings.Join(ps, "+")
}

func (a *Lin) Equal(b *Lin) bool {
	if a.C != b.C || len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}

// Value is an abstract value.
type Value interface{}

type (
	// Int is an integer; Bits from the low end.
	Int struct {
		Bits   []Bit
		Signed bool
		Lin    *Lin // set for widths of 64, and narrow values that cannot wrap
	}
	Bool struct{ B Bit }
	// Ptr points into an object.
	Ptr struct {
		Obj  *Obj
		Path []Elem
	}
	// Slice is a slice or a string.
	Slice struct {
		Obj      *Obj
		Path     []Elem
		Off, Len *Int
		Nil      Bit
		Str      bool
	}
	Struct struct {
		T types.Type
		F []Value
	}
	// Back is an array, or what a slice lies on.
	Back struct {
		Elem  types.Type
		Zero  bool   // elements not listed are zero
		Key   string // otherwise they are inputs of this name
		Gen   int    // counts stores that may have hit any of them
		Elems map[string]cell
		Fill  func(i *Int) Value // other elements
		log   *elemLog           // instead of Elems, for long arrays
	}
	Iface struct {
		T   types.Type // dynamic type, nil if unknown
		V   Value
		Nil Bit
		Key string
	}
	Func struct {
		Fn    *ssa.Function
		Bound []Value
	}
	Tuple  []Value
	Opaque struct {
		Key string
		T   types.Type
		Obj *Obj // of a map: where its entries are
	}
)

type cell struct {
	at *Int
	v  Value
}

// Elem is a step from an object to a part of it.
type Elem struct {
	Field int // -1 for an index
	Index *Int
}

// Obj is a piece of memory; what it holds is in the state.
type Obj struct {
	ID    int
	Key   string
	T     types.Type
	Input bool
}

func (w *World) Const(v uint64, width int, signed bool) *Int {
	x := &Int{Bits: make([]Bit, width), Signed: signed}
	for i := range x.Bits {
		x.Bits[i] = Bit(v >> uint(i) & 1)
	}
	return w.norm(x)
}

func (w *World) SymInt(s *Sym, signed bool) *Int {
	x := &Int{Bits: make([]Bit, s.W), Signed: signed}
	for i := range x.Bits {
		x.Bits[i] = s.bit(i)
	}
	return w.norm(x)
}

// norm gives an integer its linear form.
func (w *World) norm(x *Int) *Int {
	if x.Lin == nil {
		x.Lin = w.linOf(x.Bits)
	}
	return x
}

// linOf writes a bit vector, read as unsigned, as a sum over the runs of bits
// it is made of.
func (w *World) linOf(bs []Bit) *Lin {
	r := konst(0)
	for i := 0; i < len(bs); {
		b := bs[i]
		if b.konst() {
			r.C += uint64(b) << uint(i)
			i++
			continue
		}
		in := w.atoms[b>>1]
		j := i + 1
		if in.sym != nil && b&1 == 0 {
			for j < len(bs) && bs[j]&1 == 0 && !bs[j].konst() && w.atoms[bs[j]>>1].sym == in.sym && w.atoms[bs[j]>>1].k == in.k+j-i {
				j++
			}
		}
		var t *Lin
		if in.sym != nil && b&1 == 0 && in.k == 0 && j-i == in.sym.W {
			if in.sym.Def != nil {
				t = in.sym.Def
			} else {
				t = &Lin{T: []term{{in.sym, 1}}}
			}
		} else {
			// part of a symbol, or a complement
			if b&1 == 1 { // 1 - x
				s := w.part(b^1, i, i+1)
				t = &Lin{C: 1, T: []term{{s, ^uint64(0)}}}
				j = i + 1
			} else {
				t = &Lin{T: []term{{w.part(b, i, j), 1}}}
			}
		}
		r = addLin(r, t, 1<<uint(i))
		i = j
	}
	return r
}

// part is the symbol of a run of bits that starts with b.
func (w *World) part(b Bit, i, j int) *Sym {
	in := w.atoms[b>>1]
	key := "{" + in.key
	if j-i > 1 {
		key += fmt.Sprintf("..%d", in.k+j-i-1)
	}
	s := w.Sym(key+"}", j-i)
	if j-i == 1 {
		w.lone[s] = b
	}
	if w.runs[s] == nil {
		run := []Bit{b}
		for k := 1; k < j-i; k++ {
			run = append(run, in.sym.bit(in.k+k))
		}
		w.runs[s] = run
	}
	return s
}

func (x *Int) konst() (uint64, bool) {
	var v uint64
	for i, b := range x.Bits {
		if !b.konst() {
			return 0, false
		}
		v |= uint64(b) << uint(i)
	}
	return v, true
}

// Const is the value of a constant.
func (x *Int) Const() (int64, bool) {
	v, ok := x.konst()
	if !ok {
		return 0, false
	}
	n := uint(64 - len(x.Bits))
	if x.Signed {
		return int64(v<<n) >> n, true
	}
	return int64(v), true
}

func sameBits(a, b []Bit) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// String writes an integer from the high end.
func (w *World) String(x *Int) string {
	if c, ok := x.Const(); ok {
		return fmt.Sprint(c)
	}
	if x.Lin != nil && len(x.Bits) > 8 {
		return x.Lin.String()
	}
	var ps []string
	for i := len(x.Bits) - 1; i >= 0; i-- {
		ps = append(ps, w.bitKey(x.Bits[i]))
	}
	return strings.Join(ps, " ")
}

// fromLin makes a 64-bit integer of a sum.
func (w *World) fromLin(l *Lin, width int, signed bool) *Int {
	if l.isConst() {
		return w.Const(l.C, width, signed)
	}
	if len(l.T) == 1 && l.C == 0 && l.T[0].k == 1 && l.T[0].s.W <= width {
		s := l.T[0].s
		x := &Int{Bits: make([]Bit, width), Signed: signed}
		for i := 0; i < s.W; i++ {
			x.Bits[i] = s.bit(i)
		}
		x.Lin = l
		return x
	}
	if x := w.assemble(l, width, signed); x != nil {
		return x
	}
	s := w.Sym("("+l.String()+")", width)
	if width == 64 {
		s.Def = l
	}
	x := &Int{Bits: make([]Bit, width), Signed: signed, Lin: l}
	for i := range x.Bits {
		x.Bits[i] = s.bit(i)
	}
	if width < 64 {
		x.Lin = nil
		w.norm(x)
	}
	return x
}

// assemble is the integer of a sum whose terms do not overlap, bit by bit.
func (w *World) assemble(l *Lin, width int, signed bool) *Int {
	x := &Int{Bits: make([]Bit, width), Signed: signed, Lin: l}
	used := make([]bool, width)
	for i := range x.Bits {
		if i < 64 && l.C>>uint(i)&1 == 1 {
			x.Bits[i], used[i] = 1, true
		}
	}
	for _, t := range l.T {
		run := w.runs[t.s]
		if run == nil && t.s.Def == nil {
			for i := 0; i < t.s.W; i++ {
				run = append(run, t.s.bit(i))
			}
		}
		p := bits.TrailingZeros64(t.k)
		if run == nil || t.k != 1<<uint(p) || p+len(run) > width {
			return nil
		}
		for i, b := range run {
			if used[p+i] {
				return nil
			}
			x.Bits[p+i], used[p+i] = b, true
		}
	}
	return x
}

// opaque is an unknown named by how it was computed.
func (w *World) opaque(key string, width int, signed bool) *Int {
	return w.SymInt(w.Sym(key, width), signed)
}

func (w *World) keys(xs ...*Int) string {
	var ps []string
	for _, x := range xs {
		if _, ok := x.konst(); ok || x.Lin != nil && (len(x.Bits) == 64 || len(x.Lin.T) < 2) {
			ps = append(ps, x.Lin.String())
		} else {
			ps = append(ps, w.String(x))
		}
	}
	return strings.Join(ps, ",")
}

func (w *World) bitAnd(a, b Bit) Bit {
	switch {
	case a == 0 || b == 0 || a == not(b):
		return 0
	case a == 1 || a == b:
		return b
	case b == 1:
		return a
	}
	if a > b {
		a, b = b, a
	}
	return w.Atom("(" + w.bitKey(a) + "&" + w.bitKey(b) + ")")
}
func (w *World) bitOr(a, b Bit) Bit { return not(w.bitAnd(not(a), not(b))) }
func (w *World) bitXor(a, b Bit) Bit {
	switch {
	case a.konst():
		return b ^ a
	case b.konst():
		return a ^ b
	case a == b:
		return 0
	case a == not(b):
		return 1
	}
	n := (a ^ b) & 1
	a, b = a&^1, b&^1
	if a > b {
		a, b = b, a
	}
	return w.Atom("("+w.bitKey(a)+"^"+w.bitKey(b)+")") ^ n
}

// ite is x if b holds, y if not.
func (w *World) ite(b, x, y Bit) Bit {
	switch b {
	case 1:
		return x
	case 0:
		return y
	}
	if b&1 == 1 {
		b, x, y = b^1, y, x
	}
	switch x {
	case b:
		x = 1
	case not(b):
		x = 0
	}
	switch y {
	case b:
		y = 0
	case not(b):
		y = 1
	}
	switch {
	case x == y:
		return x
	case x == not(y):
		return w.bitXor(b, y)
	case x == 1:
		return w.bitOr(b, y)
	case x == 0:
		return w.bitAnd(not(b), y)
	case y == 1:
		return w.bitOr(not(b), x)
	case y == 0:
		return w.bitAnd(b, x)
	}
	p, q := w.atoms[x>>1], w.atoms[y>>1]
	if p.sym != nil && q.sym != nil && p.sym.W == q.sym.W && p.k == q.k && x&1 == 0 && y&1 == 0 {
		s := w.Sym(fmt.Sprintf("ite(%s,%s,%s)", w.bitKey(b), p.sym.Key, q.sym.Key), p.sym.W)
		return s.bit(p.k)
	}
	return w.Atom(fmt.Sprintf("ite(%s,%s,%s)", w.bitKey(b), w.bitKey(x), w.bitKey(y)))
}

// Ite is x if b holds, y if not.
func (w *World) Ite(b Bit, x, y *Int) *Int {
	r := &Int{Bits: make([]Bit, len(x.Bits)), Signed: x.Signed}
	for i := range r.Bits {
		r.Bits[i] = w.ite(b, x.Bits[i], y.Bits[i])
	}
	return w.norm(r)
}

// add is a + b + c.
func (w *World) add(a, b *Int, c Bit) *Int {
	n := len(a.Bits)
	r := &Int{Bits: make([]Bit, n), Signed: a.Signed}
	if n == 64 && a.Lin != nil && b.Lin != nil {
		r.Lin = addLin(a.Lin, b.Lin, 1)
		r.Lin.C += uint64(c)
	}
	for i := 0; i < n; i++ {
		x, y := a.Bits[i], b.Bits[i]
		// at most one of the three unknown, or two of them cancel
		free := 0
		for _, z := range []Bit{x, y, c} {
			if !z.konst() {
				free++
			}
		}
		if free > 1 && !(x == y || x == not(y) || x == c || x == not(c) || y == c || y == not(c)) {
			key := ""
			if r.Lin != nil {
				if s := w.fromLin(r.Lin, n, a.Signed); s != nil {
					s.Lin = r.Lin
					return s
				}
			}
			ka, kb := w.keys(a), w.keys(b)
			if kb < ka {
				ka, kb = kb, ka
			}
			key = fmt.Sprintf("add%d(%s,%s,%d)", n, ka, kb, c&1)
			o := w.opaque(key, n, a.Signed)
			copy(r.Bits[i:], o.Bits[i:])
			r.Lin = nil
			return w.norm(r)
		}
		r.Bits[i] = w.bitXor(w.bitXor(x, y), c)
		switch {
		case x == y:
			c = x
		case x == not(y):
			// c stays
		case x == c:
			c = x
		case x == not(c):
			c = y
		case y == c:
			c = y
		case y == not(c):
			c = x
		default: // two constants that are equal were covered; one free
			c = w.bitOr(w.bitAnd(x, y), w.bitAnd(c, w.bitOr(x, y)))
		}
	}
	if n == 64 && r.Lin != nil {
		return r
	}
	r.Lin = nil
	return w.norm(r)
}

func (w *World) complement(a *Int) *Int {
	r := &Int{Bits: make([]Bit, len(a.Bits)), Signed: a.Signed}
	for i, b := range a.Bits {
		r.Bits[i] = not(b)
	}
	if len(a.Bits) == 64 && a.Lin != nil {
		r.Lin = addLin(konst(^uint64(0)), a.Lin, ^uint64(0))
		return r
	}
	return w.norm(r)
}

func (w *World) sub(a, b *Int) *Int {
	if sameBits(a.Bits, b.Bits) {
		return w.Const(0, len(a.Bits), a.Signed)
	}
	if len(a.Bits) == 64 && a.Lin != nil && b.Lin != nil {
		l := addLin(a.Lin, b.Lin, ^uint64(0))
		if l.isConst() || len(l.T) == 1 && l.C == 0 && l.T[0].k == 1 {
			return w.fromLin(l, 64, a.Signed)
		}
	}
	return w.add(a, w.complement(b), 1)
}

func (w *World) shl(a *Int, k uint) *Int {
	n := len(a.Bits)
	r := &Int{Bits: make([]Bit, n), Signed: a.Signed}
	for i := range r.Bits {
		if uint(i) >= k {
			r.Bits[i] = a.Bits[uint(i)-k]
		}
	}
	if n == 64 && a.Lin != nil && k < 64 {
		r.Lin = addLin(konst(0), a.Lin, 1<<k)
		return r
	}
	return w.norm(r)
}

func (w *World) shr(a *Int, k uint) *Int {
	n := len(a.Bits)
	r := &Int{Bits: make([]Bit, n), Signed: a.Signed}
	for i := range r.Bits {
		if j := uint(i) + k; j < uint(n) {
			r.Bits[i] = a.Bits[j]
		} else if a.Signed {
			r.Bits[i] = a.Bits[n-1]
		}
	}
	return w.norm(r)
}

func (w *World) mul(a, b *Int) *Int {
	n := len(a.Bits)
	if _, ok := a.konst(); ok {
		a, b = b, a
	}
	if c, ok := b.konst(); ok {
		if c == 0 {
			return w.Const(0, n, a.Signed)
		}
		if c&(c-1) == 0 {
			k := uint(0)
			for c>>k != 1 {
				k++
			}
			return w.shl(a, k)
		}
		if n == 64 && a.Lin != nil {
			if _, ok := a.konst(); ok {
				return w.Const(a.Lin.C*c, n, a.Signed)
			}
			return w.fromLin(addLin(konst(0), a.Lin, c), n, a.Signed)
		}
		if v, ok := a.konst(); ok {
			return w.Const(v*c, n, a.Signed)
		}
	}
	ka, kb := w.keys(a), w.keys(b)
	if kb < ka {
		ka, kb = kb, ka
	}
	return w.opaque(fmt.Sprintf("mul%d(%s,%s)", n, ka, kb), n, a.Signed)
}

func (w *World) bitwise(a, b *Int, f func(x, y Bit) Bit) *Int {
	r := &Int{Bits: make([]Bit, len(a.Bits)), Signed: a.Signed}
	for i := range r.Bits {
		r.Bits[i] = f(a.Bits[i], b.Bits[i])
	}
	return w.norm(r)
}

// convert changes width and signedness.
func (w *World) convert(a *Int, n int, signed bool) *Int {
	if n == len(a.Bits) {
		return &Int{Bits: a.Bits, Signed: signed, Lin: a.Lin}
	}
	r := &Int{Bits: make([]Bit, n), Signed: signed}
	for i := range r.Bits {
		switch {
		case i < len(a.Bits):
			r.Bits[i] = a.Bits[i]
		case a.Signed:
			r.Bits[i] = a.Bits[len(a.Bits)-1]
		}
	}
	return w.norm(r)
}

var one, minusOne = big.NewInt(1), big.NewInt(-1)

func pow2(n int) *big.Int { return new(big.Int).Lsh(one, uint(n)) }

func (s *Sym) rng() (lo, hi *big.Int) {
	if s.Hi != nil {
		return s.Lo, s.Hi
	}
	return new(big.Int), new(big.Int).Sub(pow2(s.W), one)
}

// linRange bounds a sum of symbols over the integers (without wrapping).
func linRange(l *Lin) (lo, hi *big.Int) {
	lo, hi = big.NewInt(int64(l.C)), big.NewInt(int64(l.C))
	for _, t := range l.T {
		a, b := t.s.rng()
		k := big.NewInt(int64(t.k))
		x, y := new(big.Int).Mul(a, k), new(big.Int).Mul(b, k)
		if k.Sign() < 0 {
			x, y = y, x
		}
		lo = new(big.Int).Add(lo, x)
		hi = new(big.Int).Add(hi, y)
	}
	return
}

// small: the sum does not wrap in 63 bits, so it can be compared as integers.
func small(l *Lin) bool {
	lo, hi := linRange(l)
	m := pow2(62)
	return hi.Cmp(m) < 0 && lo.Cmp(new(big.Int).Neg(m)) > 0
}

// less is a < b.
func (w *World) less(a, b *Int) Bit {
	if sameBits(a.Bits, b.Bits) {
		return 0
	}
	if x, ok := a.Const(); ok {
		if y, ok := b.Const(); ok {
			if a.Signed {
				return b2(x < y)
			}
			return b2(uint64(x) < uint64(y))
		}
	}
	if a.Lin != nil && b.Lin != nil && small(a.Lin) && small(b.Lin) && (len(a.Bits) == 64 || !a.Signed) {
		lo, hi := linRange(addLin(a.Lin, b.Lin, ^uint64(0)))
		if hi.Sign() < 0 {
			return 1
		}
		if lo.Sign() >= 0 {
			return 0
		}
	}
	if r, ok := w.byCase(a, b, w.less); ok {
		return r
	}
	n := len(a.Bits)
	for i := n - 1; i >= 0; i-- {
		x, y := a.Bits[i], b.Bits[i]
		if i == n-1 && a.Signed {
			x, y = y, x
		}
		if x == y {
			continue
		}
		if x.konst() && y.konst() {
			return y
		}
		if x == not(y) {
			return y
		}
		// x=0: less unless y=0; decided when the rest cannot be less
		rest := w.restLess(a.Bits[:i], b.Bits[:i])
		if x == 0 && rest == 0 {
			return y
		}
		if y == 1 && rest == 0 {
			return not(x)
		}
		if x == 1 && rest == 1 {
			return y // 1<1 rest
		}
		break
	}
	return w.Atom(fmt.Sprintf("lt%d%v(%s,%s)", n, a.Signed, w.keys(a), w.keys(b)))
}

// restLess: 0 if the low bits of a are never less than those of b, 1 if always.
func (w *World) restLess(a, b []Bit) Bit {
	never := true
	for i := range a {
		if !(b[i] == 0 || a[i] == 1 || a[i] == b[i]) {
			never = false
		}
	}
	if never {
		return 0
	}
	return 2
}

func b2(b bool) Bit {
	if b {
		return 1
	}
	return 0
}

// equal is a == b.
func (w *World) equal(a, b *Int) Bit {
	r := Bit(1)
	open := 0
	for i := range a.Bits {
		x, y := a.Bits[i], b.Bits[i]
		if x == y {
			continue
		}
		if x == not(y) {
			return 0
		}
		open++
		if open == 1 {
			r = not(w.bitXor(x, y))
		}
	}
	if open <= 1 {
		return r
	}
	if r, ok := w.byCase(a, b, w.equal); ok {
		return r
	}
	if a.Lin != nil && b.Lin != nil && (len(a.Bits) == 64) {
		d := addLin(a.Lin, b.Lin, ^uint64(0))
		if d.isConst() {
			return b2(d.C == 0)
		}
		if small(a.Lin) && small(b.Lin) {
			lo, hi := linRange(d)
			if lo.Sign() > 0 || hi.Sign() < 0 {
				return 0
			}
		}
	}
	ka, kb := w.keys(a), w.keys(b)
	if kb < ka {
		ka, kb = kb, ka
	}
	return w.Atom(fmt.Sprintf("eq%d(%s,%s)", len(a.Bits), ka, kb))
}

// byCase decides a relation of integers that depend on one bit only, by that
// bit.
func (w *World) byCase(a, b *Int, rel func(a, b *Int) Bit) (Bit, bool) {
	at := Bit(0)
	n := 0
	for _, l := range [][]Bit{a.Bits, b.Bits} {
		for _, x := range l {
			if x.konst() {
				continue
			}
			if at != 0 && x|1 != at|1 {
				return 0, false
			}
			at = x &^ 1
			n++
		}
	}
	if n < 2 {
		return 0, false
	}
	fix := func(x *Int, v Bit) *Int {
		r := &Int{Bits: append([]Bit(nil), x.Bits...), Signed: x.Signed}
		for i, b := range r.Bits {
			if !b.konst() {
				r.Bits[i] = v ^ (b & 1)
			}
		}
		return w.norm(r)
	}
	return w.ite(at, rel(fix(a, 1), fix(b, 1)), rel(fix(a, 0), fix(b, 0))), true
}
