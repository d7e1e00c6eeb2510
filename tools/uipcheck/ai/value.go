package ai

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. Values are immutable.
type Val interface{}

type ObjID int

// Nilness is known, or an unknown resolved by the facts of a state.
type Nilness struct {
	k  uint8 // 0 non-nil, 1 nil, 2 unknown
	id int
}

var nonNil = Nilness{}
var isNil = Nilness{k: 1}

type IntV struct{ L Lin }
type BoolV struct{ c Cond }
type StrV struct {
	n   Lin
	c   *string
	id  int
	src *strSrc
}

// strSrc says where a string came from.
type strSrc struct {
	kind string // "elem": element idx of array obj; "bytes": bytes of obj from off
	obj  ObjID
	idx  Lin
	of   *StrV // the string that was split
	name string
}

type SliceV struct {
	n        Nilness
	obj      ObjID
	off      Lin
	len, cap Lin
}
type pathElem struct {
	field int // -1: index
	idx   Lin
}
type PtrV struct {
	n    Nilness
	obj  ObjID
	path []pathElem
}
type IfaceV struct {
	n   Nilness
	t   types.Type // dynamic type, nil when unknown
	v   Val
	id  int
	tag string
}
type FuncV struct {
	n    Nilness
	fn   *ssa.Function
	bind []Val
	top  types.Type // unknown function of this type
}
type MapV struct {
	n   Nilness
	obj ObjID
}
type StructV struct{ f []Val }

// ArrV is an array value; nil e: unknown contents.
type ArrV struct {
	e []Val
	t *types.Array
}
type TupleV []Val

// TopV is a value nothing is known about (floats, channels, ...).
type TopV struct{ t types.Type }

// iterV iterates over a map or string.
type iterV struct {
	m   Val
	str bool
	pos ObjID // cell holding the position, for strings
	cnt bool  // a map whose size is known: pos counts the keys seen
	lim ObjID // cell holding the size
}

// ReflV is a reflect.Value of static type t.
type ReflV struct {
	t     types.Type // nil: unknown dynamic type
	set   bool
	valid bool
	nn    bool // known not nil (pointer made by the program)
	loc   int  // fact id: the value is zero
	root  ObjID
	hasR  bool
}

// RTypeV is a reflect.Type.
type RTypeV struct{ t types.Type }

// Conditions.
type Cond interface{}
type CConst bool
type CCmp struct {
	e  Lin // e <= 0, or e == 0
	eq bool
}
type CNot struct{ c Cond }
type CFact struct{ id int } // an unknown boolean, or "id is nil"
type CStr struct {
	s StrV
	c string
}

// CImp is an unknown boolean; holding (or not) implies constraints.
type CImp struct {
	id   int
	t, f []row
}

func bconst(b bool) BoolV { return BoolV{CConst(b)} }

type strFact struct {
	eq *string
	ne []string
}

// Alt is one shape of a summarised element: a private object graph, with
// symbols local to each element and what is known about them.
type Alt struct {
	v      Val
	objs   map[ObjID]*Obj
	locals []Sym
	cons   []*Con
	key    string
	leaves []leaf
}

type objKind uint8

const (
	kCell objKind = iota
	kArr
	kMap
	kOpaque
)

type mapEnt struct{ k, v Val }

type memoEnt struct {
	idx Lin
	v   Val
}

// Obj is immutable once in a heap; updates store a copy.
type Obj struct {
	id      ObjID
	site    string
	t       types.Type // of the cell, array element, or map
	kind    objKind
	cell    Val
	alts    []*Alt // array: elements not in known/low; map: unnamed entries
	low     []*Alt // array: elements below bound
	bound   Lin
	two     bool
	top     bool // elements may be anything of the type
	known   map[int64]Val
	memo    []memoEnt
	ents    []mapEnt
	more    bool // map may hold other keys
	escaped bool // summarised by some template, or an instance of one
	frozen  string
	tag     string
	ext     map[string]Val
	init    bool
}

func (o *Obj) copy() *Obj {
	c := *o
	c.init = false
	return &c
}

type Frame struct {
	fn   *ssa.Function
	env  map[ssa.Value]Val
	call ssa.Instruction
}

func (f *Frame) copy() *Frame {
	n := &Frame{fn: f.fn, env: make(map[ssa.Value]Val, len(f.env)+8), call: f.call}
	for k, v := range f.env {
		n.env[k] = v
	}
	return n
}

// pend is an error some step produced.
type pend struct {
	n    Nilness
	site string
}

type State struct {
	eng    *Eng
	cs     consSet
	facts  map[int]bool
	strs   map[int]strFact
	heap   map[ObjID]*Obj
	top    *Frame
	frames []*Frame
	pend   []pend
	notes  []string
	ctx    *recCtx
}

func (s *State) clone() *State {
	n := &State{eng: s.eng, frames: s.frames[:len(s.frames):len(s.frames)], ctx: s.ctx}
	if s.top != nil {
		n.top = s.top.copy()
	}
	n.cs = consSet{tab: s.cs.tab, list: s.cs.list[:len(s.cs.list):len(s.cs.list)]}
	n.facts = make(map[int]bool, len(s.facts)+4)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.strs = make(map[int]strFact, len(s.strs))
	for k, v := range s.strs {
		n.strs[k] = v
	}
	n.heap = make(map[ObjID]*Obj, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.pend = s.pend[:len(s.pend):len(s.pend)]
	n.notes = s.notes[:len(s.notes):len(s.notes)]
	return n
}

func (s *State) note(n string) {
	for _, x := range s.notes {
		if x == n {
			return
		}
	}
	s.notes = append(s.notes[:len(s.notes):len(s.notes)], n)
	sort.Strings(s.notes)
}

func (s *State) hasNote(n string) bool {
	for _, x := range s.notes {
		if x == n {
			return true
		}
	}
	return false
}

// nilOf resolves nilness under the state's facts: 0 no, 1 yes, 2 unknown.
func (s *State) nilOf(n Nilness) uint8 {
	if n.k == 2 {
		if f, ok := s.facts[n.id]; ok {
			if f {
				return 1
			}
			return 0
		}
	}
	return n.k
}

func valNil(v Val) (Nilness, bool) {
	switch v := v.(type) {
	case SliceV:
		return v.n, true
	case PtrV:
		return v.n, true
	case IfaceV:
		return v.n, true
	case FuncV:
		return v.n, true
	case MapV:
		return v.n, true
	}
	return Nilness{}, false
}

func nilCond(n Nilness) Cond {
	switch n.k {
	case 0:
		return CConst(false)
	case 1:
		return CConst(true)
	}
	return CFact{n.id}
}

func (s *State) strConst(v StrV) (string, bool) {
	if v.c != nil {
		return *v.c, true
	}
	if f, ok := s.strs[v.id]; ok && f.eq != nil {
		return *f.eq, true
	}
	return "", false
}

func (s *State) assumeLin(e Lin, eq bool) bool {
	if e.isConst() {
		if eq {
			return e.k.sign() == 0
		}
		return e.k.sign() <= 0
	}
	if !eq {
		if b := s.cs.interval(e); b.hasHi && b.hi.sign() <= 0 {
			return true
		}
	}
	if s.cs.contradicts(row{e, eq}) {
		return false
	}
	s.cs.list = append(s.cs.list, &Con{e, eq})
	return true
}

// assume returns the refinements of s in which c == want.
func (s *State) assume(c Cond, want bool) []*State {
	switch c := c.(type) {
	case CConst:
		if bool(c) == want {
			return []*State{s}
		}
		return nil
	case CNot:
		return s.assume(c.c, !want)
	case CCmp:
		if want {
			if s.assumeLin(c.e, c.eq) {
				return []*State{s}
			}
			return nil
		}
		if !c.eq {
			if s.assumeLin(c.e.neg().addc(1), false) {
				return []*State{s}
			}
			return nil
		}
		var out []*State
		t := s.clone()
		if s.assumeLin(c.e.addc(1), false) {
			out = append(out, s)
		}
		if t.assumeLin(c.e.neg().addc(1), false) {
			out = append(out, t)
		}
		return out
	case CFact:
		if f, ok := s.facts[c.id]; ok {
			if f == want {
				return []*State{s}
			}
			return nil
		}
		s.facts[c.id] = want
		return []*State{s}
	case CImp:
		if f, ok := s.facts[c.id]; ok {
			if f == want {
				return []*State{s}
			}
			return nil
		}
		s.facts[c.id] = want
		rs := c.f
		if want {
			rs = c.t
		}
		for _, r := range rs {
			if !s.assumeLin(r.e, r.eq) {
				return nil
			}
		}
		return []*State{s}
	case CStr:
		if v, ok := s.strConst(c.s); ok {
			if (v == c.c) == want {
				return []*State{s}
			}
			return nil
		}
		f := s.strs[c.s.id]
		for _, n := range f.ne {
			if n == c.c {
				if want {
					return nil
				}
				return []*State{s}
			}
		}
		if want {
			if !s.assumeLin(c.s.n.addc(-int64(len(c.c))), true) {
				return nil
			}
			cc := c.c
			s.strs[c.s.id] = strFact{eq: &cc}
			return []*State{s}
		}
		s.strs[c.s.id] = strFact{ne: append(f.ne[:len(f.ne):len(f.ne)], c.c)}
		if c.c == "" {
			if !s.assumeLin(lc(1).sub(c.s.n), false) {
				return nil
			}
		}
		return []*State{s}
	}
	panic(fmt.Sprintf("assume %T", c))
}

// evalCond decides c when the state settles it: 0 false, 1 true, 2 open.
func (s *State) evalCond(c Cond) int {
	switch c := c.(type) {
	case CConst:
		if c {
			return 1
		}
		return 0
	case CNot:
		switch s.evalCond(c.c) {
		case 0:
			return 1
		case 1:
			return 0
		}
		return 2
	case CCmp:
		if c.eq {
			if s.cs.entailsEQ(c.e) {
				return 1
			}
			if s.cs.entailsNE(c.e) {
				return 0
			}
			return 2
		}
		if s.cs.entailsLE(c.e) {
			return 1
		}
		if s.cs.entailsLE(c.e.neg().addc(1)) {
			return 0
		}
		return 2
	case CFact:
		if f, ok := s.facts[c.id]; ok {
			if f {
				return 1
			}
			return 0
		}
		return 2
	case CImp:
		if f, ok := s.facts[c.id]; ok {
			if f {
				return 1
			}
			return 0
		}
		return 2
	case CStr:
		if v, ok := s.strConst(c.s); ok {
			if v == c.c {
				return 1
			}
			return 0
		}
		for _, n := range s.strs[c.s.id].ne {
			if n == c.c {
				return 0
			}
		}
		return 2
	}
	return 2
}

var orderCache = map[*ssa.Function]map[ssa.Value]int{}

func valueOrder(fn *ssa.Function) map[ssa.Value]int {
	if m, ok := orderCache[fn]; ok {
		return m
	}
	m := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		m[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		m[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				m[v] = n
				n++
			}
		}
	}
	orderCache[fn] = m
	return m
}

// sorted lists the values of the frame in a fixed order.
func (f *Frame) sorted() []ssa.Value {
	out := make([]ssa.Value, 0, len(f.env))
	for k := range f.env {
		out = append(out, k)
	}
	ord := valueOrder(f.fn)
	sort.Slice(out, func(i, j int) bool { return ord[out[i]] < ord[out[j]] })
	return out
}

type valueKey = ssa.Value
