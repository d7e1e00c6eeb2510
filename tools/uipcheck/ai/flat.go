package ai

import (
	"fmt"
	"sort"
	"strings"
)

// leaf is a part of a state that may differ between states of one shape.
type leaf struct {
	kind byte // i s n b
	l    Lin
	s    StrV
	n    Nilness
	c    Cond
}

// tslot is a template found while walking: the summarised elements of an
// array or map.
type tslot struct {
	obj ObjID
	low bool
}

// mapper walks a graph of values in a fixed order. It writes the shape,
// collects the leaves and, when repl is set, rebuilds the graph with them.
type mapper struct {
	st     *State
	get    func(ObjID) *Obj
	b      strings.Builder
	num    map[ObjID]int
	order  []ObjID
	leaves []leaf
	slots  []tslot
	repl   []leaf
	pos    int
	out    map[ObjID]*Obj
	sub    map[Sym]Lin
	initH  map[ObjID]*Obj
}

func newMapper(st *State, get func(ObjID) *Obj) *mapper {
	m := &mapper{st: st, get: get, num: map[ObjID]int{}, out: map[ObjID]*Obj{}}
	if st.eng != nil {
		m.initH = st.eng.initHeap
	}
	m.sub = st.canon()
	return m
}

// canon solves the unit equalities for their newest symbol.
func (s *State) canon() map[Sym]Lin {
	var m map[Sym]Lin
	for _, c := range s.cs.list {
		if !c.eq || len(c.e.t) == 0 {
			continue
		}
		t := c.e.t[len(c.e.t)-1]
		if !t.c.abs().eq(zi(1)) {
			continue
		}
		// t.c*s + rest = 0
		rest := c.e.addScaled(ls(t.s), t.c.neg())
		if t.c.sign() > 0 {
			rest = rest.neg()
		}
		if m == nil {
			m = map[Sym]Lin{}
		}
		if _, ok := m[t.s]; !ok {
			m[t.s] = rest
		}
	}
	return m
}

func substLin(l Lin, m map[Sym]Lin) Lin {
	for n := 0; n < 20; n++ {
		hit := false
		for i := len(l.t) - 1; i >= 0; i-- {
			t := l.t[i]
			if r, ok := m[t.s]; ok {
				l = l.addScaled(ls(t.s), t.c.neg()).addScaled(r, t.c)
				hit = true
				break
			}
		}
		if !hit {
			break
		}
	}
	return l
}

// substOnce replaces symbols simultaneously.
func substOnce(l Lin, m map[Sym]Lin) Lin {
	r := Lin{k: l.k}
	for _, t := range l.t {
		if x, ok := m[t.s]; ok {
			r = r.addScaled(x, t.c)
		} else {
			r = r.addScaled(ls(t.s), t.c)
		}
	}
	return r
}

func (m *mapper) lin(l Lin) Lin {
	if m.repl != nil {
		r := m.repl[m.pos]
		m.pos++
		return r.l
	}
	if len(l.t) > 0 && m.sub != nil {
		l = substLin(l, m.sub)
	}
	m.leaves = append(m.leaves, leaf{kind: 'i', l: l})
	return l
}

func (m *mapper) nilv(n Nilness) Nilness {
	k := m.st.nilOf(n)
	fmt.Fprintf(&m.b, "%d", k)
	if k != 2 {
		return Nilness{k: k}
	}
	if m.repl != nil {
		r := m.repl[m.pos]
		m.pos++
		return r.n
	}
	m.leaves = append(m.leaves, leaf{kind: 'n', n: n})
	return n
}

func (m *mapper) str(v StrV) StrV {
	if m.repl != nil {
		l := m.repl[m.pos]
		r := m.repl[m.pos+1]
		m.pos += 2
		x := r.s
		if x.c == nil {
			x.n = l.l
		}
		return x
	}
	if c, ok := m.st.strConst(v); ok && v.c == nil {
		v = StrV{n: lc(int64(len(c))), c: &c, id: v.id, src: v.src}
	}
	m.lin(v.n)
	m.leaves = append(m.leaves, leaf{kind: 's', s: v})
	return v
}

func (m *mapper) val(v Val) Val {
	switch v := v.(type) {
	case nil:
		m.b.WriteString("_")
		return nil
	case IntV:
		m.b.WriteString("i")
		return IntV{m.lin(v.L)}
	case BoolV:
		switch m.st.evalCond(v.c) {
		case 0:
			m.b.WriteString("F")
			return bconst(false)
		case 1:
			m.b.WriteString("T")
			return bconst(true)
		}
		m.b.WriteString("B")
		if m.repl != nil {
			r := m.repl[m.pos]
			m.pos++
			return BoolV{r.c}
		}
		m.leaves = append(m.leaves, leaf{kind: 'b', c: v.c})
		return v
	case StrV:
		m.b.WriteString("s")
		return m.str(v)
	case SliceV:
		m.b.WriteString("[")
		v.n = m.nilv(v.n)
		if v.n.k == 1 {
			return SliceV{n: isNil}
		}
		v.off, v.len, v.cap = m.lin(v.off), m.lin(v.len), m.lin(v.cap)
		m.obj(v.obj)
		return v
	case PtrV:
		m.b.WriteString("*")
		v.n = m.nilv(v.n)
		if v.n.k == 1 {
			return PtrV{n: isNil}
		}
		var p []pathElem
		for _, e := range v.path {
			fmt.Fprintf(&m.b, ".%d", e.field)
			if e.field < 0 {
				e.idx = m.lin(e.idx)
			}
			p = append(p, e)
		}
		v.path = p
		m.obj(v.obj)
		return v
	case IfaceV:
		m.b.WriteString(" I")
		v.n = m.nilv(v.n)
		if v.n.k == 1 {
			return IfaceV{n: isNil}
		}
		if v.t != nil {
			m.b.WriteString(v.t.String())
			m.b.WriteString("(")
			v.v = m.val(v.v)
			m.b.WriteString(")")
		}
		return v
	case FuncV:
		m.b.WriteString("f")
		v.n = m.nilv(v.n)
		if v.fn != nil {
			m.b.WriteString(v.fn.String())
			var bind []Val
			for _, x := range v.bind {
				bind = append(bind, m.val(x))
			}
			v.bind = bind
		}
		return v
	case MapV:
		m.b.WriteString("M")
		v.n = m.nilv(v.n)
		if v.n.k == 1 {
			return MapV{n: isNil}
		}
		m.obj(v.obj)
		return v
	case StructV:
		m.b.WriteString("{")
		f := make([]Val, len(v.f))
		for i, x := range v.f {
			f[i] = m.val(x)
			m.b.WriteString(",")
		}
		return StructV{f}
	case ArrV:
		fmt.Fprintf(&m.b, "A%d(", len(v.e))
		if v.e == nil {
			return v
		}
		e := make([]Val, len(v.e))
		for i, x := range v.e {
			e[i] = m.val(x)
		}
		return ArrV{e, v.t}
	case TupleV:
		m.b.WriteString("(")
		f := make(TupleV, len(v))
		for i, x := range v {
			f[i] = m.val(x)
			m.b.WriteString(",")
		}
		return f
	case iterV:
		m.b.WriteString("it")
		if v.str {
			m.obj(v.pos)
			v.m = m.val(v.m)
			return v
		}
		if v.cnt {
			m.b.WriteString("#")
			m.obj(v.pos)
			m.obj(v.lim)
		}
		v.m = m.val(v.m)
		return v
	case TopV:
		m.b.WriteString("t")
		return v
	case ReflV:
		z := "?"
		if f, ok := m.st.facts[v.loc]; ok {
			z = fmt.Sprint(f)
		}
		fmt.Fprintf(&m.b, "R%v %v %v %v %s", v.t, v.set, v.valid, v.nn, z)
		if v.hasR {
			m.obj(v.root)
		}
		return v
	case RTypeV:
		fmt.Fprintf(&m.b, "RT%v", v.t)
		return v
	}
	panic(fmt.Sprintf("mapper %T", v))
}

func (m *mapper) obj(id ObjID) {
	if n, ok := m.num[id]; ok {
		fmt.Fprintf(&m.b, "@%d", n)
		return
	}
	n := len(m.num)
	m.num[id] = n
	o := m.get(id)
	if o == nil {
		fmt.Fprintf(&m.b, "@x%d", id)
		return
	}
	if io, ok := m.initH[id]; ok && io == o {
		fmt.Fprintf(&m.b, "@g%d", id)
		return
	}
	m.order = append(m.order, id)
	fmt.Fprintf(&m.b, "@%d:%d%s", n, o.kind, o.frozen)
	if o.tag != "" {
		m.b.WriteString(o.tag)
	}
	c := o.copy()
	c.memo = nil
	if o.top {
		m.b.WriteString("^")
	}
	switch o.kind {
	case kCell:
		c.cell = m.val(o.cell)
	case kArr:
		if len(o.known) > 0 {
			ks := make([]int64, 0, len(o.known))
			for k := range o.known {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
			c.known = make(map[int64]Val, len(ks))
			for _, k := range ks {
				fmt.Fprintf(&m.b, "#%d:", k)
				c.known[k] = m.val(o.known[k])
			}
		}
		if o.two {
			m.b.WriteString("2")
			c.bound = m.lin(o.bound)
			m.slots = append(m.slots, tslot{id, true})
		}
		m.slots = append(m.slots, tslot{id, false})
	case kMap:
		c.ents = nil
		for _, e := range o.ents {
			fmt.Fprintf(&m.b, "%s=", keyString(e.k))
			c.ents = append(c.ents, mapEnt{e.k, m.val(e.v)})
		}
		if o.more {
			m.b.WriteString("+")
		}
		m.slots = append(m.slots, tslot{id, false})
	}
	if len(o.ext) > 0 {
		ks := make([]string, 0, len(o.ext))
		for x := range o.ext {
			ks = append(ks, x)
		}
		sort.Strings(ks)
		c.ext = map[string]Val{}
		for _, x := range ks {
			m.b.WriteString(x)
			c.ext[x] = m.val(o.ext[x])
		}
	}
	m.out[id] = c
}

// keyString names a constant map key.
func keyString(v Val) string {
	switch v := v.(type) {
	case StrV:
		if v.c != nil {
			return fmt.Sprintf("%q", *v.c)
		}
	case IntV:
		if v.L.isConst() {
			return v.L.k.String()
		}
	case RTypeV:
		return "T" + v.t.String()
	case IfaceV:
		if v.t != nil {
			return "I" + keyString(v.v)
		}
	}
	return ""
}

// walk visits everything reachable from the frames of s.
func (m *mapper) walk(s *State) (frames []*Frame, top *Frame, pends []pend) {
	do := func(f *Frame) *Frame {
		n := &Frame{fn: f.fn, env: make(map[valueKey]Val, len(f.env)), call: f.call}
		fmt.Fprintf(&m.b, "<%s>", f.fn.Name())
		ord := valueOrder(f.fn)
		for _, v := range f.sorted() {
			fmt.Fprintf(&m.b, "%d=", ord[v])
			n.env[v] = m.val(f.env[v])
			m.b.WriteString(";")
		}
		return n
	}
	for _, f := range s.frames {
		frames = append(frames, do(f))
	}
	if s.top != nil {
		top = do(s.top)
	}
	m.b.WriteString("!")
	for _, p := range s.pend {
		m.b.WriteString(p.site)
		n := m.nilv(p.n)
		pends = append(pends, pend{n, p.site})
	}
	for _, n := range s.notes {
		m.b.WriteString("~" + n)
	}
	// changed program globals and roots kept alive by the engine
	for _, id := range s.eng.roots {
		m.obj(id)
	}
	return
}
