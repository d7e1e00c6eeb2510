package bits

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Stream is what was written to a buffer: bytes, and pieces whose length is
// not known.
type Stream struct {
	Items []Value // *Int of 8 bits, or *Slice
	To    Value   // of a bufio.Writer: where Flush writes
}

// stream is what a buffer holds.
func (m *Machine) stream(st *state, v Value) (*Ptr, *Stream, bool) {
	p, ok := v.(*Ptr)
	if !ok || p.Obj == nil {
		return nil, nil, false
	}
	switch x := m.read(st, m.content(st, p.Obj), p.Path, nil).(type) {
	case *Stream:
		return p, x, true
	case *Struct: // the zero buffer
		for _, f := range x.F {
			if s, ok := f.(*Slice); ok && m.keys(s.Len) != "0" {
				return nil, nil, false
			}
			if n, ok := f.(*Int); ok && m.keys(n) != "0" {
				return nil, nil, false
			}
		}
		return p, &Stream{}, true
	}
	return nil, nil, false
}

// pieces are the items of a slice that is written.
func (m *Machine) pieces(st *state, v Value) ([]Value, bool) {
	s, ok := v.(*Slice)
	if !ok {
		return nil, false
	}
	n, ok := m.under(st, s.Len).Const()
	if !ok {
		if s.Obj != nil && len(s.Path) == 0 && m.keys(s.Off) == "0" {
			if t, ok := m.content(st, s.Obj).(*Text); ok && m.keys(s.Len) == m.keys(m.size(t.Items)) {
				return t.Items, true
			}
		}
		return []Value{s}, true
	}
	var r []Value
	for i := int64(0); i < n; i++ {
		x, ok := m.at(st, s, i).(*Int)
		if !ok || len(x.Bits) != 8 {
			return nil, false
		}
		r = append(r, x)
	}
	return r, true
}

// size is the length of items.
func (m *Machine) size(items []Value) *Int {
	n := m.i64(0)
	k := int64(0)
	for _, x := range items {
		if s, ok := x.(*Slice); ok {
			n = m.add(n, m.asIndex(s.Len), 0)
		} else {
			k++
		}
	}
	return m.add(n, m.i64(k), 0)
}

// joined is a slice of items.
func (m *Machine) joined(items []Value, str bool) *Slice {
	if len(items) == 1 {
		if s, ok := items[0].(*Slice); ok {
			c := *s
			c.Str = str
			return &c
		}
	}
	for _, x := range items {
		if _, ok := x.(*Slice); ok {
			o := &Obj{ID: m.nextObj(), Key: fmt.Sprintf("text%d", m.tick())}
			m.initial[o] = &Text{items}
			return &Slice{Obj: o, Off: m.i64(0), Len: m.size(items), Str: str}
		}
	}
	s := m.Bytes(items)
	s.Str = str
	return s
}

// Text is the content of a string of several pieces.
type Text struct{ Items []Value }

// emit writes items to an io.Writer.
func (m *Machine) emit(st *state, w Value, items []Value) bool {
	v := w
	if i, ok := w.(*Iface); ok {
		v = i.V
	}
	p, s, ok := m.stream(st, v)
	if !ok {
		m.note("a write that is not followed")
		return false
	}
	n := &Stream{append(append([]Value(nil), s.Items...), items...), s.To}
	st.put(p.Obj, m.write(st, m.content(st, p.Obj), p.Path, n))
	return true
}

// NewStream is a new buffer; Sink one as a writer.
func (m *Machine) NewStream() *Ptr { return m.New(&Stream{}) }

// Written is what a buffer holds when o ends.
func (m *Machine) Written(o Outcome, p *Ptr) ([]Value, bool) {
	_, s, ok := m.stream(o.St, p)
	if !ok {
		return nil, false
	}
	return s.Items, true
}

// Emit writes to a writer in the state of a call.
func (m *Machine) Emit(s *Site, w Value, items []Value) bool { return m.emit(s.St, w, items) }

// UseText models buffers, writers and functions on strings.
func (m *Machine) UseText() {
	m.texts = true
	add := func(f func(m *Machine, c *Site, args []Value) []Ret, names ...string) {
		for _, n := range names {
			m.Models[n] = f
		}
	}
	noErr := &Iface{Nil: 1}
	wrote := func(n *Int) []Ret { return []Ret{{V: Tuple{n, noErr}}} }
	types3 := func(name string) []string {
		return []string{"(*bytes.Buffer)." + name, "(*strings.Builder)." + name, "(*bufio.Writer)." + name}
	}
	write := func(m *Machine, c *Site, args []Value) []Ret {
		items, ok := m.pieces(c.St, args[1])
		if !ok || !m.emit(c.St, args[0], items) {
			return nil
		}
		return wrote(m.size(items))
	}
	add(write, types3("Write")...)
	add(write, types3("WriteString")...)
	add(write, "io.WriteString")
	add(func(m *Machine, c *Site, args []Value) []Ret {
		x, ok := args[1].(*Int)
		if !ok || !m.emit(c.St, args[0], []Value{m.convert(m.under(c.St, x), 8, false)}) {
			return nil
		}
		return []Ret{{V: noErr}}
	}, types3("WriteByte")...)
	add(func(m *Machine, c *Site, args []Value) []Ret {
		x, ok := args[1].(*Int)
		if !ok {
			return nil
		}
		r, ok := m.under(c.St, x).Const()
		if !ok {
			return nil
		}
		var items []Value
		for _, b := range []byte(string(rune(r))) {
			items = append(items, m.Const(uint64(b), 8, false))
		}
		if !m.emit(c.St, args[0], items) {
			return nil
		}
		return wrote(m.i64(int64(len(items))))
	}, types3("WriteRune")...)
	add(func(m *Machine, c *Site, args []Value) []Ret { return []Ret{{}} }, append(types3("Grow"), "log.Printf", "log.Println", "log.Print")...)
	add(func(m *Machine, c *Site, args []Value) []Ret {
		_, s, ok := m.stream(c.St, args[0])
		if !ok {
			return nil
		}
		return []Ret{{V: m.size(s.Items)}}
	}, "(*bytes.Buffer).Len", "(*strings.Builder).Len")
	content := func(str bool) func(m *Machine, c *Site, args []Value) []Ret {
		return func(m *Machine, c *Site, args []Value) []Ret {
			_, s, ok := m.stream(c.St, args[0])
			if !ok {
				return nil
			}
			return []Ret{{V: m.joined(s.Items, str)}}
		}
	}
	add(content(false), "(*bytes.Buffer).Bytes")
	add(content(true), "(*bytes.Buffer).String", "(*strings.Builder).String")
	set := func(m *Machine, st *state, p *Ptr, s *Stream) {
		st.put(p.Obj, m.write(st, m.content(st, p.Obj), p.Path, s))
	}
	add(func(m *Machine, c *Site, args []Value) []Ret {
		p, _, ok := m.stream(c.St, args[0])
		if !ok {
			return nil
		}
		set(m, c.St, p, &Stream{})
		return []Ret{{}}
	}, "(*bytes.Buffer).Reset", "(*strings.Builder).Reset")
	drain := func(m *Machine, c *Site, from, to Value) []Ret {
		if i, ok := from.(*Iface); ok {
			from = i.V
		}
		p, s, ok := m.stream(c.St, from)
		if !ok || !m.emit(c.St, to, s.Items) {
			return nil
		}
		set(m, c.St, p, &Stream{})
		return wrote(m.size(s.Items))
	}
	add(func(m *Machine, c *Site, args []Value) []Ret { return drain(m, c, args[0], args[1]) }, "(*bytes.Buffer).WriteTo")
	add(func(m *Machine, c *Site, args []Value) []Ret { return drain(m, c, args[1], args[0]) }, "io.Copy", "(*bytes.Buffer).ReadFrom")
	add(func(m *Machine, c *Site, args []Value) []Ret {
		items, ok := m.pieces(c.St, args[0])
		if !ok {
			return nil
		}
		return []Ret{{V: m.New(&Stream{Items: items})}}
	}, "bytes.NewBuffer", "bytes.NewBufferString")
	add(func(m *Machine, c *Site, args []Value) []Ret {
		return []Ret{{V: m.New(&Stream{To: args[0]})}}
	}, "bufio.NewWriter", "bufio.NewWriterSize")
	add(func(m *Machine, c *Site, args []Value) []Ret {
		p, s, ok := m.stream(c.St, args[0])
		if !ok || !m.emit(c.St, s.To, s.Items) {
			return nil
		}
		set(m, c.St, p, &Stream{To: s.To})
		return []Ret{{V: noErr}}
	}, "(*bufio.Writer).Flush")
	add(func(m *Machine, c *Site, args []Value) []Ret {
		little := strings.Contains(m.Key(args[1]), "ittle")
		i, ok := args[2].(*Iface)
		if !ok {
			return nil
		}
		items, ok := m.encode(c.St, i.V, little)
		if !ok || !m.emit(c.St, args[0], items) {
			return nil
		}
		return []Ret{{V: noErr}}
	}, "encoding/binary.Write")
	m.useStrings(add)
	m.useLines(add)
}

// encode is the binary form of a value.
func (m *Machine) encode(st *state, v Value, little bool) ([]Value, bool) {
	var r []Value
	switch x := v.(type) {
	case *Int:
		x = m.under(st, x)
		for i := 0; i < len(x.Bits); i += 8 {
			k := i
			if !little {
				k = len(x.Bits) - 8 - i
			}
			r = append(r, m.norm(&Int{Bits: append([]Bit(nil), x.Bits[k:k+8]...)}))
		}
		return r, true
	case *Slice:
		n, ok := x.Len.Const()
		if !ok {
			return nil, false
		}
		for i := int64(0); i < n; i++ {
			p := m.sliceElem(x, m.i64(i))
			e, ok := m.encode(st, m.read(st, m.content(st, p.Obj), p.Path, types.Typ[types.Uint8]), little)
			if !ok {
				return nil, false
			}
			r = append(r, e...)
		}
		return r, true
	case *Struct:
		for _, f := range x.F {
			e, ok := m.encode(st, f, little)
			if !ok {
				return nil, false
			}
			r = append(r, e...)
		}
		return r, true
	}
	return nil, false
}

// elems lists a slice of known length.
func (m *Machine) elems(st *state, v Value) ([]Value, bool) {
	s, ok := v.(*Slice)
	if !ok {
		return nil, false
	}
	n, ok := m.under(st, s.Len).Const()
	if !ok {
		return nil, false
	}
	var r []Value
	for i := int64(0); i < n; i++ {
		p := m.sliceElem(s, m.i64(i))
		r = append(r, m.read(st, m.content(st, p.Obj), p.Path, types.Typ[types.Uint8]))
	}
	return r, true
}

func (m *Machine) useStrings(add func(f func(m *Machine, c *Site, args []Value) []Ret, names ...string)) {
	add(func(m *Machine, c *Site, args []Value) []Ret {
		l, ok := m.elems(c.St, args[0])
		sep, ok2 := m.pieces(c.St, args[1])
		if !ok || !ok2 {
			return nil
		}
		var items []Value
		for i, v := range l {
			if i > 0 {
				items = append(items, sep...)
			}
			p, ok := m.pieces(c.St, v)
			if !ok {
				return nil
			}
			items = append(items, p...)
		}
		return []Ret{{V: m.joined(items, true)}}
	}, "strings.Join")
	add(func(m *Machine, c *Site, args []Value) []Ret {
		n := int64(-1)
		if len(args) > 3 {
			x, ok := args[3].(*Int)
			if !ok {
				return nil
			}
			if n, ok = m.under(c.St, x).Const(); !ok {
				return nil
			}
		}
		from, ok1 := m.Text(args[1])
		to, ok2 := m.Text(args[2])
		if !ok1 || !ok2 {
			return nil
		}
		return m.replaced(c, args[0], [][2]string{{from, to}}, n)
	}, "strings.Replace", "strings.ReplaceAll")
	add(func(m *Machine, c *Site, args []Value) []Ret {
		l, ok := m.elems(c.St, args[0])
		if !ok || len(l)%2 != 0 {
			return nil
		}
		var ps [][2]string
		for i := 0; i < len(l); i += 2 {
			a, ok1 := m.Text(l[i])
			b, ok2 := m.Text(l[i+1])
			if !ok1 || !ok2 {
				return nil
			}
			ps = append(ps, [2]string{a, b})
		}
		return []Ret{{V: m.New(&replacer{ps})}}
	}, "strings.NewReplacer")
	add(func(m *Machine, c *Site, args []Value) []Ret {
		p, ok := args[0].(*Ptr)
		if !ok || p.Obj == nil {
			return nil
		}
		r, ok := m.content(c.St, p.Obj).(*replacer)
		if !ok {
			return nil
		}
		return m.replaced(c, args[1], r.ps, -1)
	}, "(*strings.Replacer).Replace")
}

type replacer struct{ ps [][2]string }

// replaced replaces what ps says in a text of known length, n times (-1: all).
func (m *Machine) replaced(c *Site, v Value, ps [][2]string, n int64) []Ret {
	items, ok := m.pieces(c.St, v)
	if !ok {
		return nil
	}
	var l []*Int
	for _, x := range items {
		b, ok := x.(*Int)
		if !ok {
			return nil
		}
		l = append(l, b)
	}
	single := n < 0
	for _, p := range ps {
		if len(p[0]) == 0 {
			return nil
		}
		single = single && len(p[0]) == 1 && len(p[1]) == 1
	}
	is := func(b *Int, x byte) Bit { return c.St.bit(m.equal(b, m.Const(uint64(x), 8, false))) }
	var out []Value
	if single {
		for _, b := range l {
			r := b
			for i := len(ps) - 1; i >= 0; i-- {
				r = m.Ite(is(b, ps[i][0][0]), m.Const(uint64(ps[i][1][0]), 8, false), r)
			}
			out = append(out, r)
		}
		return []Ret{{V: m.joined(out, true)}}
	}
	// where a pattern is has to be known
	for i := 0; i < len(l); {
		found := false
		for _, p := range ps {
			if n == 0 || i+len(p[0]) > len(l) {
				continue
			}
			e := Bit(1)
			for k := 0; k < len(p[0]) && e != 0; k++ {
				switch is(l[i+k], p[0][k]) {
				case 0:
					e = 0
				case 1:
				default:
					e = -1
				}
			}
			if e == -1 {
				return nil
			}
			if e == 1 {
				for k := 0; k < len(p[1]); k++ {
					out = append(out, m.Const(uint64(p[1][k]), 8, false))
				}
				i += len(p[0])
				n--
				found = true
				break
			}
		}
		if !found {
			out = append(out, l[i])
			i++
		}
	}
	return []Ret{{V: m.joined(out, true)}}
}

// Globals evaluates the initialisation of a package: what it sets are the
// values its variables have from then on, for those that no other function
// of the program writes.
func (m *Machine) Globals(pkg *ssa.Package) {
	f := pkg.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	hints, quiet := m.Hints, m.Quiet
	m.Hints, m.Quiet = nil, true
	call := m.Call
	m.Call = func(mm *Machine, g *ssa.Function, c *Site, args []Value) []Ret {
		if g.Name() == "init" || strings.HasPrefix(g.Name(), "init#") {
			return []Ret{{}}
		}
		return nil
	}
	guard := &Obj{ID: m.nextObj()}
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok && g.Name() == "init$guard" {
			guard = m.global(g)
			m.initial[guard] = &Bool{0}
		}
	}
	outs := m.Run(f, nil)
	m.Hints, m.Quiet, m.Call = hints, quiet, call
	if len(outs) != 1 {
		return
	}
	outs[0].St.mem.each(func(_ uint32, h held) {
		if !h.o.Input {
			m.initial[h.o] = h.v
		}
	})
	for _, mem := range pkg.Members {
		g, ok := mem.(*ssa.Global)
		if !ok || !onlyRead(g) {
			continue
		}
		o := m.global(g)
		if v, ok := outs[0].St.heap(o); ok {
			m.initial[o] = v
		}
	}
}

// onlyRead: no function but the initialisation writes to g or to what it
// points to.
func onlyRead(g *ssa.Global) bool {
	ok := true
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, is := in.(*ssa.UnOp); is && u.Op == token.MUL && u.X == g {
					for _, r := range *u.Referrers() {
						switch x := r.(type) {
						case *ssa.MapUpdate:
							ok = ok && x.Map != u
						case *ssa.Store:
							// a copy of it; that copies are not written is
							// taken on trust
							ok = ok && x.Addr != u
						case *ssa.IndexAddr:
							for _, q := range *x.Referrers() {
								if _, st := q.(*ssa.Store); st {
									ok = false
								}
							}
						}
					}
					continue
				}
				if st, is := in.(*ssa.Store); is && st.Addr == g && f.Name() == "init" && f.Pkg == g.Pkg {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == g {
						ok = false
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	for _, f := range funcsOf(g.Pkg.Prog, g.Pkg) {
		scan(f)
	}
	if token.IsExported(g.Name()) {
		for _, p := range g.Pkg.Prog.AllPackages() {
			if p != g.Pkg && imports(p.Pkg, g.Pkg.Pkg) {
				for _, f := range funcsOf(g.Pkg.Prog, p) {
					scan(f)
				}
			}
		}
	}
	return ok
}

func imports(p, q *types.Package) bool {
	for _, i := range p.Imports() {
		if i == q {
			return true
		}
	}
	return false
}

// funcsOf lists the functions and methods of a package.
func funcsOf(prog *ssa.Program, p *ssa.Package) []*ssa.Function {
	var r []*ssa.Function
	for _, mem := range p.Members {
		switch x := mem.(type) {
		case *ssa.Function:
			r = append(r, x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := prog.MethodValue(ms.At(i)); f != nil && f.Pkg == p {
						r = append(r, f)
					}
				}
			}
		}
	}
	return r
}
