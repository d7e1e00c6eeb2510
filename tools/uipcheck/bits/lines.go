package bits

import (
	"go/types"
	"strings"
)

// Functions on texts of known length, by comparing their bytes; and reading
// lines.

// is tells whether the items at i are the text sep: 0, 1, or 2 if that is not
// known.
func (m *Machine) is(st *state, items []Value, i int, sep []Value) int {
	if i+len(sep) > len(items) {
		return 0
	}
	r := 1
	for k, s := range sep {
		x, ok1 := items[i+k].(*Int)
		y, ok2 := s.(*Int)
		if !ok1 || !ok2 {
			r = 2
			continue
		}
		switch st.bit(m.equal(m.under(st, x), m.under(st, y))) {
		case 0:
			return 0
		case 1:
		default:
			r = 2
		}
	}
	return r
}

// find is where sep is in items: -1 if nowhere, -2 if that is not known.
func (m *Machine) find(st *state, items, sep []Value) int {
	for i := 0; i+len(sep) <= len(items); i++ {
		switch m.is(st, items, i, sep) {
		case 1:
			return i
		case 2:
			return -2
		}
	}
	return -1
}

// known reports that all items are bytes.
func bytesOnly(items []Value) bool {
	for _, x := range items {
		if _, ok := x.(*Int); !ok {
			return false
		}
	}
	return true
}

// splitItems splits items at sep, n as in strings.SplitN.
func (m *Machine) splitItems(st *state, items, sep []Value, n int64) ([][]Value, bool) {
	if len(sep) == 0 || !bytesOnly(items) || n == 0 {
		return nil, false
	}
	var r [][]Value
	for n < 0 || int64(len(r)) < n-1 {
		i := m.find(st, items, sep)
		if i == -2 {
			return nil, false
		}
		if i < 0 {
			break
		}
		r = append(r, items[:i])
		items = items[i+len(sep):]
	}
	return append(r, items), true
}

// anyOf tells whether x is one of the bytes of set.
func (m *Machine) anyOf(st *state, x Value, set string) int {
	r := 0
	for i := 0; i < len(set); i++ {
		switch m.is(st, []Value{x}, 0, []Value{m.Const(uint64(set[i]), 8, false)}) {
		case 1:
			return 1
		case 2:
			r = 2
		}
	}
	return r
}

const spaces = " \t\n\v\f\r\x85\xa0"

func (m *Machine) useLines(add func(f func(m *Machine, c *Site, args []Value) []Ret, names ...string)) {
	both := func(n string) []string { return []string{"strings." + n, "bytes." + n} }
	isStr := func(v Value) bool { s, ok := v.(*Slice); return ok && s.Str }
	split := func(keep bool) func(m *Machine, c *Site, args []Value) []Ret {
		return func(m *Machine, c *Site, args []Value) []Ret {
			items, ok1 := m.pieces(c.St, args[0])
			sep, ok2 := m.pieces(c.St, args[1])
			n := int64(-1)
			if len(args) > 2 {
				x, ok := args[2].(*Int)
				if !ok {
					return nil
				}
				if n, ok = m.under(c.St, x).Const(); !ok {
					return nil
				}
			}
			if !ok1 || !ok2 {
				return nil
			}
			ps, ok := m.splitItems(c.St, items, sep, n)
			if !ok {
				return nil
			}
			for i := range ps {
				if keep && i < len(ps)-1 {
					ps[i] = append(append([]Value(nil), ps[i]...), sep...)
				}
			}
			return []Ret{{V: m.texts2(ps, isStr(args[0]))}}
		}
	}
	add(split(false), append(both("Split"), both("SplitN")...)...)
	add(split(true), append(both("SplitAfter"), both("SplitAfterN")...)...)
	add(func(m *Machine, c *Site, args []Value) []Ret {
		items, ok := m.pieces(c.St, args[0])
		if !ok || !bytesOnly(items) {
			return nil
		}
		var ps [][]Value
		var cur []Value
		for _, x := range items {
			switch m.anyOf(c.St, x, spaces[:6]) {
			case 0:
				cur = append(cur, x)
			case 1:
				if len(cur) > 0 {
					ps = append(ps, cur)
				}
				cur = nil
			default:
				return nil
			}
		}
		if len(cur) > 0 {
			ps = append(ps, cur)
		}
		return []Ret{{V: m.texts2(ps, isStr(args[0]))}}
	}, both("Fields")...)
	add(func(m *Machine, c *Site, args []Value) []Ret {
		items, ok1 := m.pieces(c.St, args[0])
		sep, ok2 := m.pieces(c.St, args[1])
		if !ok1 || !ok2 || !bytesOnly(items) {
			return nil
		}
		i := m.find(c.St, items, sep)
		if i == -2 {
			return nil
		}
		if i < 0 {
			return []Ret{{V: Tuple{args[0], m.joined(nil, isStr(args[0])), &Bool{0}}}}
		}
		return []Ret{{V: Tuple{m.joined(items[:i], isStr(args[0])), m.joined(items[i+len(sep):], isStr(args[0])), &Bool{1}}}}
	}, both("Cut")...)
	where := func(last bool, f func(i int) Value) func(m *Machine, c *Site, args []Value) []Ret {
		return func(m *Machine, c *Site, args []Value) []Ret {
			items, ok1 := m.pieces(c.St, args[0])
			if !ok1 || !bytesOnly(items) {
				return nil
			}
			var sep []Value
			if x, ok := args[1].(*Int); ok {
				if len(x.Bits) > 8 {
					r, ok := m.under(c.St, x).Const()
					if !ok || r > 127 || r < 0 {
						return nil
					}
					x = m.Const(uint64(r), 8, false)
				}
				sep = []Value{x}
			} else if sep, ok = m.pieces(c.St, args[1]); !ok || !bytesOnly(sep) {
				return nil
			}
			if last {
				for i := len(items) - len(sep); i >= 0; i-- {
					switch m.is(c.St, items, i, sep) {
					case 1:
						return []Ret{{V: f(i)}}
					case 2:
						return nil
					}
				}
				return []Ret{{V: f(-1)}}
			}
			i := m.find(c.St, items, sep)
			if i == -2 {
				return nil
			}
			return []Ret{{V: f(i)}}
		}
	}
	num := func(i int) Value { return m.i64(int64(i)) }
	has := func(i int) Value { return &Bool{b2(i >= 0)} }
	add(where(false, num), append(both("Index"), both("IndexByte")...)...)
	add(where(true, num), append(both("LastIndex"), both("LastIndexByte")...)...)
	add(where(false, num), both("IndexRune")...)
	add(where(false, has), append(both("Contains"), both("ContainsRune")...)...)
	add(func(m *Machine, c *Site, args []Value) []Ret {
		items, ok := m.pieces(c.St, args[0])
		sep, ok2 := m.pieces(c.St, args[1])
		if !ok || !ok2 || !bytesOnly(items) || !bytesOnly(sep) {
			return nil
		}
		n := 0
		for len(sep) > 0 {
			i := m.find(c.St, items, sep)
			if i == -2 {
				return nil
			}
			if i < 0 {
				break
			}
			n++
			items = items[i+len(sep):]
		}
		if len(sep) == 0 {
			return nil
		}
		return []Ret{{V: m.i64(int64(n))}}
	}, both("Count")...)
	oneOf := func(f func(i int) Value) func(m *Machine, c *Site, args []Value) []Ret {
		return func(m *Machine, c *Site, args []Value) []Ret {
			items, ok := m.pieces(c.St, args[0])
			set, ok2 := m.Text(args[1])
			if !ok || !ok2 || !bytesOnly(items) {
				return nil
			}
			for i, x := range items {
				switch m.anyOf(c.St, x, set) {
				case 1:
					return []Ret{{V: f(i)}}
				case 2:
					return nil
				}
			}
			return []Ret{{V: f(-1)}}
		}
	}
	add(oneOf(num), both("IndexAny")...)
	add(oneOf(has), both("ContainsAny")...)
	affix := func(tail, cut bool) func(m *Machine, c *Site, args []Value) []Ret {
		return func(m *Machine, c *Site, args []Value) []Ret {
			items, ok := m.pieces(c.St, args[0])
			sep, ok2 := m.pieces(c.St, args[1])
			if !ok || !ok2 || !bytesOnly(items) || !bytesOnly(sep) {
				return nil
			}
			i := 0
			if tail {
				i = len(items) - len(sep)
			}
			r := 0
			if i >= 0 {
				r = m.is(c.St, items, i, sep)
			}
			if r == 2 {
				return nil
			}
			if !cut {
				return []Ret{{V: &Bool{b2(r == 1)}}}
			}
			if r == 1 {
				if tail {
					items = items[:i]
				} else {
					items = items[len(sep):]
				}
			}
			return []Ret{{V: m.joined(items, isStr(args[0]))}}
		}
	}
	add(affix(false, false), both("HasPrefix")...)
	add(affix(true, false), both("HasSuffix")...)
	add(affix(false, true), both("TrimPrefix")...)
	add(affix(true, true), both("TrimSuffix")...)
	trim := func(left, right bool, set string) func(m *Machine, c *Site, args []Value) []Ret {
		return func(m *Machine, c *Site, args []Value) []Ret {
			items, ok := m.pieces(c.St, args[0])
			if !ok || !bytesOnly(items) {
				return nil
			}
			s := set
			if len(args) > 1 {
				if s, ok = m.Text(args[1]); !ok {
					return nil
				}
			}
			for left && len(items) > 0 {
				r := m.anyOf(c.St, items[0], s)
				if r == 2 {
					return nil
				}
				if r == 0 {
					break
				}
				items = items[1:]
			}
			for right && len(items) > 0 {
				r := m.anyOf(c.St, items[len(items)-1], s)
				if r == 2 {
					return nil
				}
				if r == 0 {
					break
				}
				items = items[:len(items)-1]
			}
			return []Ret{{V: m.joined(items, isStr(args[0]))}}
		}
	}
	add(trim(true, true, ""), both("Trim")...)
	add(trim(true, false, ""), both("TrimLeft")...)
	add(trim(false, true, ""), both("TrimRight")...)
	add(trim(true, true, spaces[:6]), both("TrimSpace")...)
	add(func(m *Machine, c *Site, args []Value) []Ret {
		a, ok1 := m.pieces(c.St, args[0])
		b, ok2 := m.pieces(c.St, args[1])
		if !ok1 || !ok2 || !bytesOnly(a) || !bytesOnly(b) {
			return nil
		}
		if len(a) != len(b) {
			return []Ret{{V: &Bool{0}}}
		}
		if r := m.is(c.St, a, 0, b); r != 2 {
			return []Ret{{V: &Bool{b2(r == 1)}}}
		}
		return nil
	}, "bytes.Equal")

	// reading
	newReader := func(m *Machine, c *Site, args []Value) []Ret {
		items, ok := m.pieces(c.St, args[0])
		if !ok {
			return nil
		}
		return []Ret{{V: m.New(&Stream{Items: items})}}
	}
	add(newReader, "bytes.NewReader", "strings.NewReader")
	rest := func(m *Machine, st *state, v Value) (*Ptr, *Stream, bool) {
		if i, ok := v.(*Iface); ok {
			v = i.V
		}
		return m.stream(st, v)
	}
	wrap := func(m *Machine, c *Site, args []Value) []Ret {
		p, s, ok := rest(m, c.St, args[0])
		if !ok || !bytesOnly(s.Items) {
			return nil
		}
		// it takes what there is
		c.St.put(p.Obj, m.write(c.St, m.content(c.St, p.Obj), p.Path, &Stream{}))
		buf := &Obj{ID: m.nextObj(), Key: "line"}
		m.initial[buf] = m.ByteArray(nil)
		return []Ret{{V: m.New(&reader{items: s.Items, buf: buf})}}
	}
	add(wrap, "bufio.NewScanner", "bufio.NewReader", "bufio.NewReaderSize")
	get := func(m *Machine, c *Site, v Value) (*Ptr, *reader) {
		p, ok := v.(*Ptr)
		if !ok || p.Obj == nil {
			return nil, nil
		}
		r, _ := m.content(c.St, p.Obj).(*reader)
		return p, r
	}
	// the next line, with its end; what is left
	next := func(m *Machine, c *Site, items []Value, end []Value) (line, left []Value, found, ok bool) {
		i := m.find(c.St, items, end)
		switch {
		case i == -2:
			return nil, nil, false, false
		case i < 0:
			return items, nil, false, true
		}
		return items[:i+len(end)], items[i+len(end):], true, true
	}
	nl := []Value{m.Const('\n', 8, false)}
	cr := []Value{m.Const('\r', 8, false)}
	// in the buffer, which the next line overwrites
	show := func(m *Machine, c *Site, r *reader, line []Value) Value {
		b := m.ByteArray(line)
		c.St.put(r.buf, b)
		return &Slice{Obj: r.buf, Off: m.i64(0), Len: m.i64(int64(len(line)))}
	}
	add(func(m *Machine, c *Site, args []Value) []Ret {
		p, r := get(m, c, args[0])
		if r == nil {
			return nil
		}
		if len(r.items) == 0 {
			c.St.put(p.Obj, &reader{buf: r.buf, line: nil})
			return []Ret{{V: &Bool{0}}}
		}
		line, left, found, ok := next(m, c, r.items, nl)
		if !ok {
			return nil
		}
		if found {
			line = line[:len(line)-1]
		}
		if n := len(line); n > 0 {
			switch m.is(c.St, line, n-1, cr) {
			case 1:
				line = line[:n-1]
			case 2:
				return nil
			}
		}
		show(m, c, r, line)
		c.St.put(p.Obj, &reader{items: left, line: line, buf: r.buf})
		return []Ret{{V: &Bool{1}}}
	}, "(*bufio.Scanner).Scan")
	add(func(m *Machine, c *Site, args []Value) []Ret {
		_, r := get(m, c, args[0])
		if r == nil {
			return nil
		}
		return []Ret{{V: m.joined(r.line, true)}}
	}, "(*bufio.Scanner).Text")
	add(func(m *Machine, c *Site, args []Value) []Ret {
		_, r := get(m, c, args[0])
		if r == nil {
			return nil
		}
		return []Ret{{V: &Slice{Obj: r.buf, Off: m.i64(0), Len: m.i64(int64(len(r.line)))}}}
	}, "(*bufio.Scanner).Bytes")
	add(func(m *Machine, c *Site, args []Value) []Ret { return []Ret{{V: &Iface{Nil: 1}}} }, "(*bufio.Scanner).Err")
	add(func(m *Machine, c *Site, args []Value) []Ret { return []Ret{{}} }, "(*bufio.Scanner).Buffer")
	line := func(str bool) func(m *Machine, c *Site, args []Value) []Ret {
		return func(m *Machine, c *Site, args []Value) []Ret {
			p, r := get(m, c, args[0])
			if r == nil {
				return nil
			}
			x, ok := args[1].(*Int)
			if !ok {
				return nil
			}
			l, left, found, ok := next(m, c, r.items, []Value{x})
			if !ok {
				return nil
			}
			var v Value
			if str {
				v = m.joined(l, true)
			} else {
				v = m.joined(l, false)
			}
			c.St.put(p.Obj, &reader{items: left, line: l, buf: r.buf})
			var err Value = &Iface{Nil: 1}
			if !found {
				err = m.eof()
			}
			return []Ret{{V: Tuple{v, err}}}
		}
	}
	add(line(true), "(*bufio.Reader).ReadString")
	add(line(false), "(*bufio.Reader).ReadBytes")
	add(func(m *Machine, c *Site, args []Value) []Ret {
		p, r := get(m, c, args[0])
		if r == nil {
			return nil
		}
		if len(r.items) == 0 {
			return []Ret{{V: Tuple{m.NilSlice(), &Bool{0}, m.eof()}}}
		}
		l, left, found, ok := next(m, c, r.items, nl)
		if !ok {
			return nil
		}
		if found {
			l = l[:len(l)-1]
			if n := len(l); n > 0 {
				switch m.is(c.St, l, n-1, cr) {
				case 1:
					l = l[:n-1]
				case 2:
					return nil
				}
			}
		}
		v := show(m, c, r, l)
		c.St.put(p.Obj, &reader{items: left, line: l, buf: r.buf})
		return []Ret{{V: Tuple{v, &Bool{0}, &Iface{Nil: 1}}}}
	}, "(*bufio.Reader).ReadLine")
	add(func(m *Machine, c *Site, args []Value) []Ret {
		p, s, ok := rest(m, c.St, args[0])
		if !ok {
			return nil
		}
		c.St.put(p.Obj, m.write(c.St, m.content(c.St, p.Obj), p.Path, &Stream{}))
		return []Ret{{V: Tuple{m.joined(s.Items, false), &Iface{Nil: 1}}}}
	}, "io.ReadAll", "io/ioutil.ReadAll")
	add(m.printf(0, true), "fmt.Sprintf")
	add(m.printf(1, true), "fmt.Fprintf")
	add(m.printf(0, false), "fmt.Sprint")
	add(m.printf(1, false), "fmt.Fprint")
	add(m.println(0), "fmt.Sprintln")
	add(m.println(1), "fmt.Fprintln")
}

// eof is the error io.EOF.
func (m *Machine) eof() Value {
	if p := m.Prog.ImportedPackage("io"); p != nil {
		if g := p.Var("EOF"); g != nil {
			return m.content(newState(), m.global(g))
		}
	}
	return &Iface{Key: "EOF"}
}

// reader is a bufio.Scanner or bufio.Reader.
type reader struct {
	items, line []Value
	buf         *Obj
}

// texts2 is a list of texts.
func (m *Machine) texts2(ps [][]Value, str bool) Value {
	t := types.Type(types.Typ[types.String])
	if !str {
		t = types.NewSlice(types.Typ[types.Uint8])
	}
	var vs []Value
	for _, p := range ps {
		vs = append(vs, m.joined(p, str))
	}
	return m.List(t, vs...)
}

// format is the text of a value under a verb.
func (m *Machine) format(c *Site, verb byte, v Value) ([]Value, bool) {
	i, ok := v.(*Iface)
	if !ok {
		return nil, false
	}
	if m.Verb != nil {
		if r, ok := m.Verb(m, c, verb, i); ok {
			return r, true
		}
	}
	if s, ok := i.V.(*Slice); ok && (verb == 's' || verb == 'v' && s.Str) && i.T != nil {
		if ms := m.Prog.MethodSets.MethodSet(i.T); ms.Lookup(nil, "String") == nil && ms.Lookup(nil, "Error") == nil {
			return m.pieces(c.St, s)
		}
	}
	if x, ok := i.V.(*Int); ok && verb == 'c' {
		if r, ok := m.under(c.St, x).Const(); ok && r >= 0 {
			var l []Value
			for _, b := range []byte(string(rune(r))) {
				l = append(l, m.Const(uint64(b), 8, false))
			}
			return l, true
		}
	}
	return nil, false
}

func (m *Machine) printf(skip int, format bool) func(m *Machine, c *Site, args []Value) []Ret {
	return func(m *Machine, c *Site, args []Value) []Ret {
		rest := args[skip:]
		var out []Value
		if format {
			f, ok := m.Text(rest[0])
			l, ok2 := m.elems(c.St, rest[1])
			if !ok || !ok2 {
				return nil
			}
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					out = append(out, m.Const(uint64(f[i]), 8, false))
					continue
				}
				i++
				if i == len(f) {
					return nil
				}
				if f[i] == '%' {
					out = append(out, m.Const('%', 8, false))
					continue
				}
				if !strings.ContainsRune("svdc", rune(f[i])) || len(l) == 0 {
					return nil
				}
				p, ok := m.format(c, f[i], l[0])
				if !ok {
					return nil
				}
				out, l = append(out, p...), l[1:]
			}
			if len(l) > 0 {
				return nil
			}
		} else {
			l, ok := m.elems(c.St, rest[0])
			if !ok {
				return nil
			}
			for k, v := range l {
				p, ok := m.format(c, 'v', v)
				if !ok {
					return nil
				}
				if k > 0 && !m.text(l[k-1]) && !m.text(v) {
					out = append(out, m.Const(' ', 8, false))
				}
				out = append(out, p...)
			}
		}
		return m.printed(c, args, skip, out)
	}
}

// text: a value that is a string.
func (m *Machine) text(v Value) bool {
	i, ok := v.(*Iface)
	if !ok {
		return false
	}
	s, ok := i.V.(*Slice)
	return ok && s.Str
}

func (m *Machine) println(skip int) func(m *Machine, c *Site, args []Value) []Ret {
	return func(m *Machine, c *Site, args []Value) []Ret {
		l, ok := m.elems(c.St, args[skip])
		if !ok {
			return nil
		}
		var out []Value
		for k, v := range l {
			p, ok := m.format(c, 'v', v)
			if !ok {
				return nil
			}
			if k > 0 {
				out = append(out, m.Const(' ', 8, false))
			}
			out = append(out, p...)
		}
		return m.printed(c, args, skip, append(out, m.Const('\n', 8, false)))
	}
}

func (m *Machine) printed(c *Site, args []Value, skip int, out []Value) []Ret {
	if skip == 0 {
		return []Ret{{V: m.joined(out, true)}}
	}
	if !m.emit(c.St, args[0], out) {
		return nil
	}
	return []Ret{{V: Tuple{m.size(out), &Iface{Nil: 1}}}}
}
