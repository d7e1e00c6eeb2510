package bits

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Event is an access to an element of memory that was there at the start, or
// a call that is modelled as one.
type Event struct {
	Kind  string // "load", "store", "append", or the name of a function
	Obj   *Obj
	Path  []Elem
	V     Value
	Args  []Value
	Facts map[int32]Bit
	Fn    *ssa.Function
	Pos   token.Pos
	Seq   int
}

// Machine is one analysis.
type Machine struct {
	*World
	Prog    *ssa.Program
	Inline  func(f *ssa.Function) bool
	Models  map[string]func(m *Machine, c *Site, args []Value) []Ret
	Hints   map[int32]Bit // the cell: facts every state starts from
	Events  []Event
	Notes   []string // what was not followed
	Steps   int
	MaxStep int
	Deep    int // how much more than three calls of one function may nest
	// Select: values that join after a branch on a bit are that bit's
	// choice, and so are loads at an address a Choice bit takes part in.
	Select bool
	Choice map[int32]bool
	// Split: outcomes are kept apart, as many as Traces.
	Split  bool
	Traces int
	// Rounds is how many rounds of a loop are gone through one by one.
	Rounds int64
	Quiet  bool // no events
	// Halt ends the analysis when it is set; OnStop is told of an analysis
	// that ends before it is complete.
	Halt   *atomic.Bool
	OnStop func(f *ssa.Function)
	// Call is asked first about every call of a known function.
	Call func(m *Machine, f *ssa.Function, c *Site, args []Value) []Ret
	// Dyn is asked about calls of functions that are not known.
	Dyn func(m *Machine, c *Site, args []Value) []Ret
	// Verb is asked first for the text a format verb gives a value.
	Verb func(m *Machine, c *Site, verb byte, v *Iface) ([]Value, bool)

	inputs  map[string]*Obj
	initial map[*Obj]Value
	allocs  map[string]*Obj
	loops   map[*ssa.Function]*nest
	objs    int
	ticks   int
	depth   int
	stack   []*ssa.Function
	over    bool
	sel     Bit
	fixed   int
	texts   bool
	// Index gives the round of a loop over 0..n-1 that is to be looked at,
	// as a value of which every round is an instance.
	Index func(n int64) *Int
	exits map[*loop]farTest
}

// farTest is the test of a loop with very many rounds.
type farTest struct {
	x ssa.Value
	n int64
}

// Site is a call being modelled.
type Site struct {
	Call *ssa.CallCommon
	At   ssa.Instruction
	St   *state
	Key  string
	Fn   *ssa.Function
}

// Ret is one way a modelled call may return.
type Ret struct {
	V  Value
	St *state // nil: the state of the call
}

// Outcome is one way a function may end.
type Outcome struct {
	St  *state
	Res []Value
	At  ssa.Instruction
}

func New(p *ssa.Program) *Machine {
	m := &Machine{World: NewWorld(), Prog: p, inputs: map[string]*Obj{}, initial: map[*Obj]Value{},
		allocs: map[string]*Obj{}, loops: map[*ssa.Function]*nest{}, MaxStep: 3000000}
	m.Models = stdModels()
	return m
}

func (m *Machine) note(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, n := range m.Notes {
		if n == s {
			return
		}
	}
	m.Notes = append(m.Notes, s)
}

// Debug prints the branches that are open.
var Debug = os.Getenv("BITS_DEBUG") != ""

type loop struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loop
}

type nest struct {
	rpo   []*ssa.BasicBlock
	inner map[*ssa.BasicBlock]*loop // innermost loop of a block
	heads map[*ssa.BasicBlock]*loop
}

func (m *Machine) nestOf(f *ssa.Function) *nest {
	if n := m.loops[f]; n != nil {
		return n
	}
	n := &nest{inner: map[*ssa.BasicBlock]*loop{}, heads: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		n.rpo = append(n.rpo, post[i])
	}
	for _, b := range n.rpo {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := n.heads[s]
			if l == nil {
				l = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
				n.heads[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for _, l := range n.heads {
		for _, o := range n.heads {
			if o != l && o.body[l.head] && len(o.body) > len(l.body) && (l.parent == nil || len(o.body) < len(l.parent.body)) {
				l.parent = o
			}
		}
		for b := range l.body {
			if c := n.inner[b]; c == nil || len(l.body) < len(c.body) {
				n.inner[b] = l
			}
		}
	}
	m.loops[f] = n
	return n
}

type trace struct {
	st     *state
	env    map[ssa.Value]Value
	defers []*ssa.Defer
}

func (t *trace) clone() *trace {
	n := &trace{t.st.clone(), make(map[ssa.Value]Value, len(t.env)), t.defers}
	for k, v := range t.env {
		n.env[k] = v
	}
	return n
}

type frame struct {
	m       *Machine
	fn      *ssa.Function
	path    string
	nest    *nest
	iter    []string
	outs    []Outcome
	decided map[*loop]bool
	free    []Value
}

type edge struct {
	from, to *ssa.BasicBlock
	tr       *trace
}

// Run analyses a call of fn.
func (m *Machine) Run(fn *ssa.Function, args []Value) []Outcome {
	st := newState()
	for k, v := range m.Hints {
		st.facts.set(uint32(k), v)
	}
	return m.call(fn, args, nil, st, fn.Name())
}

func (m *Machine) call(fn *ssa.Function, args, free []Value, st *state, path string) []Outcome {
	fr := &frame{m: m, fn: fn, path: path, nest: m.nestOf(fn), decided: map[*loop]bool{}, free: free}
	m.stack = append(m.stack, fn)
	tr := &trace{st: st.clone(), env: map[ssa.Value]Value{}}
	for i, p := range fn.Params {
		if i < len(args) {
			tr.env[p] = args[i]
		}
	}
	fr.region(nil, map[*ssa.BasicBlock][]*trace{fn.Blocks[0]: {tr}})
	m.stack = m.stack[:len(m.stack)-1]
	return fr.group()
}

// group merges the outcomes that agree in what a caller can branch on.
func (fr *frame) group() []Outcome {
	m := fr.m
	if m.Split {
		return fr.outs
	}
	var keys []string
	by := map[string][]Outcome{}
	for _, o := range fr.outs {
		k := ""
		for _, r := range o.Res {
			k += m.kind(o.St, r) + "|"
		}
		if by[k] == nil {
			keys = append(keys, k)
		}
		by[k] = append(by[k], o)
	}
	var out []Outcome
	for _, k := range keys {
		l := by[k]
		o := l[0]
		for i := 1; i < len(l); i++ {
			n := Outcome{At: o.At, St: m.mergeState(o.St, l[i].St, fr.path+"!"+k)}
			if m.Select {
				m.sel = m.selector(o.St, l[i].St)
			}
			for j := range o.Res {
				n.Res = append(n.Res, m.merge(o.Res[j], l[i].Res[j], fmt.Sprintf("%s!%d", fr.path, j)))
			}
			m.sel = 0
			o = n
		}
		out = append(out, o)
	}
	return out
}

// kind is what tells outcomes apart.
func (m *Machine) kind(s *state, v Value) string {
	switch x := v.(type) {
	case *Bool:
		if b := s.bit(x.B); b.konst() {
			return fmt.Sprint(b)
		}
	case *Iface:
		if b := s.bit(x.Nil); b.konst() {
			return fmt.Sprint(b)
		}
	case *Ptr:
		return b2s(x.Obj == nil)
	case *Slice:
		if b := s.bit(x.Nil); b.konst() && !x.Str {
			n := ""
			if c, ok := x.Len.Const(); ok {
				n = fmt.Sprint(c)
			}
			return fmt.Sprint(b, n)
		}
	}
	return "-"
}

func b2s(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func (fr *frame) where() string { return fr.path + "/" + strings.Join(fr.iter, ".") }

func (m *Machine) maxTraces() int {
	if m.Traces > 0 {
		return m.Traces
	}
	return 8
}

func (fr *frame) collapse(b *ssa.BasicBlock, ts []*trace, max int) []*trace {
	if len(ts) <= max {
		return ts
	}
	t := ts[0]
	for _, u := range ts[1:] {
		t = fr.mergeTrace(t, u, fmt.Sprintf("%s:%d", fr.where(), b.Index))
	}
	return []*trace{t}
}

func (fr *frame) mergeTrace(a, b *trace, key string) *trace {
	n := &trace{fr.m.mergeState(a.st, b.st, key), map[ssa.Value]Value{}, a.defers}
	if len(a.defers) != len(b.defers) {
		fr.m.note("calls %s defers on some paths only not followed", fr.fn)
	}
	if fr.m.Select {
		fr.m.sel = fr.m.selector(a.st, b.st)
		defer func() { fr.m.sel = 0 }()
	}
	for v, x := range a.env {
		if y, ok := b.env[v]; ok {
			n.env[v] = fr.m.merge(x, y, key+":"+v.Name())
		}
	}
	return n
}

// region runs the blocks of a loop body (or of the function) once, and
// returns the edges that leave it, those back to its head included.
func (fr *frame) region(l *loop, pending map[*ssa.BasicBlock][]*trace) []edge {
	var out []edge
	route := func(es []edge) {
		for _, e := range es {
			if l != nil && (e.to == l.head || !l.body[e.to]) {
				out = append(out, e)
				continue
			}
			pending[e.to] = append(pending[e.to], e.tr)
		}
	}
	for _, b := range fr.nest.rpo {
		if l != nil && !l.body[b] {
			continue
		}
		in := fr.nest.inner[b]
		switch {
		case in == l:
			ts := pending[b]
			pending[b] = nil
			ts = fr.collapse(b, ts, fr.m.maxTraces())
			for _, t := range ts {
				route(fr.block(b, t))
			}
		case in != nil && in.head == b && in.parent == l:
			ts := pending[b]
			pending[b] = nil
			ts = fr.collapse(b, ts, fr.m.maxTraces())
			for i, t := range ts {
				fr.iter = append(fr.iter, fmt.Sprintf("b%d_%d", b.Index, i))
				es := fr.loop(in, t)
				fr.iter = fr.iter[:len(fr.iter)-1]
				route(es)
			}
		}
		if fr.m.over {
			return out
		}
	}
	return out
}

func (fr *frame) loop(l *loop, t *trace) []edge {
	var out []edge
	m := fr.m
	undecided := 0
	for it := 0; int64(it) < 1000+m.rounds(); it++ {
		fr.iter = append(fr.iter, fmt.Sprint(it))
		fr.decided[l] = false
		es := fr.region(l, map[*ssa.BasicBlock][]*trace{l.head: {t}})
		dec := fr.decided[l]
		fr.iter = fr.iter[:len(fr.iter)-1]
		if m.Index != nil && it == 0 {
			if r, ok := fr.counted(l, t); ok {
				return r
			}
		}
		var back []*trace
		for _, e := range es {
			if e.to == l.head {
				back = append(back, e.tr)
			} else {
				out = append(out, e)
			}
		}
		if len(back) == 0 || m.over {
			return out
		}
		fr.iter = append(fr.iter, fmt.Sprint(it+1))
		next := fr.collapse(l.head, back, 1)[0]
		fr.iter = fr.iter[:len(fr.iter)-1]
		if !dec {
			undecided++
		}
		if undecided >= 2 {
			return append(fr.fixpoint(l, t, next), nil...)
		}
		t = next
	}
	m.note("loop at block %d of %s does not end", l.head.Index, fr.fn)
	return out
}

// counted runs a loop over 0..n-1 whose rounds do not depend on each other
// for the one round asked for, and leaves it.
func (fr *frame) counted(l *loop, t *trace) ([]edge, bool) {
	m := fr.m
	f, ok := m.exits[l]
	if !ok {
		return nil, false
	}
	var phi *ssa.Phi
	for _, ins := range l.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if phi != nil {
			return nil, false
		}
		phi = p
	}
	if phi == nil {
		return nil, false
	}
	first, ok1 := fr.integer(t, phi).Const()
	if f.x != ssa.Value(phi) {
		// for range: the count is added to first
		if b, ok := f.x.(*ssa.BinOp); !ok || b.Op != token.ADD || b.X != ssa.Value(phi) || first != -1 {
			return nil, false
		}
	}
	n := f.n
	if !ok1 {
		return nil, false
	}
	i := m.Index(n)
	if i == nil || first != 0 && first != -1 {
		return nil, false
	}
	seq := len(m.Events)
	u := t.clone()
	u.env[phi] = m.asIndex(i)
	if first == -1 {
		u.env[phi] = m.sub(m.asIndex(i), m.i64(1))
	}
	fr.iter = append(fr.iter, "i")
	es := fr.region(l, map[*ssa.BasicBlock][]*trace{l.head: {u}})
	fr.iter = fr.iter[:len(fr.iter)-1]
	for _, e := range m.Events[seq:] {
		if e.Kind != "store" {
			continue
		}
		if _, old := t.st.heap(e.Obj); !old && !e.Obj.Input {
			continue // made in the round
		}
		if m.keys(e.Path[len(e.Path)-1].Index) != m.keys(m.asIndex(i)) {
			return nil, false
		}
	}
	var out, back []edge
	for _, e := range es {
		if e.to == l.head {
			back = append(back, e)
		} else {
			out = append(out, e)
		}
	}
	for _, e := range back {
		// the next round is this one plus one
		next := m.asIndex(fr.integer(e.tr, phi))
		want := m.add(m.asIndex(i), m.i64(1-int64(b2(first == -1))), 0)
		if m.keys(next) != m.keys(want) {
			return nil, false
		}
		e.tr.env[phi] = m.i64(n + first)
		fr.iter = append(fr.iter, "end")
		for _, x := range fr.region(l, map[*ssa.BasicBlock][]*trace{l.head: {e.tr}}) {
			if x.to != l.head {
				out = append(out, x)
			}
		}
		fr.iter = fr.iter[:len(fr.iter)-1]
	}
	return out, true
}

// fixpoint runs a loop whose number of rounds is not known.
func (fr *frame) fixpoint(l *loop, a, b *trace) []edge {
	m := fr.m
	fr.iter = append(fr.iter, "*")
	pop := func() { fr.iter = fr.iter[:len(fr.iter)-1] }
	key := fmt.Sprintf("%s:%d", fr.where(), l.head.Index)
	join := func(a, b *trace) *trace {
		m.fixed++
		defer func() { m.fixed-- }()
		return fr.mergeTrace(a, b, key)
	}
	t := join(a, b)
	last := ""
	for round := 0; round < 12; round++ {
		k := fr.traceKey(t)
		if k == last {
			break
		}
		last = k
		if round == 11 {
			m.note("loop at block %d of %s does not settle", l.head.Index, fr.fn)
		}
		es := fr.region(l, map[*ssa.BasicBlock][]*trace{l.head: {t.clone()}})
		var back []*trace
		for _, e := range es {
			if e.to == l.head {
				back = append(back, e.tr)
			}
		}
		if len(back) == 0 {
			break
		}
		for _, u := range back {
			t = join(t, u)
		}
		if m.over {
			break
		}
	}
	es := fr.region(l, map[*ssa.BasicBlock][]*trace{l.head: {t}})
	pop()
	var out []edge
	for _, e := range es {
		if e.to != l.head {
			out = append(out, e)
		}
	}
	return out
}

func (fr *frame) traceKey(t *trace) string {
	var ps []string
	for v, x := range t.env {
		ps = append(ps, v.Name()+"="+fr.m.Key(x))
	}
	t.st.mem.each(func(k uint32, h held) {
		ps = append(ps, fmt.Sprintf("%d=%s", k, fr.m.Key(h.v)))
	})
	sort.Strings(ps)
	return strings.Join(ps, "\n")
}

func (fr *frame) block(b *ssa.BasicBlock, t *trace) []edge {
	return fr.instrs(b, 0, t.clone())
}

func (fr *frame) instrs(b *ssa.BasicBlock, i int, t *trace) []edge {
	m := fr.m
	for ; i < len(b.Instrs); i++ {
		m.Steps++
		if m.Steps > m.MaxStep || m.Halt != nil && m.Halt.Load() {
			if !m.over {
				m.note("analysis of %s stopped after %d steps", m.stack[0], m.Steps-1)
				if m.OnStop != nil {
					m.OnStop(m.stack[0])
				}
			}
			m.over = true
			return nil
		}
		switch x := b.Instrs[i].(type) {
		case *ssa.Phi:
			continue // set along the edge
		case *ssa.Call:
			rets := fr.callInstr(t, x)
			if len(rets) == 0 {
				return nil
			}
			var out []edge
			for k, r := range rets {
				u := t
				if k < len(rets)-1 {
					u = t.clone()
				}
				if r.St != nil {
					u.st = r.St
				}
				u.env[x] = r.V
				if len(rets) == 1 {
					break
				}
				out = append(out, fr.instrs(b, i+1, u)...)
			}
			if len(rets) > 1 {
				return out
			}
		case *ssa.If:
			c := fr.boolean(t, x.Cond)
			in := fr.nest.inner[b]
			if c.konst() {
				if in != nil && !fr.far(t, x.Cond) {
					not := b.Succs[c] // the one not taken: Succs[0] if false
					for l := in; l != nil; l = l.parent {
						if !l.body[not] {
							fr.decided[l] = true
						}
					}
				}
				return []edge{fr.edge(b, b.Succs[1-c], t)}
			}
			var out []edge
			if Debug {
				fmt.Printf("open %s %s at %v: %s\n", fr.where(), x, m.Prog.Fset.Position(x.Cond.Pos()), m.bitKey(c))
			}
			u := t.clone()
			if t.st.assume(c, 1) {
				out = append(out, fr.edge(b, b.Succs[0], t))
			}
			if u.st.assume(c, 0) {
				out = append(out, fr.edge(b, b.Succs[1], u))
			}
			return out
		case *ssa.Jump:
			return []edge{fr.edge(b, b.Succs[0], t)}
		case *ssa.Return:
			o := Outcome{St: t.st, At: x}
			for _, r := range x.Results {
				o.Res = append(o.Res, fr.eval(t, r))
			}
			fr.outs = append(fr.outs, o)
			return nil
		case *ssa.Panic:
			return nil
		case *ssa.Store:
			m.store(fr, t.st, fr.eval(t, x.Addr), fr.eval(t, x.Val), x)
		case *ssa.MapUpdate:
			m.event(fr, t.st, Event{Kind: "mapupdate", Args: []Value{fr.eval(t, x.Map), fr.eval(t, x.Key), fr.eval(t, x.Value)}, Pos: x.Pos()})
			fr.update(t.st, fr.eval(t, x.Map), fr.eval(t, x.Key), fr.eval(t, x.Value))
		case *ssa.DebugRef:
		case *ssa.Defer:
			if fr.nest.inner[b] != nil {
				m.note("%s in a loop of %s not followed", x, fr.fn)
			}
			t.defers = append(append([]*ssa.Defer(nil), t.defers...), x)
		case *ssa.RunDefers:
			n := len(t.defers)
			if n == 0 {
				continue
			}
			d := t.defers[n-1]
			t.defers = t.defers[:n-1]
			rets := fr.callInstr(t, &ssa.Call{Call: d.Call})
			var out []edge
			for k, r := range rets {
				u := t
				if k < len(rets)-1 {
					u = t.clone()
				}
				if r.St != nil {
					u.st = r.St
				}
				out = append(out, fr.instrs(b, i, u)...)
			}
			return out
		case *ssa.Go, *ssa.Send, *ssa.Select:
			m.note("%s in %s not followed", x, fr.fn)
		case ssa.Value:
			v, ok := fr.value(t, x)
			if !ok {
				return nil
			}
			t.env[x] = v
		}
	}
	return nil
}

// edge moves along an edge and sets the phis.
func (fr *frame) edge(from, to *ssa.BasicBlock, t *trace) edge {
	n := 0
	for i, p := range to.Preds {
		if p == from {
			n = i
		}
	}
	var vs []Value
	var ps []*ssa.Phi
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, fr.eval(t, p.Edges[n]))
	}
	for i, p := range ps {
		t.env[p] = vs[i]
	}
	return edge{from, to, t}
}

func (m *Machine) rounds() int64 {
	if m.Rounds > 0 {
		return m.Rounds
	}
	return 2000
}

// far: a loop test decided by a count too high to go through.
func (fr *frame) far(t *trace, c ssa.Value) bool {
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, ok1 := fr.eval(t, b.X).(*Int)
	y, ok2 := fr.eval(t, b.Y).(*Int)
	if !ok1 || !ok2 {
		return false
	}
	p, ok1 := x.Const()
	q, ok2 := y.Const()
	if far := fr.m.rounds(); !(ok1 && ok2 && (p-q > far || q-p > far)) {
		return false
	}
	if fr.m.exits == nil {
		fr.m.exits = map[*loop]farTest{}
	}
	for l := fr.nest.inner[b.Block()]; l != nil; l = l.parent {
		fr.m.exits[l] = farTest{b.X, q}
		break
	}
	return true
}

func (m *Machine) event(fr *frame, st *state, e Event) {
	if m.Quiet {
		return
	}
	e.Facts = make(map[int32]Bit, st.facts.n)
	st.facts.each(func(k uint32, v Bit) { e.Facts[int32(k)] = v })
	e.Fn = fr.fn
	e.Seq = len(m.Events)
	m.Events = append(m.Events, e)
}

func (fr *frame) eval(t *trace, v ssa.Value) Value {
	m := fr.m
	switch x := v.(type) {
	case *ssa.Const:
		return m.constant(x)
	case *ssa.Function:
		return &Func{Fn: x}
	case *ssa.Global:
		return &Ptr{Obj: m.global(x)}
	case *ssa.Builtin:
		return &Opaque{Key: x.Name()}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x && i < len(fr.free) {
				return fr.free[i]
			}
		}
	}
	if r, ok := t.env[v]; ok {
		if n, ok := r.(*Int); ok {
			return m.under(t.st, n)
		}
		return r
	}
	return m.Input(v.Type(), fmt.Sprintf("?%s.%s", fr.where(), v.Name()))
}

func (m *Machine) global(g *ssa.Global) *Obj {
	key := g.String()
	if o := m.inputs[key]; o != nil {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	bytesOf := func(bs ...byte) Value {
		o := m.inputObj(key+"[]", nil)
		m.initial[o] = m.ByteArray(m.constBytes(bs...))
		return &Slice{Obj: o, Off: m.i64(0), Len: m.i64(int64(len(bs)))}
	}
	z := make([]byte, 16)
	switch key {
	case "net.v4InV6Prefix":
		return m.inputObj(key, bytesOf(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff))
	case "net.IPv6zero":
		return m.inputObj(key, bytesOf(z...))
	case "net.IPv4zero":
		z[10], z[11] = 0xff, 0xff
		return m.inputObj(key, bytesOf(z...))
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return m.inputObj(key, &Iface{Key: key, Nil: 0})
	}
	if s, ok := constantVar(g); ok {
		if _, isSlice := t.Underlying().(*types.Slice); isSlice {
			return m.inputObj(key, bytesOf([]byte(s)...))
		}
		return m.inputObj(key, m.Str(s))
	}
	return m.lazyObj(key, t)
}

var constantVars sync.Map // of *ssa.Global to what it holds, a string or nil

// constantVar is the text that a package variable, a string or a slice of
// bytes, holds at all times: it is set from a constant when the package is
// initialised and otherwise only read.
func constantVar(g *ssa.Global) (string, bool) {
	if v, ok := constantVars.Load(g); ok {
		s, ok := v.(string)
		return s, ok
	}
	var val any
	switch t := g.Type().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Slice:
		if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			val = initialText(g)
		}
	case *types.Basic:
		if t.Kind() == types.String {
			val = initialText(g)
		}
	}
	constantVars.Store(g, val)
	s, ok := val.(string)
	return s, ok
}

func initialText(g *ssa.Global) any {
	var val any
	ok, n := true, 0
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ld, isLoad := in.(*ssa.UnOp); isLoad && ld.X == g {
					continue
				}
				if st, isStore := in.(*ssa.Store); isStore && st.Addr == g && f.Name() == "init" {
					v := st.Val
					if cv, isConv := v.(*ssa.Convert); isConv {
						v = cv.X
					}
					c, isConst := v.(*ssa.Const)
					if !isConst || c.Value == nil || c.Value.Kind() != constant.String {
						ok = false
						continue
					}
					val = constant.StringVal(c.Value)
					n++
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == g {
						ok = false
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	for _, mem := range g.Pkg.Members {
		switch x := mem.(type) {
		case *ssa.Function:
			scan(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := g.Pkg.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := g.Pkg.Prog.MethodValue(ms.At(i)); f != nil && f.Pkg == g.Pkg {
						scan(f)
					}
				}
			}
		}
	}
	if token.IsExported(g.Name()) || !ok || n != 1 {
		return nil
	}
	return val
}

func (m *Machine) constBytes(bs ...byte) []Value {
	var r []Value
	for _, b := range bs {
		r = append(r, m.Const(uint64(b), 8, false))
	}
	return r
}

// ByteArray is an array of the given elements.
func (m *Machine) ByteArray(vs []Value) *Back {
	b := &Back{Elem: types.Typ[types.Uint8], Zero: true, Elems: map[string]cell{}}
	for i, v := range vs {
		at := m.i64(int64(i))
		b.Elems[m.keys(at)] = cell{at, v}
	}
	return b
}

// Bytes is a new slice of the given bytes.
func (m *Machine) Bytes(vs []Value) *Slice {
	o := &Obj{ID: m.nextObj(), Key: "bytes"}
	m.initial[o] = m.ByteArray(vs)
	return &Slice{Obj: o, Off: m.i64(0), Len: m.i64(int64(len(vs)))}
}

func (m *Machine) nextObj() int { m.objs++; return m.objs }

func (m *Machine) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	if w, signed, ok := intType(t); ok {
		if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
			if i, ok := constant.Int64Val(v); ok {
				return m.Const(uint64(i), w, signed)
			}
			if u, ok := constant.Uint64Val(v); ok {
				return m.Const(u, w, signed)
			}
		}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return &Bool{b2(constant.BoolVal(c.Value))}
	case constant.String:
		return m.Str(constant.StringVal(c.Value))
	}
	return &Opaque{Key: "const " + c.Value.String(), T: t}
}

// Str is a constant string.
func (m *Machine) Str(s string) *Slice {
	o := m.inputs["str:"+s]
	if o == nil {
		o = m.inputObj("str:"+s, nil)
		m.initial[o] = m.ByteArray(m.constBytes([]byte(s)...))
	}
	return &Slice{Obj: o, Off: m.i64(0), Len: m.i64(int64(len(s))), Str: true}
}

func (fr *frame) boolean(t *trace, v ssa.Value) Bit {
	if b, ok := fr.eval(t, v).(*Bool); ok {
		return t.st.bit(b.B)
	}
	return t.st.bit(fr.m.Atom(fmt.Sprintf("?%s.%s", fr.where(), v.Name())))
}

func (fr *frame) integer(t *trace, v ssa.Value) *Int {
	if i, ok := fr.eval(t, v).(*Int); ok {
		return fr.m.under(t.st, i)
	}
	w, signed, ok := intType(v.Type())
	if !ok {
		w, signed = 64, true
	}
	return fr.m.opaque(fmt.Sprintf("?%s.%s", fr.where(), v.Name()), w, signed)
}

func (fr *frame) alloc(ins ssa.Value, v Value, st *state) *Obj {
	key := fr.where() + "." + ins.Name()
	o := fr.m.allocs[key]
	if o == nil {
		o = &Obj{ID: fr.m.nextObj(), Key: key}
		fr.m.allocs[key] = o
	}
	st.put(o, v)
	return o
}

func (m *Machine) load(fr *frame, st *state, p Value, t types.Type, pos token.Pos) Value {
	x, ok := p.(*Ptr)
	if !ok || x.Obj == nil {
		return m.Input(t, fmt.Sprintf("?load%d", m.tick()))
	}
	v := m.readChoice(st, m.content(st, x.Obj), x.Path, t)
	if i, ok := v.(*Int); ok {
		v = m.under(st, i)
	}
	if hasIndex(x.Path) {
		m.event(fr, st, Event{Kind: "load", Obj: x.Obj, Path: x.Path, V: v, Pos: pos})
	}
	return v
}

// readChoice reads at an address in which a bit to choose by takes part.
func (m *Machine) readChoice(st *state, c Value, path []Elem, t types.Type) Value {
	if len(m.Choice) == 0 || len(path) == 0 || path[len(path)-1].Field >= 0 {
		return m.read(st, c, path, t)
	}
	last := path[len(path)-1].Index
	if last.Lin == nil || len(last.Bits) != 64 {
		return m.read(st, c, path, t)
	}
	for _, tm := range last.Lin.T {
		b, ok := m.lone[tm.s]
		if !ok || !m.Choice[int32(b>>1)] {
			continue
		}
		l := &Lin{C: last.Lin.C}
		for _, u := range last.Lin.T {
			if u.s != tm.s {
				l.T = append(l.T, u)
			}
		}
		at := func(add uint64) (*Int, bool) {
			p := append([]Elem(nil), path...)
			p[len(p)-1] = Elem{-1, m.fromLin(&Lin{C: l.C + add, T: l.T}, 64, last.Signed)}
			v, ok := m.readChoice(st, c, p, t).(*Int)
			return v, ok
		}
		x, ok1 := at(tm.k)
		y, ok2 := at(0)
		if ok1 && ok2 && len(x.Bits) == len(y.Bits) {
			return m.Ite(b, x, y)
		}
	}
	return m.read(st, c, path, t)
}

func hasIndex(p []Elem) bool {
	for _, e := range p {
		if e.Field < 0 {
			return true
		}
	}
	return false
}

func (m *Machine) store(fr *frame, st *state, p, v Value, at ssa.Instruction) {
	x, ok := p.(*Ptr)
	if !ok || x.Obj == nil {
		m.note("store through an unknown pointer in %s", fr.fn)
		return
	}
	if hasIndex(x.Path) {
		m.event(fr, st, Event{Kind: "store", Obj: x.Obj, Path: x.Path, V: v, Pos: at.Pos()})
	}
	st.put(x.Obj, m.write(st, m.content(st, x.Obj), x.Path, v))
}

func (m *Machine) sliceElem(s *Slice, i *Int) *Ptr {
	at := m.add(m.asIndex(s.Off), m.asIndex(i), 0)
	return &Ptr{Obj: s.Obj, Path: append(append([]Elem(nil), s.Path...), Elem{-1, at})}
}

func (m *Machine) asIndex(i *Int) *Int {
	if len(i.Bits) == 64 {
		return i
	}
	return m.convert(i, 64, true)
}

func (fr *frame) value(t *trace, v ssa.Value) (Value, bool) {
	m := fr.m
	unknown := func() (Value, bool) {
		return m.Input(v.Type(), fmt.Sprintf("?%s.%s", fr.where(), v.Name())), true
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return &Ptr{Obj: fr.alloc(x, m.zero(x.Type().(*types.Pointer).Elem()), t.st)}, true
	case *ssa.BinOp:
		return fr.binop(t, x), true
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			v := m.load(fr, t.st, fr.eval(t, x.X), x.Type(), x.Pos())
			if s, ok := v.(*Slice); ok && !s.Str && isStringType(x.Type()) {
				// bytes seen as a string
				c := *s
				c.Str = true
				return &c, true
			}
			return v, true
		case token.NOT:
			return &Bool{not(fr.boolean(t, x.X))}, true
		case token.SUB:
			if _, _, ok := intType(x.Type()); ok {
				a := fr.integer(t, x.X)
				return m.sub(m.Const(0, len(a.Bits), a.Signed), a), true
			}
		case token.XOR:
			return m.complement(fr.integer(t, x.X)), true
		}
		return unknown()
	case *ssa.Convert:
		return fr.convertValue(t, x), true
	case *ssa.ChangeType:
		r := fr.eval(t, x.X)
		return r, true
	case *ssa.ChangeInterface:
		return fr.eval(t, x.X), true
	case *ssa.MakeInterface:
		return &Iface{T: x.X.Type(), V: fr.eval(t, x.X), Nil: 0}, true
	case *ssa.MakeClosure:
		f := &Func{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bound = append(f.Bound, fr.eval(t, b))
		}
		return f, true
	case *ssa.MakeSlice:
		n := m.asIndex(fr.integer(t, x.Len))
		o := fr.alloc(x, &Back{Elem: x.Type().Underlying().(*types.Slice).Elem(), Zero: true, Elems: map[string]cell{}}, t.st)
		return &Slice{Obj: o, Off: m.i64(0), Len: n}, true
	case *ssa.FieldAddr:
		p, ok := fr.eval(t, x.X).(*Ptr)
		if !ok || p.Obj == nil {
			return unknown()
		}
		return &Ptr{Obj: p.Obj, Path: append(append([]Elem(nil), p.Path...), Elem{x.Field, nil})}, true
	case *ssa.Field:
		if s, ok := fr.eval(t, x.X).(*Struct); ok && x.Field < len(s.F) {
			return s.F[x.Field], true
		}
		return unknown()
	case *ssa.IndexAddr:
		i := m.asIndex(fr.integer(t, x.Index))
		switch b := fr.eval(t, x.X).(type) {
		case *Slice:
			if n, ok := b.Len.Const(); ok {
				if k, ok := i.Const(); ok && (k < 0 || k >= n) {
					return nil, false // panics
				}
			}
			if b.Obj != nil {
				return m.sliceElem(b, i), true
			}
		case *Ptr:
			if b.Obj != nil {
				return &Ptr{Obj: b.Obj, Path: append(append([]Elem(nil), b.Path...), Elem{-1, i})}, true
			}
		}
		return unknown()
	case *ssa.Index:
		i := m.asIndex(fr.integer(t, x.Index))
		switch b := fr.eval(t, x.X).(type) {
		case *Back:
			return m.elem(t.st, b, i), true
		case *Slice:
			if b.Obj != nil {
				return m.load(fr, t.st, m.sliceElem(b, i), x.Type(), x.Pos()), true
			}
		}
		return unknown()
	case *ssa.Lookup:
		if b, ok := fr.eval(t, x.X).(*Slice); ok && b.Obj != nil { // string
			return m.load(fr, t.st, m.sliceElem(b, fr.integer(t, x.Index)), x.Type(), x.Pos()), true
		}
		key := fmt.Sprintf("%s[%s]", m.Key(fr.eval(t, x.X)), m.Key(fr.eval(t, x.Index)))
		m.event(fr, t.st, Event{Kind: "lookup", Args: []Value{fr.eval(t, x.X), fr.eval(t, x.Index)}, Pos: x.Pos()})
		et := x.X.Type().Underlying().(*types.Map).Elem()
		if v, found, ok := fr.lookup(t.st, fr.eval(t, x.X), fr.eval(t, x.Index), et); ok {
			if x.CommaOk {
				return Tuple{v, &Bool{b2(found)}}, true
			}
			return v, true
		}
		if tp, ok := x.Type().(*types.Tuple); ok {
			return Tuple{m.Input(tp.At(0).Type(), key), &Bool{m.Atom("ok " + key)}}, true
		}
		return m.Input(x.Type(), key), true
	case *ssa.Slice:
		return fr.slice(t, x)
	case *ssa.Extract:
		if tp, ok := fr.eval(t, x.Tuple).(Tuple); ok && x.Index < len(tp) {
			if n, ok := tp[x.Index].(*Int); ok {
				return m.under(t.st, n), true
			}
			return tp[x.Index], true
		}
		return unknown()
	case *ssa.TypeAssert:
		i, ok := fr.eval(t, x.X).(*Iface)
		_, toIface := x.AssertedType.Underlying().(*types.Interface)
		if ok && i.T != nil && t.st.bit(i.Nil) == 0 {
			is := types.Identical(i.T, x.AssertedType)
			if toIface {
				is = types.AssignableTo(i.T, x.AssertedType)
			}
			var r Value = m.zero(x.AssertedType)
			if is {
				r = i.V
				if toIface {
					r = i
				}
			}
			if x.CommaOk {
				return Tuple{r, &Bool{b2(is)}}, true
			}
			return r, is
		}
		key := "?" + fr.where() + "." + x.Name()
		if ok && i.Key != "" {
			key = i.Key + ".(" + x.AssertedType.String() + ")"
		}
		if x.CommaOk {
			return Tuple{m.Input(x.AssertedType, key), &Bool{m.Atom("ok " + key)}}, true
		}
		return m.Input(x.AssertedType, key), true
	case *ssa.Range:
		if o, ok := fr.eval(t, x.X).(*Opaque); ok && o.Obj == nil && o.Key == "zero" {
			return &Opaque{Key: "range", T: x.Type(), Obj: fr.alloc(x, &ranging{nil, 0}, t.st)}, true
		}
		if o, ok := fr.eval(t, x.X).(*Opaque); ok && o.Obj != nil {
			if ps, ok := m.content(t.st, o.Obj).(*Pairs); ok {
				it := fr.alloc(x, &ranging{ps.L, 0}, t.st)
				return &Opaque{Key: "range", T: x.Type(), Obj: it}, true
			}
		}
		return &Opaque{Key: m.Key(fr.eval(t, x.X)), T: x.Type()}, true
	case *ssa.Next:
		if o, ok := fr.eval(t, x.Iter).(*Opaque); ok && o.Obj != nil {
			if r, ok := m.content(t.st, o.Obj).(*ranging); ok {
				tp := x.Type().(*types.Tuple)
				if r.at >= len(r.l) {
					return Tuple{&Bool{0}, m.zero(tp.At(1).Type()), m.zero(tp.At(2).Type())}, true
				}
				t.st.put(o.Obj, &ranging{r.l, r.at + 1})
				return Tuple{&Bool{1}, r.l[r.at].K, r.l[r.at].V}, true
			}
		}
		key := fmt.Sprintf("next%d", m.tick())
		tp := x.Type().(*types.Tuple)
		return Tuple{&Bool{m.Atom(key)}, m.Input(tp.At(1).Type(), key+".k"), m.Input(tp.At(2).Type(), key+".v")}, true
	case *ssa.MakeMap:
		return &Opaque{Key: fr.where() + "." + v.Name(), T: v.Type(), Obj: fr.alloc(x, &Pairs{}, t.st)}, true
	case *ssa.MakeChan:
		return &Opaque{Key: fr.where() + "." + v.Name(), T: v.Type()}, true
	}
	return unknown()
}

func (fr *frame) slice(t *trace, x *ssa.Slice) (Value, bool) {
	m := fr.m
	low := m.i64(0)
	if x.Low != nil {
		low = m.asIndex(fr.integer(t, x.Low))
	}
	switch b := fr.eval(t, x.X).(type) {
	case *Slice:
		high := b.Len
		if x.High != nil {
			high = m.asIndex(fr.integer(t, x.High))
		}
		n := &Slice{Obj: b.Obj, Path: b.Path, Str: b.Str, Nil: b.Nil}
		n.Off = m.signed(m.add(m.asIndex(b.Off), low, 0))
		n.Len = m.signed(m.sub(high, low))
		if l, ok := n.Len.Const(); ok && l < 0 {
			return nil, false
		}
		return n, true
	case *Ptr: // array
		at, ok := x.X.Type().Underlying().(*types.Pointer)
		if !ok || b.Obj == nil {
			break
		}
		arr, ok := at.Elem().Underlying().(*types.Array)
		if !ok {
			break
		}
		high := m.i64(arr.Len())
		if x.High != nil {
			high = m.asIndex(fr.integer(t, x.High))
		}
		return &Slice{Obj: b.Obj, Path: b.Path, Off: low, Len: m.sub(high, low)}, true
	}
	return m.Input(x.Type(), fmt.Sprintf("?%s.%s", fr.where(), x.Name())), true
}

func (m *Machine) signed(x *Int) *Int {
	if x.Signed {
		return x
	}
	return &Int{Bits: x.Bits, Signed: true, Lin: x.Lin}
}

func (fr *frame) convertValue(t *trace, x *ssa.Convert) Value {
	m := fr.m
	a := fr.eval(t, x.X)
	if w, signed, ok := intType(x.Type()); ok {
		if i, ok := a.(*Int); ok {
			return m.convert(m.under(t.st, i), w, signed)
		}
	}
	if s, ok := a.(*Slice); ok {
		switch u := x.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return m.copySlice(fr, t.st, s, x, true)
			}
		case *types.Slice:
			if s.Str && types.Identical(u.Elem().Underlying(), types.Typ[types.Uint8]) {
				return m.copySlice(fr, t.st, s, x, false)
			}
			return s
		}
	}
	if u, ok := x.Type().Underlying().(*types.Basic); ok && u.Kind() == types.UnsafePointer {
		return a
	}
	if _, ok := x.Type().Underlying().(*types.Pointer); ok {
		if p, ok := a.(*Ptr); ok {
			// *[]byte read as *string
			return p
		}
	}
	return m.Input(x.Type(), fmt.Sprintf("conv(%s)%s", m.Key(a), x.Type()))
}

// copySlice is a copy of a string or of bytes as the other.
func (m *Machine) copySlice(fr *frame, st *state, s *Slice, at ssa.Value, str bool) Value {
	if s.Obj == nil {
		return &Slice{Off: m.i64(0), Len: m.i64(0), Str: str}
	}
	if n, ok := s.Len.Const(); ok && n <= 4096 {
		var vs []Value
		for i := int64(0); i < n; i++ {
			vs = append(vs, m.at(st, s, i))
		}
		o := fr.alloc(at, m.ByteArray(vs), st)
		return &Slice{Obj: o, Off: m.i64(0), Len: s.Len, Str: str}
	}
	if str {
		// strings do not change: the content now
		return &Slice{Obj: s.Obj, Path: s.Path, Off: s.Off, Len: s.Len, Str: true}
	}
	o := fr.alloc(at, m.read(st, m.content(st, s.Obj), s.Path, nil), st)
	return &Slice{Obj: o, Off: s.Off, Len: s.Len}
}

// at is element i of a slice of bytes.
func (m *Machine) at(st *state, s *Slice, i int64) Value {
	p := m.sliceElem(s, m.i64(i))
	v := m.read(st, m.content(st, p.Obj), p.Path, types.Typ[types.Uint8])
	if n, ok := v.(*Int); ok {
		return m.under(st, n)
	}
	return v
}

// Content lists the bytes of a slice of known length.
func (m *Machine) Content(o Outcome, v Value) ([]*Int, bool) {
	s, ok := v.(*Slice)
	if !ok {
		return nil, false
	}
	n, ok := s.Len.Const()
	if !ok || n > 1<<16 {
		return nil, false
	}
	var r []*Int
	for i := int64(0); i < n; i++ {
		x, ok := m.at(o.St, s, i).(*Int)
		if !ok {
			return nil, false
		}
		r = append(r, x)
	}
	return r, true
}

func (fr *frame) binop(t *trace, x *ssa.BinOp) Value {
	m := fr.m
	av, bv := fr.eval(t, x.X), fr.eval(t, x.Y)
	if a, ok := av.(*Int); ok {
		if b, ok := bv.(*Int); ok {
			return fr.intOp(t, x, m.under(t.st, a), m.under(t.st, b))
		}
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		b := fr.equalValues(t.st, av, bv)
		if x.Op == token.NEQ {
			b = not(b)
		}
		return &Bool{t.st.bit(b)}
	case token.ADD:
		a, ok1 := av.(*Slice)
		b, ok2 := bv.(*Slice)
		if ok1 && ok2 && a.Str && b.Str {
			p, ok1 := m.pieces(t.st, a)
			q, ok2 := m.pieces(t.st, b)
			if ok1 && ok2 {
				return m.joined(append(append([]Value(nil), p...), q...), true)
			}
		}
	}
	ka, kb := m.Key(av), m.Key(bv)
	return m.Input(x.Type(), fmt.Sprintf("(%s%s%s)", ka, x.Op, kb))
}

func (fr *frame) equalValues(st *state, a, b Value) Bit {
	m := fr.m
	switch x := a.(type) {
	case *Int:
		if y, ok := b.(*Int); ok {
			return m.equal(m.under(st, x), m.under(st, y))
		}
	case *Bool:
		if y, ok := b.(*Bool); ok {
			return not(m.bitXor(st.bit(x.B), st.bit(y.B)))
		}
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			break
		}
		xn, yn := st.bit(x.Nil), st.bit(y.Nil)
		switch {
		case xn == 1:
			return yn
		case yn == 1:
			return xn
		}
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok {
			break
		}
		if x.Obj == nil || y.Obj == nil {
			return b2(x.Obj == y.Obj)
		}
		if m.Key(x) == m.Key(y) {
			return 1
		}
	case *Slice:
		y, ok := b.(*Slice)
		if !ok {
			break
		}
		if !x.Str {
			if y.Obj == nil && y.Nil == 1 {
				return x.Nil
			}
			if x.Obj == nil && x.Nil == 1 {
				return y.Nil
			}
			break
		}
		if m.keys(x.Len) == "0" || m.keys(y.Len) == "0" {
			return m.equal(x.Len, y.Len)
		}
		n, ok1 := x.Len.Const()
		k, ok2 := y.Len.Const()
		if ok1 && ok2 {
			if n != k {
				return 0
			}
			r := Bit(1)
			for i := int64(0); i < n; i++ {
				p, o1 := m.at(st, x, i).(*Int)
				q, o2 := m.at(st, y, i).(*Int)
				if !o1 || !o2 {
					return m.Atom("eq(" + m.Key(a) + "," + m.Key(b) + ")")
				}
				e := st.bit(m.equal(p, q))
				if e == 0 {
					return 0
				}
				r = m.bitAnd(r, e)
			}
			return r
		}
	case *Opaque:
		if y, ok := b.(*Opaque); ok && (x.Key == "zero") != (y.Key == "zero") {
			return 0 // a map or function that was made is not nil
		} else if ok && x.Key == "zero" && x.Obj == nil && y.Obj == nil {
			return 1
		}
		if y, ok := b.(*Func); ok && y.Fn != nil && x.Key == "zero" {
			return 0
		}
	case *Func:
		if y, ok := b.(*Opaque); ok && y.Key == "zero" {
			return 0
		}
	}
	ka, kb := m.Key(a), m.Key(b)
	if kb < ka {
		ka, kb = kb, ka
	}
	return m.Atom("eq(" + ka + "," + kb + ")")
}

func (fr *frame) intOp(t *trace, x *ssa.BinOp, a, b *Int) Value {
	m := fr.m
	switch x.Op {
	case token.SHL, token.SHR:
		if k, ok := b.Const(); ok {
			if k < 0 || k > 64 {
				k = 64
			}
			if x.Op == token.SHL {
				return m.shl(a, uint(k))
			}
			if a.Signed && k > 63 {
				k = 63
			}
			return m.shr(a, uint(k))
		}
		return m.opaque(fmt.Sprintf("(%s%s%s)%d", m.keys(a), x.Op, m.keys(b), len(a.Bits)), len(a.Bits), a.Signed)
	}
	if len(a.Bits) != len(b.Bits) {
		return m.Input(x.Type(), fmt.Sprintf("(%s%s%s)", m.keys(a), x.Op, m.keys(b)))
	}
	boolean := func(b Bit) Value { return &Bool{t.st.bit(b)} }
	switch x.Op {
	case token.ADD:
		return m.add(a, b, 0)
	case token.SUB:
		return m.sub(a, b)
	case token.MUL:
		return m.mul(a, b)
	case token.AND:
		return m.bitwise(a, b, m.bitAnd)
	case token.OR:
		return m.bitwise(a, b, m.bitOr)
	case token.XOR:
		return m.bitwise(a, b, m.bitXor)
	case token.AND_NOT:
		return m.bitwise(a, b, func(x, y Bit) Bit { return m.bitAnd(x, not(y)) })
	case token.EQL:
		return boolean(m.equal(a, b))
	case token.NEQ:
		return boolean(not(m.equal(a, b)))
	case token.LSS:
		return boolean(m.less(a, b))
	case token.GTR:
		return boolean(m.less(b, a))
	case token.LEQ:
		return boolean(not(m.less(b, a)))
	case token.GEQ:
		return boolean(not(m.less(a, b)))
	case token.QUO, token.REM:
		return m.divide(a, b, x.Op == token.REM)
	}
	return m.Input(x.Type(), fmt.Sprintf("(%s%s%s)", m.keys(a), x.Op, m.keys(b)))
}

func (m *Machine) divide(a, b *Int, rem bool) *Int {
	n := len(a.Bits)
	if c, ok := b.Const(); ok && c > 1 && !rem && n == 64 && a.Lin != nil && !a.Lin.isConst() && small(a.Lin) {
		if lo, hi := linRange(a.Lin); lo.Sign() >= 0 {
			even := a.Lin.C%uint64(c) == 0
			for _, t := range a.Lin.T {
				even = even && int64(t.k)%c == 0
			}
			if even {
				l := &Lin{C: a.Lin.C / uint64(c)}
				for _, t := range a.Lin.T {
					l.T = append(l.T, term{t.s, uint64(int64(t.k) / c)})
				}
				return m.fromLin(l, n, a.Signed)
			}
			if a.Signed && a.Bits[n-1] != 0 || c&(c-1) != 0 {
				s := m.Sym(fmt.Sprintf("(%s/%d)", m.keys(a), c), n)
				if s.Hi == nil {
					s.Lo, s.Hi = new(big.Int).Div(lo, big.NewInt(c)), new(big.Int).Div(hi, big.NewInt(c))
				}
				return m.SymInt(s, a.Signed)
			}
		}
	}
	if c, ok := b.Const(); ok && c > 0 {
		if v, ok := a.Const(); ok {
			var r uint64
			switch {
			case a.Signed && rem:
				r = uint64(v % c)
			case a.Signed:
				r = uint64(v / c)
			case rem:
				r = uint64(v) % uint64(c)
			default:
				r = uint64(v) / uint64(c)
			}
			return m.Const(r, n, a.Signed)
		}
		if c&(c-1) == 0 && (!a.Signed || a.Bits[n-1] == 0) {
			k := 0
			for c>>uint(k) != 1 {
				k++
			}
			if !rem {
				return m.shr(a, uint(k))
			}
			r := &Int{Bits: make([]Bit, n), Signed: a.Signed}
			copy(r.Bits[:k], a.Bits[:k])
			return m.norm(r)
		}
	}
	op := "/"
	if rem {
		op = "%"
	}
	return m.opaque(fmt.Sprintf("(%s%s%s)%d", m.keys(a), op, m.keys(b), n), n, a.Signed)
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
