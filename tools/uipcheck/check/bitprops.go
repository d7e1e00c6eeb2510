package check

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"uipcheck/bits"
	"uipcheck/load"
)

func init() {
	register("C21", "proof", conversions)
	register("C22", "proof", addressArith)
}

var byteT = types.Typ[types.Uint8]

// bitRun collects what the cells of one check find.
type bitRun struct {
	c     *Ctx
	g     *Graph
	res   *Result
	cells int
	fns   map[string]bool
	bad   map[string]bool
	steps int
	mu    sync.Mutex
	halt  atomic.Bool
	fails int
	most  int
	// some cells are still being analysed, and nobody waits for them
	stopped bool
	// cells no input is in
	skipped int
	began   time.Time
}

// each analyses the cells 0..n-1, on all cores. It ends early once there is
// enough to report, or if the analysis grows beyond its bounds, which is
// reported: then it does not wait for the cells that are not done.
func (b *bitRun) each(n int, f func(i int)) {
	debug.SetMemoryLimit(maxHeap)
	next, done := make(chan int), make(chan bool)
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				f(i)
			}
		}()
	}
	go func() {
		for i := 0; i < n && !b.halt.Load(); i++ {
			next <- i
		}
		close(next)
		wg.Wait()
		close(done)
	}()
	for late := 0; ; {
		select {
		case <-done:
		case <-time.After(100 * time.Millisecond):
			var s runtime.MemStats
			runtime.ReadMemStats(&s)
			if s.HeapAlloc > maxHeap || time.Since(b.began) > maxTime {
				b.halt.Store(true)
			}
			if b.halt.Load() {
				late++
			}
			if late < 100 && s.HeapAlloc < maxHeap*3/2 {
				continue
			}
		}
		break
	}
	if b.halt.Load() && len(b.res.Violations) == 0 {
		b.fail("the analysis ends within its bounds", nil, "more than the analysis can follow")
	}
	select {
	case <-done:
	default:
		b.mu.Lock()
		b.stopped = true
		b.mu.Unlock()
	}
}

// Far more than the analysis takes on code it can follow.
const (
	maxHeap = 12 << 30
	maxTime = 10 * time.Minute
)

func newBitRun(c *Ctx, what string) *bitRun {
	return &bitRun{c: c, began: time.Now(), g: NewGraph(c.P), fns: map[string]bool{}, bad: map[string]bool{}, res: &Result{
		Explain: what,
		Trusted: []string{"the cells cover every input named in the property", "indexing is in range (the matter of other checks)"},
	}}
}

func (b *bitRun) fail(rule string, f *ssa.Function, msg string) {
	fn, site := "?", "?"
	if f != nil {
		fn = short(f)
		p := b.c.P.Fset.Position(f.Pos())
		site = fmt.Sprintf("%s:%d", rel(b.c.P, p.Filename), p.Line)
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.stopped || b.halt.Load() && len(b.bad) > 0 {
		return
	}
	if b.fails++; b.fails > 12 {
		b.halt.Store(true)
	}
	if b.bad[rule+fn] {
		return
	}
	b.bad[rule+fn] = true
	b.res.Fail(rule, site, fn, msg)
}

func (b *bitRun) sample(f string, a ...interface{}) {
	if len(b.res.Samples) < 30 {
		b.res.Samples = append(b.res.Samples, fmt.Sprintf(f, a...))
	}
}

// skip notes a cell that no input is in.
func (b *bitRun) skip(cell string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.skipped++
	if os.Getenv("ALLCELLS") != "" {
		fmt.Println("SKIP", cell)
	}
}

func (b *bitRun) done() *Result {
	b.res.Obligations = b.cells
	for f := range b.fns {
		b.res.Functions = append(b.res.Functions, f)
	}
	b.res.Extra = map[string]interface{}{"cells": b.cells, "steps": b.steps, "empty cells": b.skipped}
	return b.res
}

func (b *bitRun) machine() *bits.Machine {
	m := bits.New(b.c.P.SSA)
	m.Halt = &b.halt
	m.OnStop = func(f *ssa.Function) {
		b.fail("the analysis ends within its bounds", f, fmt.Sprintf("more than %d steps", m.Steps-1))
	}
	return m
}

// run analyses f on one cell.
func (b *bitRun) run(m *bits.Machine, f *ssa.Function, args ...bits.Value) []bits.Outcome {
	s := m.Steps
	o := m.Run(f, args)
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.stopped {
		return o
	}
	b.cells++
	b.fns[short(f)] = true
	b.steps += m.Steps - s
	if os.Getenv("ALLCELLS") != "" && m.Steps > b.most {
		b.most = m.Steps
		fmt.Println("MOST", short(f), b.most)
	}
	return o
}

// saw notes a function that is analysed.
func (b *bitRun) saw(f *ssa.Function) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if !b.stopped {
		b.fns[short(f)] = true
	}
}

// addr is an address of n bytes whose bits are free.
func freeBytes(m *bits.Machine, name string, n int) []*bits.Int {
	var r []*bits.Int
	for i := 0; i < n; i++ {
		r = append(r, m.Input(byteT, fmt.Sprintf("%s%d", name, i)).(*bits.Int))
	}
	return r
}

// bitAt is bit k of an address, the high bit of the first byte first.
func bitAt(bs []*bits.Int, k int) bits.Bit { return bs[k/8].Bits[7-k%8] }

func setBit(bs []*bits.Int, k int, v bits.Bit) {
	n := &bits.Int{Bits: append([]bits.Bit(nil), bs[k/8].Bits...)}
	n.Bits[7-k%8] = v
	bs[k/8] = n
}

func normAll(m *bits.Machine, bs []*bits.Int) []*bits.Int {
	for i, x := range bs {
		bs[i] = m.FromBits(x.Bits, false)
	}
	return bs
}

func slice(m *bits.Machine, bs []*bits.Int) *bits.Slice {
	normAll(m, bs)
	var vs []bits.Value
	for _, x := range bs {
		vs = append(vs, x)
	}
	return m.Bytes(vs)
}

func constInts(m *bits.Machine, vs ...byte) []*bits.Int {
	var r []*bits.Int
	for _, v := range vs {
		r = append(r, m.Const(uint64(v), 8, false))
	}
	return r
}

var mapped = []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}

func copyBytes(l []*bits.Int) []*bits.Int { return append([]*bits.Int(nil), l...) }

// diffBytes compares two byte lists; "" if they agree.
func diffBytes(m *bits.Machine, got, want []*bits.Int) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d bytes, not %d", len(got), len(want))
	}
	for i := range got {
		if d := diffBits(m, got[i], want[i]); d != "" {
			return fmt.Sprintf("byte %d is %s", i, d)
		}
	}
	return ""
}

func diffBits(m *bits.Machine, got, want *bits.Int) string {
	if len(got.Bits) != len(want.Bits) {
		return fmt.Sprintf("%d bits wide, not %d", len(got.Bits), len(want.Bits))
	}
	for i := range got.Bits {
		if got.Bits[i] != want.Bits[i] {
			return fmt.Sprintf("[%s], not [%s]", m.String(got), m.String(want))
		}
	}
	return ""
}

// single takes the only outcome; with several, one that cannot be told apart
// from the others is undecided.
func (b *bitRun) single(m *bits.Machine, rule string, f *ssa.Function, os []bits.Outcome, cell string) (bits.Outcome, bool) {
	if len(os) == 1 {
		return os[0], true
	}
	if len(os) == 0 {
		b.fail(rule, f, "for "+cell+": never returns"+notes(m))
	} else {
		b.fail(rule, f, fmt.Sprintf("for %s: %d different outcomes where one is expected%s", cell, len(os), notes(m)))
	}
	return bits.Outcome{}, false
}

func notes(m *bits.Machine) string {
	if len(m.Notes) == 0 {
		return ""
	}
	return " (" + strings.Join(m.Notes, "; ") + ")"
}

// wantBytes runs f and compares the bytes of its result; lists of 4 bytes and
// their 16-byte form are one address when anyForm is set.
func (b *bitRun) wantBytes(m *bits.Machine, rule string, f *ssa.Function, cell string, want []*bits.Int, anyForm bool, args ...bits.Value) {
	o, ok := b.single(m, rule, f, b.run(m, f, args...), cell)
	if !ok {
		return
	}
	if len(o.Res) == 0 {
		b.fail(rule, f, "returns nothing")
		return
	}
	got, ok := m.Content(o, o.Res[0])
	if !ok {
		b.fail(rule, f, "for "+cell+": the bytes of the result are not known: "+m.Key(o.Res[0])+notes(m))
		return
	}
	if anyForm {
		got, want = form16(m, got), form16(m, want)
	}
	if d := diffBytes(m, got, want); d != "" {
		b.fail(rule, f, "for "+cell+": "+d+notes(m))
	}
}

func form16(m *bits.Machine, l []*bits.Int) []*bits.Int {
	if len(l) == 4 {
		return append(constInts(m, mapped...), l...)
	}
	return l
}

// wantInt runs f and compares its integer result.
func (b *bitRun) wantInt(m *bits.Machine, rule string, f *ssa.Function, cell string, want *bits.Int, args ...bits.Value) {
	o, ok := b.single(m, rule, f, b.run(m, f, args...), cell)
	if !ok || len(o.Res) == 0 {
		return
	}
	got, ok := o.Res[0].(*bits.Int)
	if !ok {
		b.fail(rule, f, "for "+cell+": result unknown")
		return
	}
	if d := diffBits(m, got, want); d != "" {
		b.fail(rule, f, "for "+cell+": result is "+d+notes(m))
	}
}

func (b *bitRun) wantBool(m *bits.Machine, rule string, f *ssa.Function, cell string, want bool, args ...bits.Value) {
	o, ok := b.single(m, rule, f, b.run(m, f, args...), cell)
	if !ok || len(o.Res) == 0 {
		return
	}
	got, ok := o.Res[0].(*bits.Bool)
	w := bits.Bit(0)
	if want {
		w = 1
	}
	if !ok || o.Bit(got.B) != w {
		b.fail(rule, f, fmt.Sprintf("for %s: not always %v%s", cell, want, notes(m)))
	}
}

// word makes an integer of bytes, the first one highest.
func word(m *bits.Machine, bs []*bits.Int, width int, signed bool) *bits.Int {
	var l []bits.Bit
	for i := len(bs) - 1; i >= 0; i-- {
		l = append(l, bs[i].Bits...)
	}
	for len(l) < width {
		l = append(l, 0)
	}
	return m.FromBits(l[:width], signed)
}

// bytesOfWord splits an integer, high byte first.
func bytesOfWord(m *bits.Machine, x *bits.Int) []*bits.Int {
	var r []*bits.Int
	for i := len(x.Bits) - 8; i >= 0; i -= 8 {
		r = append(r, m.FromBits(x.Bits[i:i+8], false))
	}
	return r
}

func (b *bitRun) fn(relPkg, name string) (*ssa.Function, error) {
	f := b.c.P.Func(relPkg, name)
	if f == nil || len(f.Blocks) == 0 {
		return nil, fmt.Errorf("%s.%s is not there", relPkg, name)
	}
	return f, nil
}

func conversions(c *Ctx) (*Result, error) {
	b := newBitRun(c, "Each conversion is interpreted once over bit vectors whose bits are the free bits of its argument; every bit of the result has to be the right bit of the argument.")
	b.res.Rules = []string{"conversion exact"}
	const rule = "conversion exact"
	get := func(n string) *ssa.Function { return c.P.Func("ipnet", n) }
	var missing []string
	need := func(n string) *ssa.Function {
		f := get(n)
		if f == nil {
			missing = append(missing, n)
		}
		return f
	}
	if f := need("Uint32ToIPv4"); f != nil {
		m := b.machine()
		x := m.Input(types.Typ[types.Uint32], "x").(*bits.Int)
		b.wantBytes(m, rule, f, "any x", bytesOfWord(m, x), true, x)
		b.sample("Uint32ToIPv4: byte k of the address is bits %s of x", "31-8k..24-8k")
	}
	if f := need("IPv4ToUint32"); f != nil {
		m := b.machine()
		ip := freeBytes(m, "ip", 4)
		b.wantInt(m, rule, f, "any address of 4 bytes", word(m, ip, 32, false), slice(m, ip))
		long := append(constInts(m, mapped...), ip...)
		b.wantInt(m, rule, f, "any mapped address of 16 bytes", word(m, ip, 32, false), slice(m, long))
		b.sample("IPv4ToUint32: 4-byte and mapped 16-byte addresses, all 32 bits")
	}
	if f := need("Uint64ToIP"); f != nil {
		m := b.machine()
		x := m.Input(types.Typ[types.Uint64], "x").(*bits.Int)
		b.wantBytes(m, rule, f, "any x", append(bytesOfWord(m, x), constInts(m, make([]byte, 8)...)...), false, x)
	}
	if f := need("Uint64ToIP2"); f != nil {
		m := b.machine()
		x := m.Input(types.Typ[types.Uint64], "high").(*bits.Int)
		y := m.Input(types.Typ[types.Uint64], "low").(*bits.Int)
		b.wantBytes(m, rule, f, "any high, low", append(bytesOfWord(m, x), bytesOfWord(m, y)...), false, x, y)
	}
	if f := need("IPv4StrToUint32"); f != nil {
		for _, kind := range []string{"no address", "an IPv4 address", "an IPv6 address"} {
			m := b.machine()
			ip := freeBytes(m, "ip", 4)
			var parsed bits.Value
			want := m.Const(0, 32, false)
			switch kind {
			case "no address":
				parsed = m.NilSlice()
			case "an IPv4 address":
				parsed = slice(m, append(constInts(m, mapped...), ip...))
				want = word(m, ip, 32, false)
			default:
				l := freeBytes(m, "v6", 16)
				setBit(l, 2, 1)
				parsed = slice(m, l)
			}
			m.Models["net.ParseIP"] = func(m *bits.Machine, _ *bits.Site, _ []bits.Value) []bits.Ret {
				return []bits.Ret{{V: parsed}}
			}
			b.wantInt(m, rule, f, "a text that is "+kind, want, m.Input(types.Typ[types.String], "s"))
		}
	}
	if f := b.g.method("db/query", "Db", "QueryU32"); f != nil {
		m := b.machine()
		x := m.Input(types.Typ[types.Uint32], "x").(*bits.Int)
		seen := 0
		name := "(" + load.ModPath + "/db/inf.Query).Query"
		m.Models[name] = func(mm *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
			seen++
			got, ok := mm.Content(bits.Outcome{St: s.St}, args[1])
			if !ok {
				b.fail(rule, f, "the address looked up is not known"+notes(mm))
				return nil
			}
			if d := diffBytes(mm, form16(mm, got), form16(mm, bytesOfWord(mm, x))); d != "" {
				b.fail(rule, f, "the address looked up differs: "+d)
			}
			return []bits.Ret{{V: mm.ResultOf(s)}}
		}
		b.run(m, f, m.Input(f.Params[0].Type(), "q"), x)
		if seen == 0 {
			b.fail(rule, f, "never looks an address up"+notes(m))
		}
	} else {
		missing = append(missing, "Db.QueryU32")
	}
	if len(missing) > 0 {
		return nil, fmt.Errorf("not there: %s", strings.Join(missing, ", "))
	}
	return b.done(), nil
}

// failKey reports a violation under a key of its own.
func (b *bitRun) failKey(rule string, f *ssa.Function, key, msg string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	p := b.c.P.Fset.Position(f.Pos())
	b.res.Violations = append(b.res.Violations, Violation{Key: rule + ": " + key, Site: fmt.Sprintf("%s:%d", rel(b.c.P, p.Filename), p.Line), Func: short(f), Rule: rule, Msg: msg})
}
