package check

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"uipcheck/bits"
	"uipcheck/load"
)

// arith is the check of the address arithmetic of package ipnet.
type arith struct {
	*bitRun
	missing []string
}

func (a *arith) need(name string) *ssa.Function {
	f := a.c.P.Func("ipnet", name)
	if f == nil || len(f.Blocks) == 0 {
		a.missing = append(a.missing, name)
		return nil
	}
	return f
}

func (a *arith) needMethod(typ, name string) *ssa.Function {
	f := a.g.method("ipnet", typ, name)
	if f == nil || len(f.Blocks) == 0 {
		a.missing = append(a.missing, typ+"."+name)
		return nil
	}
	return f
}

func cidrBytes(m *bits.Machine, ones, n int) []*bits.Int {
	bs := make([]byte, n)
	for i := 0; i < ones; i++ {
		bs[i/8] |= 0x80 >> uint(i%8)
	}
	return constInts(m, bs...)
}

// netOf makes a *net.IPNet.
func netOf(m *bits.Machine, t types.Type, ip, mask []*bits.Int) *bits.Ptr {
	return m.New(m.Fields(t, slice(m, ip), slice(m, mask)))
}

func elemOf(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

// firstDiff makes two addresses whose first different bit is k.
func firstDiff(m *bits.Machine, n, k int, left bits.Bit) (x, y []*bits.Int) {
	x = freeBytes(m, "a", n)
	y = copyBytes(x)
	other := freeBytes(m, "b", n)
	for i := k; i < 8*n; i++ {
		setBit(y, i, bitAt(other, i))
	}
	setBit(x, k, left)
	setBit(y, k, 1-left)
	return
}

func addressArith(c *Ctx) (*Result, error) {
	b := newBitRun(c, "Each function of the address arithmetic is interpreted over bit vectors, one cell at a time; the cells (by carry length, first different bit, number of trailing zeros, prefix length) together cover every address. Functions on ranges are interpreted over every order in which their addresses can lie, neighbours and the ends of the address space told apart.")
	b.res.Rules = []string{"arithmetic exact", "ranges exact"}
	a := &arith{bitRun: b}
	a.steps1()
	a.less()
	a.lengths()
	a.nets()
	a.ranges()
	a.blocks()
	if len(a.missing) > 0 {
		sort.Strings(a.missing)
		return nil, fmt.Errorf("not there: %v", a.missing)
	}
	return b.done(), nil
}

const exact = "arithmetic exact"

// steps1 decides NextIP, LastIP, NextStart.
func (a *arith) steps1() {
	next := a.need("NextIP")
	last := a.need("LastIP")
	ns := a.need("NextStart")
	for _, n := range []int{4, 16} {
		if next != nil {
			for t := 0; t <= 8*n; t++ {
				m := a.machine()
				ip := freeBytes(m, "ip", n)
				want := copyBytes(ip)
				for i := 0; i < t; i++ {
					setBit(ip, 8*n-1-i, 1)
					setBit(want, 8*n-1-i, 0)
				}
				if t < 8*n {
					setBit(ip, 8*n-1-t, 0)
					setBit(want, 8*n-1-t, 1)
				}
				a.wantBytes(m, exact, next, fmt.Sprintf("an address of %d bytes that ends in %d one bits", n, t), normAll(m, want), false, slice(m, ip))
			}
		}
		for ones := 0; ones <= 8*n; ones++ {
			if last != nil {
				m := a.machine()
				ip := freeBytes(m, "ip", n)
				want := copyBytes(ip)
				for i := ones; i < 8*n; i++ {
					setBit(want, i, 1)
				}
				t := elemOf(last.Params[0].Type())
				a.wantBytes(m, exact, last, fmt.Sprintf("a /%d network of %d bytes", ones, n), normAll(m, want), false, netOf(m, t, ip, cidrBytes(m, ones, n)))
			}
			if ns == nil {
				continue
			}
			for t := 0; t <= ones; t++ {
				if n == 16 && t > 9 && t < ones-9 && ones%8 != 0 {
					continue // decided with NextIP
				}
				m := a.machine()
				ip := freeBytes(m, "ip", n)
				for i := 0; i < t; i++ {
					setBit(ip, ones-1-i, 1)
				}
				if t < ones {
					setBit(ip, ones-1-t, 0)
				}
				want := copyBytes(ip)
				for i := ones - t; i < 8*n; i++ {
					setBit(want, i, 0)
				}
				if t < ones {
					setBit(want, ones-1-t, 1)
				}
				ty := elemOf(ns.Params[0].Type())
				a.wantBytes(m, exact, ns, fmt.Sprintf("a /%d network of %d bytes whose prefix ends in %d one bits", ones, n, t), normAll(m, want), false, netOf(m, ty, ip, cidrBytes(m, ones, n)))
			}
		}
	}
	a.sample("NextIP: 4 and 16 bytes, every length of the run of trailing ones; the last address wraps to the first")
	a.sample("LastIP: 4 and 16 bytes, every prefix length, any address")
	a.sample("NextStart: every prefix length, every carry")
}

// less decides IPLess, MaskLess and Ranges.Less.
func (a *arith) less() {
	f := a.need("IPLess")
	if f != nil {
		for _, n := range []int{4, 16} {
			m := a.machine()
			x := freeBytes(m, "a", n)
			a.wantBool(m, exact, f, fmt.Sprintf("an address of %d bytes and itself", n), false, slice(m, x), slice(m, copyBytes(x)))
			for k := 0; k < 8*n; k++ {
				for _, l := range []bits.Bit{0, 1} {
					m := a.machine()
					x, y := firstDiff(m, n, k, l)
					a.wantBool(m, exact, f, fmt.Sprintf("two addresses of %d bytes that differ first in bit %d", n, k), l == 0, slice(m, x), slice(m, y))
				}
			}
		}
		for k := 0; k <= 128; k++ {
			m := a.machine()
			v4 := freeBytes(m, "a", 4)
			long := append(constInts(m, mapped...), copyBytes(v4)...)
			other := freeBytes(m, "b", 16)
			for i := k; i < 128; i++ {
				setBit(long, i, bitAt(other, i))
			}
			if k < 96 {
				setBit(long, k, 1-bits.Bit(mapped[k/8]>>uint(7-k%8)&1))
			}
			one := bits.Bit(0)
			for _, l := range []bits.Bit{0, 1} {
				if k >= 96 && k < 128 {
					setBit(v4, k-96, 1-l)
					setBit(long, k, l)
					one = l
				} else if k < 96 {
					one = bitAt(long, k)
				}
				cell := fmt.Sprintf("an address of 4 bytes and one of 16 that differ first in bit %d", k)
				a.wantBool(m, exact, f, cell, k < 128 && one == 1, slice(m, copyBytes(v4)), slice(m, copyBytes(long)))
				a.wantBool(m, exact, f, cell+", the other way round", k < 128 && one == 0, slice(m, copyBytes(long)), slice(m, copyBytes(v4)))
				if k < 96 || k == 128 {
					break
				}
			}
		}
		a.sample("IPLess: lengths 4/4, 16/16, 4/16, 16/4; every position of the first different bit, and equal addresses")
	}
	if f := a.need("MaskLess"); f != nil {
		t := elemOf(f.Params[0].Type())
		for _, n := range []int{4, 16} {
			for x := 0; x <= 8*n; x++ {
				for y := 0; y <= 8*n; y++ {
					if n == 16 && x%8 != 0 && y%8 != 0 && x-y > 2 && y-x > 2 {
						continue
					}
					m := a.machine()
					l := netOf(m, t, freeBytes(m, "a", n), cidrBytes(m, x, n))
					r := netOf(m, t, freeBytes(m, "b", n), cidrBytes(m, y, n))
					a.wantBool(m, exact, f, fmt.Sprintf("networks /%d and /%d of %d bytes", x, y, n), x > y, l, r)
				}
			}
			m := a.machine()
			l := netOf(m, t, freeBytes(m, "a", n), cidrBytes(m, 8, n))
			r := netOf(m, t, freeBytes(m, "b", 20-n), cidrBytes(m, 8, 20-n))
			a.wantBool(m, exact, f, fmt.Sprintf("networks of %d and %d bytes", n, 20-n), n == 4, l, r)
		}
		a.sample("MaskLess: pairs of prefix lengths, and IPv4 against IPv6")
	}
}

// lengths decides the functions that count bits.
func (a *arith) lengths() {
	all, pre, suf, first := a.need("IsAllMask"), a.need("PrefixSameLength"), a.need("SuffixZeroLength"), a.need("IsFirstIP")
	for _, n := range []int{4, 16} {
		for k := 0; k <= 8*n; k++ {
			if all != nil {
				m := a.machine()
				ip := freeBytes(m, "ip", n)
				for i := 0; i < k; i++ {
					setBit(ip, i, 1)
				}
				if k < 8*n {
					setBit(ip, k, 0)
				}
				a.wantBool(m, exact, all, fmt.Sprintf("%d bytes whose first zero bit is bit %d", n, k), k == 8*n, slice(m, ip))
			}
			if pre != nil && k < 8*n {
				for _, l := range []bits.Bit{0, 1} {
					m := a.machine()
					x, y := firstDiff(m, n, k, l)
					a.wantInt(m, exact, pre, fmt.Sprintf("addresses of %d bytes that differ first in bit %d", n, k), m.Const(uint64(k), 64, true), slice(m, x), slice(m, y))
				}
			}
			if pre != nil && k == 8*n {
				m := a.machine()
				x := freeBytes(m, "a", n)
				a.wantInt(m, exact, pre, fmt.Sprintf("equal addresses of %d bytes", n), m.Const(uint64(k), 64, true), slice(m, x), slice(m, copyBytes(x)))
			}
			if suf != nil {
				m := a.machine()
				ip := freeBytes(m, "ip", n)
				for i := 0; i < k; i++ {
					setBit(ip, 8*n-1-i, 0)
				}
				if k < 8*n {
					setBit(ip, 8*n-1-k, 1)
				}
				a.wantInt(m, exact, suf, fmt.Sprintf("an address of %d bytes that ends in %d zero bits", n, k), m.Const(uint64(k), 64, true), slice(m, ip))
			}
			if first != nil {
				for _, v6 := range []bits.Bit{0, 1} {
					lo := 0
					if v6 == 0 && n == 16 {
						lo = 96
					}
					if k < lo {
						continue
					}
					m := a.machine()
					ip := freeBytes(m, "ip", n)
					for i := lo; i < k; i++ {
						setBit(ip, i, 0)
					}
					if k < 8*n {
						setBit(ip, k, 1)
					}
					a.wantBool(m, exact, first, fmt.Sprintf("an address of %d bytes whose first one bit is bit %d, ipv6 %d", n, k, v6), k == 8*n && (n == 16 || v6 == 0), slice(m, ip), &bits.Bool{B: v6})
				}
			}
		}
	}
	a.sample("PrefixSameLength, SuffixZeroLength, IsAllMask, IsFirstIP: 4 and 16 bytes, every position of the deciding bit")
}

// nets decides IpNet and NewRange.
func (a *arith) nets() {
	wantNet := func(m *bits.Machine, f *ssa.Function, cell string, ip, mask []*bits.Int, args ...bits.Value) {
		o, ok := a.single(m, exact, f, a.run(m, f, args...), cell)
		if !ok {
			return
		}
		a.isNet(m, f, cell, o, o.Res[0], ip, mask)
	}
	if f := a.need("IpNet"); f != nil {
		masked := func(l []*bits.Int, ones int) []*bits.Int {
			r := copyBytes(l)
			for i := ones; i < 8*len(l); i++ {
				setBit(r, i, 0)
			}
			return r
		}
		for ones := 0; ones <= 32; ones++ {
			m := a.machine()
			ip := freeBytes(m, "ip", 4)
			cell := fmt.Sprintf("an IPv4 address and prefix length %d", ones)
			wantNet(m, f, cell, normAll(m, masked(ip, ones)), cidrBytes(m, ones, 4), slice(m, copyBytes(ip)), m.Const(uint64(ones), 64, true))
			long := append(constInts(m, mapped...), copyBytes(ip)...)
			wantNet(m, f, cell+" (16 bytes)", normAll(m, masked(ip, ones)), cidrBytes(m, ones, 4), slice(m, long), m.Const(uint64(ones), 64, true))
		}
		for ones := 0; ones <= 128; ones++ {
			for k := 0; k < 96; k++ {
				if ones%16 != 0 && k != (ones*7)%96 && k != 0 && k != 95 {
					continue
				}
				m := a.machine()
				ip := freeBytes(m, "ip", 16)
				for i := 0; i <= k; i++ {
					v := bits.Bit(mapped[i/8] >> uint(7-i%8) & 1)
					if i == k {
						v = 1 - v
					}
					setBit(ip, i, v)
				}
				wantNet(m, f, fmt.Sprintf("an IPv6 address and prefix length %d", ones), normAll(m, masked(ip, ones)), cidrBytes(m, ones, 16), slice(m, copyBytes(ip)), m.Const(uint64(ones), 64, true))
			}
		}
		a.sample("IpNet: IPv4 with 0..32, IPv6 with 0..128 ones, any address")
	}
	if f := a.need("NewRange"); f != nil {
		t := elemOf(f.Params[0].Type())
		for _, n := range []int{4, 16} {
			for ones := 0; ones <= 8*n; ones++ {
				m := a.machine()
				ip := freeBytes(m, "ip", n)
				for i := ones; i < 8*n; i++ {
					setBit(ip, i, 0)
				}
				end := copyBytes(ip)
				for i := ones; i < 8*n; i++ {
					setBit(end, i, 1)
				}
				cell := fmt.Sprintf("a /%d network of %d bytes", ones, n)
				o, ok := a.single(m, exact, f, a.run(m, f, netOf(m, t, copyBytes(ip), cidrBytes(m, ones, n))), cell)
				if !ok {
					continue
				}
				for i, want := range [][]*bits.Int{ip, end} {
					got, ok := m.Content(o, m.Deref(o, o.Res[0], i))
					if !ok {
						a.fail(exact, f, "for "+cell+": the range made is not known"+notes(m))
						continue
					}
					if d := diffBytes(m, got, form16(m, normAll(m, copyBytes(want)))); d != "" {
						a.fail(exact, f, fmt.Sprintf("for %s: %s of the range: %s", cell, []string{"start", "end"}[i], d))
					}
				}
			}
		}
		a.sample("NewRange: every prefix length, both address lengths; start and end in 16 bytes")
	}
}

func (a *arith) isNet(m *bits.Machine, f *ssa.Function, cell string, o bits.Outcome, v bits.Value, ip, mask []*bits.Int) {
	gi, ok1 := m.Content(o, m.Deref(o, v, 0))
	gm, ok2 := m.Content(o, m.Deref(o, v, 1))
	if !ok1 || !ok2 {
		a.fail(exact, f, "for "+cell+": the network made is not known"+notes(m))
		return
	}
	if d := diffBytes(m, form16(m, gi), form16(m, ip)); d != "" {
		a.fail(exact, f, "for "+cell+": address of the network: "+d)
	}
	if d := diffBytes(m, gm, mask); d != "" {
		a.fail(exact, f, "for "+cell+": mask: "+d)
	}
}

// order is one way a few addresses can lie: their positions in a small address
// space whose last address is end.
type order struct {
	m   *bits.Machine
	pos map[string]int
	val map[string][]*bits.Int
	end int
	bad string
}

func newOrder(m *bits.Machine, end int) *order {
	o := &order{m: m, pos: map[string]int{}, val: map[string][]*bits.Int{}, end: end}
	two := func(f func(x, y int) bits.Value) func(*bits.Machine, *bits.Site, []bits.Value) []bits.Ret {
		return func(mm *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
			x, ok1 := o.at(s.StateOf(), args[0])
			y, ok2 := o.at(s.StateOf(), args[1])
			if !ok1 || !ok2 {
				o.bad = "an address that is none of those given is compared"
				return nil
			}
			return []bits.Ret{{V: f(x, y)}}
		}
	}
	truth := func(v bool) bits.Value {
		if v {
			return &bits.Bool{B: 1}
		}
		return &bits.Bool{B: 0}
	}
	mod := load.ModPath + "/ipnet."
	m.Models[mod+"IPLess"] = two(func(x, y int) bits.Value { return truth(x < y) })
	m.Models["bytes.Compare"] = two(func(x, y int) bits.Value {
		switch {
		case x < y:
			return m.Const(^uint64(0), 64, true)
		case x > y:
			return m.Const(1, 64, true)
		}
		return m.Const(0, 64, true)
	})
	eq := two(func(x, y int) bits.Value { return truth(x == y) })
	m.Models["bytes.Equal"] = eq
	m.Models["internal/bytealg.Equal"] = eq
	m.Models["(net.IP).Equal"] = eq
	m.Models[mod+"NextIP"] = func(mm *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		x, ok := o.at(s.StateOf(), args[0])
		if !ok {
			o.bad = "NextIP of an address that is none of those given"
			return nil
		}
		return []bits.Ret{{V: slice(m, o.add(fmt.Sprintf("next%d", x), (x+1)%(end+1)))}}
	}
	return o
}

// add makes an address of 16 bytes.
func (o *order) add(name string, pos int) []*bits.Int {
	l := freeBytes(o.m, name+".", 16)
	setBit(l, 3, 1) // not a mapped address
	normAll(o.m, l)
	o.pos[o.m.ListKey(l)] = pos
	return copyBytes(l)
}

func (o *order) add4(name string, pos int) []*bits.Int {
	l := normAll(o.m, freeBytes(o.m, name+".", 4))
	o.pos[o.m.ListKey(form16(o.m, l))] = pos
	return copyBytes(l)
}

func (o *order) at(st bits.Outcome, v bits.Value) (int, bool) {
	l, ok := o.m.Content(st, v)
	if !ok {
		return 0, false
	}
	p, ok := o.pos[o.m.ListKey(form16(o.m, l))]
	return p, ok
}

// orders lists the ways n addresses can lie in a space of end+1 addresses,
// one of each kind: only order, being neighbours, and being the first or last
// address count.
func orders(n, end int, keep func(p []int) bool) [][]int {
	seen := map[string]bool{}
	var r [][]int
	p := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			if !keep(p) {
				return
			}
			k := ""
			clip := func(d int) int {
				if d > 2 {
					return 2
				}
				if d < -2 {
					return -2
				}
				return d
			}
			for x := 0; x < n; x++ {
				k += fmt.Sprintf("%v%v", p[x] == 0, p[x] == end)
				for y := 0; y < x; y++ {
					k += fmt.Sprint(clip(p[x]-p[y]), ",")
				}
			}
			if !seen[k] {
				seen[k] = true
				r = append(r, append([]int(nil), p...))
			}
			return
		}
		for v := 0; v <= end; v++ {
			p[i] = v
			rec(i + 1)
		}
	}
	rec(0)
	return r
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max2(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// ranges decides the functions on ranges.
func (a *arith) ranges() {
	const rule = "ranges exact"
	const top = 8
	rt := func() types.Type {
		p := a.c.P.Pkg("ipnet")
		if p == nil || p.Pkg.Scope().Lookup("Range") == nil {
			return nil
		}
		return p.Pkg.Scope().Lookup("Range").Type()
	}()
	if rt == nil {
		a.missing = append(a.missing, "Range")
		return
	}
	name := func(p []int, what ...string) string {
		s := ""
		for i, w := range what {
			if i > 0 {
				s += ", "
			}
			s += fmt.Sprintf("%s=%d", w, p[i])
		}
		return s + fmt.Sprintf(" in 0..%d", top)
	}
	// run one order; what comes back is compared by position.
	eval := func(f *ssa.Function, o *order, cell string, want bool, r *bits.Ptr, ws, we int, args ...bits.Value) {
		out, ok := a.single(o.m, rule, f, a.run(o.m, f, args...), cell)
		if !ok {
			return
		}
		if o.bad != "" {
			a.fail(rule, f, "for "+cell+": "+o.bad)
			return
		}
		g, ok := out.Res[0].(*bits.Bool)
		w := bits.Bit(0)
		if want {
			w = 1
		}
		if !ok || out.Bit(g.B) != w {
			a.fail(rule, f, fmt.Sprintf("for %s: not always %v", cell, want))
			return
		}
		if r == nil {
			return
		}
		gs, ok1 := o.at(out, o.m.Deref(out, r, 0))
		ge, ok2 := o.at(out, o.m.Deref(out, r, 1))
		if !ok1 || !ok2 {
			a.fail(rule, f, "for "+cell+": the range left is not one of the addresses given")
		} else if gs != ws || ge != we {
			a.fail(rule, f, fmt.Sprintf("for %s: leaves %d..%d, not %d..%d", cell, gs, ge, ws, we))
		}
	}
	mk := func(o *order, p []int, names ...string) []bits.Value {
		var r []bits.Value
		for i, n := range names {
			r = append(r, slice(o.m, o.add(n, p[i])))
		}
		return r
	}
	if f := a.need("Contains"); f != nil {
		for _, p := range orders(3, top, func(p []int) bool { return true }) {
			m := a.machine()
			o := newOrder(m, top)
			v := mk(o, p, "start", "end", "ip")
			eval(f, o, name(p, "start", "end", "ip"), p[0] <= p[2] && p[2] <= p[1], nil, 0, 0, v...)
		}
	}
	if f := a.needMethod("Range", "Contains"); f != nil {
		for _, p := range orders(3, top, func(p []int) bool { return true }) {
			m := a.machine()
			o := newOrder(m, top)
			v := mk(o, p, "start", "end", "ip")
			r := m.New(m.Fields(rt, v[0], v[1]))
			eval(f, o, name(p, "start", "end", "ip"), p[0] <= p[2] && p[2] <= p[1], r, p[0], p[1], r, v[2])
		}
	}
	valid := func(p []int) bool { return p[0] <= p[1] && p[2] <= p[3] }
	joined := func(p []int) (bool, int) {
		if p[2] >= p[0] && p[2] <= p[1]+1 {
			return true, max2(p[1], p[3])
		}
		return false, p[1]
	}
	if f := a.needMethod("Range", "Join"); f != nil {
		for _, p := range orders(4, top, valid) {
			m := a.machine()
			o := newOrder(m, top)
			v := mk(o, p, "s", "e", "s2", "e2")
			r := m.New(m.Fields(rt, v[0], v[1]))
			r2 := m.New(m.Fields(rt, v[2], v[3]))
			ok, end := joined(p)
			eval(f, o, name(p, "start", "end", "start2", "end2"), ok, r, p[0], end, r, r2)
		}
	}
	if f := a.needMethod("Range", "JoinIPNet"); f != nil {
		nt := elemOf(f.Params[1].Type())
		for _, four := range []bool{false, true} {
			for _, p := range orders(4, top, valid) {
				m := a.machine()
				o := newOrder(m, top)
				v := mk(o, p, "s", "e")
				var ip, last []*bits.Int
				if four {
					ip, last = o.add4("s2", p[2]), o.add4("e2", p[3])
				} else {
					ip, last = o.add("s2", p[2]), o.add("e2", p[3])
				}
				n := netOf(m, nt, copyBytes(ip), freeBytes(m, "mask", len(ip)))
				m.Models[load.ModPath+"/ipnet.LastIP"] = func(mm *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
					if x, ok := args[0].(*bits.Ptr); !ok || x.Obj != n.Obj {
						o.bad = "LastIP of another network"
						return nil
					}
					return []bits.Ret{{V: slice(mm, copyBytes(last))}}
				}
				r := m.New(m.Fields(rt, v[0], v[1]))
				ok, end := joined(p)
				eval(f, o, name(p, "start", "end", "first of the network", "last of the network"), ok, r, p[0], end, r, n)
			}
		}
	}
	if f := a.needMethod("Range", "CommonRange"); f != nil {
		for _, p := range orders(5, top+1, valid) {
			m := a.machine()
			o := newOrder(m, top+1)
			v := mk(o, p, "s", "e", "s2", "e2", "ip")
			r := m.New(m.Fields(rt, v[0], v[1]))
			r2 := m.New(m.Fields(rt, v[2], v[3]))
			lo, hi := max2(p[0], p[2]), min2(p[1], p[3])
			ok := lo <= p[4] && p[4] <= hi
			if !ok {
				lo, hi = p[0], p[1]
			}
			eval(f, o, name(p, "start", "end", "start2", "end2", "ip"), ok, r, lo, hi, r, v[4], r2)
		}
	}
	if f := a.needMethod("Ranges", "Less"); f != nil {
		for _, p := range orders(4, top, valid) {
			m := a.machine()
			o := newOrder(m, top)
			v := mk(o, p, "s", "e", "s2", "e2")
			l := m.List(rt, m.Fields(rt, v[0], v[1]), m.Fields(rt, v[2], v[3]))
			eval(f, o, name(p, "start", "end", "start2", "end2"), p[0] < p[2], nil, 0, 0, l, m.Const(0, 64, true), m.Const(1, 64, true))
		}
	}
	a.sample("Contains, Join, JoinIPNet, CommonRange, Ranges.Less: every order of the addresses, neighbours and both ends of the address space")
}

// blocks decides IPNets: each block starts where the last one ended, is the
// largest aligned one inside the range, and the last one ends with the range.
func (a *arith) blocks() {
	f := a.needMethod("Range", "IPNets")
	if f == nil {
		return
	}
	const rule = "ranges exact"
	rt := elemOf(f.Params[0].Type())
	const n = 16
	a.each(129, func(t int) {
		// a start that ends in t zero bits
		start := func(m *bits.Machine) []*bits.Int {
			l := freeBytes(m, "start", n)
			for i := 0; i < t; i++ {
				setBit(l, 127-i, 0)
			}
			if t < 128 {
				setBit(l, 127-t, 1)
			}
			return l
		}
		zero := make([]byte, n)
		for k := 0; k < 128; k++ {
			for where := 0; where < 3; where++ {
				if k != 127-t {
					// the address after the range is larger, first in bit k
					m := a.machine()
					st := start(m)
					setBit(st, k, 0)
					after := copyBytes(st)
					other := freeBytes(m, "after", n)
					for i := k; i < 128; i++ {
						setBit(after, i, bitAt(other, i))
					}
					setBit(after, k, 1)
					a.block(f, rule, rt, m, st, after, t, k, where)
				}
				if k <= 127-t {
					// the range ends at the last address
					m := a.machine()
					st := start(m)
					for i := 0; i < k; i++ {
						setBit(st, i, 0)
					}
					setBit(st, k, 1)
					a.block(f, rule, rt, m, st, constInts(m, zero...), t, k, where)
				}
			}
		}
		if t == 128 {
			m := a.machine()
			a.block(f, rule, rt, m, start(m), constInts(m, zero...), t, 128, 0)
		}
	})
	a.sample("IPNets: every alignment of the start and every first different bit of start and end+1; the following blocks by the order of the addresses")
}

// block follows one round of a range: where the block ends with the range
// (where = 0), one address before it (1), or earlier (2).
func (a *arith) block(f *ssa.Function, rule string, rt types.Type, m *bits.Machine, st, after []*bits.Int, t, k, where int) {
	end := freeBytes(m, "end", 16)
	setBit(end, 0, 1)
	next := freeBytes(m, "next", 16)
	setBit(next, 127, 1)
	setBit(next, 0, bitAt(after, 0)^1)
	normAll(m, end)
	normAll(m, next)
	normAll(m, st)
	normAll(m, after)
	cidr := max2(128-t, k+1)
	if k == 128 {
		cidr = 0
	}
	last := copyBytes(st)
	for i := cidr; i < 128; i++ {
		setBit(last, i, 1)
	}
	normAll(m, last)
	o := newOrder(m, 9)
	o.pos[m.ListKey(st)] = 1
	o.pos[m.ListKey(last)] = 2
	o.pos[m.ListKey(next)] = 3
	o.pos[m.ListKey(end)] = 2 + where
	r := m.New(m.Fields(rt, slice(m, copyBytes(st)), slice(m, copyBytes(end))))
	endKey, lastKey := m.ListKey(end), m.ListKey(last)
	mod := load.ModPath + "/ipnet."
	cell := fmt.Sprintf("a start that ends in %d zero bits and differs from the address after the range first in bit %d, the range ending %d addresses after the block", t, k, where)
	var first *bits.Ptr
	var state bits.Outcome
	second := false
	m.Models[mod+"NextIP"] = func(mm *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		l, _ := mm.Content(s.StateOf(), args[0])
		switch mm.ListKey(l) {
		case endKey:
			return []bits.Ret{{V: slice(mm, copyBytes(after))}}
		case lastKey:
			return []bits.Ret{{V: slice(mm, copyBytes(next))}}
		}
		o.bad = "NextIP of an address that is neither the end nor the end of the block"
		return []bits.Ret{}
	}
	m.Models[mod+"LastIP"] = func(mm *bits.Machine, s *bits.Site, args []bits.Value) []bits.Ret {
		if first == nil {
			first, _ = args[0].(*bits.Ptr)
			state = s.StateOf()
			return nil
		}
		if l, _ := mm.Content(s.StateOf(), mm.Deref(s.StateOf(), args[0], 0)); mm.ListKey(l) == mm.ListKey(next) {
			second = true
			return []bits.Ret{}
		}
		return nil
	}
	out := a.run(m, f, r)
	switch {
	case first == nil:
		a.fail(rule, f, "for "+cell+": makes no block"+notes(m))
		return
	case o.bad != "":
		a.isNet(m, f, cell, state, first, st, cidrBytes(m, cidr, 16))
		a.fail(rule, f, "for "+cell+": "+o.bad)
		return
	}
	if where > 0 {
		a.isNet(m, f, cell, state, first, st, cidrBytes(m, cidr, 16))
		if !second || len(out) > 0 {
			a.fail(rule, f, "for "+cell+": no block starts right after the first one"+notes(m))
		}
		return
	}
	if second || len(out) != 1 || m.Len(out[0], out[0].Res[0]) != 1 {
		a.fail(rule, f, "for "+cell+": not one block only"+notes(m))
		return
	}
	a.isNet(m, f, cell, out[0], m.ElemAt(out[0], out[0].Res[0], 0), st, cidrBytes(m, cidr, 16))
}
