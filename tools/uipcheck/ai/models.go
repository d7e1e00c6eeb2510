package ai

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) registerModels() {
	registerReflect(e)
	e.registerNet()
	e.registerText()
	e.registerIO()
	e.registerMisc()
}

// pendErr notes an error the program must not lose.
func (e *Eng) pendErr(st *State, n Nilness, site ssa.Instruction, what string) {
	if !e.pendOn || n.k == 1 {
		return
	}
	w, _ := e.where(st, site)
	for _, p := range st.pend {
		if p.site == what+" at "+w && p.n == n {
			return
		}
	}
	// a settled error of the same origin need not be kept
	var keep []pend
	for _, p := range st.pend {
		if p.site == what+" at "+w && st.nilOf(p.n) == 1 {
			continue
		}
		keep = append(keep, p)
	}
	st.pend = append(keep, pend{n, what + " at " + w})
}

// errVal is an error that may be nil.
func (e *Eng) errVal(tag string) IfaceV {
	return IfaceV{n: Nilness{k: 2, id: e.freshID()}, id: e.freshID(), tag: tag}
}

func (e *Eng) tagBytes(st *State, s SliceV, kv map[string]Val) {
	o := st.heap[s.obj].copy()
	ext := map[string]Val{}
	for k, v := range o.ext {
		ext[k] = v
	}
	for k, v := range kv {
		ext[k] = v
	}
	o.ext = ext
	st.heap[s.obj] = o
}

// isV4 is the condition under which To4 of s succeeds.
func (e *Eng) isV4(st *State, s SliceV) Cond {
	if st.nilOf(s.n) == 1 {
		return CConst(false)
	}
	if n, ok := s.len.constInt(); ok {
		if n == 4 {
			return CConst(true)
		}
		if n != 16 {
			return CConst(false)
		}
	}
	o := st.heap[s.obj]
	if o == nil {
		return CFact{e.freshID()}
	}
	k := "v4@" + s.off.String() + "/" + s.len.String()
	if b, ok := o.ext[k].(BoolV); ok {
		return b.c
	}
	if s.off.isConst() && s.off.k.sign() == 0 {
		k = "v4"
		if b, ok := o.ext[k].(BoolV); ok {
			return b.c
		}
	}
	c := CFact{e.freshID()}
	if e.initHeap[s.obj] != nil {
		return c
	}
	e.tagBytes(st, s, map[string]Val{k: BoolV{c}})
	return c
}

func (e *Eng) asSlice(st *State, v Val) (SliceV, bool) {
	s, ok := v.(SliceV)
	return s, ok
}

func (e *Eng) newIP(st *State, n int64, v4 Cond) SliceV {
	s := e.makeBytes(st, lc(n))
	if v4 != nil && n == 16 {
		e.tagBytes(st, s, map[string]Val{"v4": BoolV{v4}})
	}
	return s
}

func (e *Eng) newMask(st *State, n int64, ones Lin) SliceV {
	s := e.makeBytes(st, lc(n))
	e.tagBytes(st, s, map[string]Val{"ones": IntV{ones}})
	return s
}

func (e *Eng) registerNet() {
	R := func(name string, m model) { e.models[name] = m }
	to4 := func(e *Eng, st *State, c *cctx) []ret {
		s, ok := c.args[0].(SliceV)
		if !ok {
			return one(st, e.topVal(st, c.sig.Results().At(0).Type(), "to4", 1, false))
		}
		var out []ret
		cond := e.isV4(st, s)
		n := st.clone()
		for _, x := range n.assume(cond, true) {
			if s.len.isConst() {
				r := s
				r.n = nonNil
				if s.len.k.eq(zi(16)) {
					r.off = s.off.addc(12)
					r.len, r.cap = lc(4), lc(4)
				}
				out = append(out, ret{x, []Val{r}})
				continue
			}
			// 4 bytes of s
			sh := e.tab.freshIn("shift", zi(0), zi(12))
			if !x.assumeLin(lc(4).sub(s.len), false) || !x.assumeLin(s.len.addc(-16), false) {
				continue
			}
			e.tab.info[sh].cons = append(e.tab.info[sh].cons, &Con{e: ls(sh).addc(4).sub(s.len), eq: true})
			out = append(out, ret{x, []Val{SliceV{n: nonNil, obj: s.obj, off: s.off.add(ls(sh)), len: lc(4), cap: lc(4)}}})
		}
		for _, x := range st.assume(cond, false) {
			out = append(out, ret{x, []Val{SliceV{n: isNil}}})
		}
		return out
	}
	R("(net.IP).To4", to4)
	R("(net.IP).To16", func(e *Eng, st *State, c *cctx) []ret {
		s, ok := c.args[0].(SliceV)
		if !ok {
			return one(st, e.topVal(st, c.sig.Results().At(0).Type(), "to16", 1, false))
		}
		if st.nilOf(s.n) == 1 {
			return one(st, s)
		}
		var out []ret
		// 4 bytes
		n := st.clone()
		if n.assumeLin(s.len.addc(-4), true) {
			out = append(out, ret{n, []Val{e.newIP(n, 16, CConst(true))}})
		}
		n = st.clone()
		if n.assumeLin(s.len.addc(-16), true) {
			r := s
			r.n, r.len = nonNil, lc(16)
			out = append(out, ret{n, []Val{r}})
		}
		for _, a := range st.assume(CCmp{s.len.addc(-4), true}, false) {
			for _, b := range a.assume(CCmp{s.len.addc(-16), true}, false) {
				out = append(out, ret{b, []Val{SliceV{n: isNil}}})
			}
		}
		return out
	})
	R("net.ParseIP", func(e *Eng, st *State, c *cctx) []ret {
		n := st.clone()
		v4 := Cond(CFact{e.freshID()})
		known := false
		if s, ok := c.args[0].(StrV); ok {
			if k, ok := st.strConst(s); ok {
				ip := parseIPConst(k)
				if ip == 0 {
					return one(st, SliceV{n: isNil})
				}
				v4, known = CConst(ip == 4), true
			}
		}
		out := []ret{{st, []Val{e.newIP(st, 16, v4)}}}
		if !known {
			out = append(out, ret{n, []Val{SliceV{n: isNil}}})
		}
		return out
	})
	R("net.IPv4", func(e *Eng, st *State, c *cctx) []ret { return one(st, e.newIP(st, 16, CConst(true))) })
	R("net.ParseCIDR", func(e *Eng, st *State, c *cctx) []ret {
		bad := st.clone()
		six := st.clone()
		netT := c.sig.Results().At(1).Type().(*types.Pointer).Elem()
		mk := func(s *State, n int64, v4 bool) ret {
			ones := ls(e.tab.freshIn("ones", zi(0), zi(8*n)))
			cell := e.newCell(s, netT, StructV{[]Val{e.newIP(s, n, bconst(v4 && n == 4).c), e.newMask(s, n, ones)}}, "ipnet")
			return ret{s, []Val{e.newIP(s, 16, CConst(v4)), PtrV{obj: cell}, IfaceV{n: isNil}}}
		}
		a := mk(st, 4, true)
		// a v6 network may still be written in the v4-mapped form
		b := mk(six, 16, false)
		v := CFact{e.freshID()}
		nt := six.heap[b.vals[1].(PtrV).obj].cell.(StructV)
		e.tagBytes(six, nt.f[0].(SliceV), map[string]Val{"v4": BoolV{v}})
		e.tagBytes(six, b.vals[0].(SliceV), map[string]Val{"v4": BoolV{v}})
		return []ret{a, b, {bad, []Val{SliceV{n: isNil}, PtrV{n: isNil}, IfaceV{n: nonNil, id: e.freshID(), tag: "net.ParseCIDR"}}}}
	})
	R("net.CIDRMask", func(e *Eng, st *State, c *cctx) []ret {
		ones, ok1 := c.args[0].(IntV)
		bits, ok2 := c.args[1].(IntV)
		if !ok1 || !ok2 {
			return one(st, e.topVal(st, c.sig.Results().At(0).Type(), "mask", 1, false))
		}
		var out []ret
		for _, n := range []int64{4, 16} {
			s := st.clone()
			if s.assumeLin(bits.L.addc(-8*n), true) && s.assumeLin(ones.L.neg(), false) && s.assumeLin(ones.L.addc(-8*n), false) {
				out = append(out, ret{s, []Val{e.newMask(s, n, ones.L)}})
			}
		}
		// invalid: nil
		nilSt := func(s *State) { out = append(out, ret{s, []Val{SliceV{n: isNil}}}) }
		s := st.clone()
		if s.assumeLin(ones.L.addc(1), false) {
			nilSt(s)
		}
		s = st.clone()
		if s.assumeLin(bits.L.sub(ones.L).addc(1), false) {
			nilSt(s)
		}
		for _, a := range st.assume(CCmp{bits.L.addc(-32), true}, false) {
			for _, b := range a.assume(CCmp{bits.L.addc(-128), true}, false) {
				nilSt(b)
			}
		}
		return out
	})
	R("(net.IPMask).Size", func(e *Eng, st *State, c *cctx) []ret {
		m, ok := c.args[0].(SliceV)
		if !ok {
			return e.extResult(st, c.sig, "size")
		}
		if st.nilOf(m.n) == 1 {
			return one(st, IntV{lc(0)}, IntV{lc(0)})
		}
		if o := st.heap[m.obj]; o != nil {
			if ones, ok := o.ext["ones"].(IntV); ok {
				return one(st, ones, IntV{m.len.mulc(8)})
			}
		}
		n := st.clone()
		ones := e.tab.freshIn("ones", zi(0), maxLen)
		e.tab.info[ones].cons = append(e.tab.info[ones].cons, &Con{e: ls(ones).sub(m.len.mulc(8))})
		if e.initHeap[m.obj] == nil && m.off.isConst() {
			e.tagBytes(st, m, map[string]Val{"ones": IntV{ls(ones)}})
		}
		return []ret{{st, []Val{IntV{ls(ones)}, IntV{m.len.mulc(8)}}}, {n, []Val{IntV{lc(0)}, IntV{lc(0)}}}}
	})
	R("(net.IP).Mask", func(e *Eng, st *State, c *cctx) []ret {
		ip, ok1 := c.args[0].(SliceV)
		m, ok2 := c.args[1].(SliceV)
		if !ok1 || !ok2 {
			return one(st, e.topVal(st, c.sig.Results().At(0).Type(), "masked", 1, false))
		}
		li, _ := e.lenOf(st, ip)
		lm, _ := e.lenOf(st, m)
		if st.cs.entailsEQ(li.sub(lm)) {
			r := e.makeBytes(st, li)
			if li.isConst() && li.k.eq(zi(16)) {
				if b, ok := e.isV4(st, ip).(CConst); ok && !bool(b) {
					_ = b
				}
			}
			return one(st, r)
		}
		var out []ret
		n := st.clone()
		if li.isConst() && lm.isConst() && li.k.eq(zi(16)) && lm.k.eq(zi(4)) {
			cond := e.isV4(st, ip)
			for _, x := range n.assume(cond, true) {
				out = append(out, ret{x, []Val{e.makeBytes(x, lc(4))}})
			}
			for _, x := range st.assume(cond, false) {
				out = append(out, ret{x, []Val{SliceV{n: isNil}}})
			}
			return out
		}
		if li.isConst() && lm.isConst() && li.k.eq(zi(4)) && lm.k.eq(zi(16)) {
			// the mask of a v4 network in the long form
			out = append(out, ret{n, []Val{e.makeBytes(n, lc(4))}})
			return append(out, ret{st, []Val{SliceV{n: isNil}}})
		}
		l := e.tab.freshIn("masked", zi(0), maxLen)
		e.tab.info[l].cons = append(e.tab.info[l].cons, &Con{e: ls(l).sub(li)})
		return []ret{{n, []Val{e.makeBytes(n, ls(l))}}, {st, []Val{SliceV{n: isNil}}}}
	})
	R("(net.IP).String", func(e *Eng, st *State, c *cctx) []ret { return one(st, e.freshStr("ip")) })
	R("(net.IP).Equal", func(e *Eng, st *State, c *cctx) []ret { return one(st, BoolV{CFact{e.freshID()}}) })
	R("(*net.IPNet).String", func(e *Eng, st *State, c *cctx) []ret {
		var out []ret
		p, ok := c.args[0].(PtrV)
		if !ok {
			return one(st, e.freshStr("net"))
		}
		for _, s := range e.need(st, c.site, "nil", "method of nil pointer", CNot{nilCond(p.n)}) {
			out = append(out, ret{s, []Val{e.freshStr("net")}})
		}
		return out
	})
	R("(*net.IPNet).Contains", func(e *Eng, st *State, c *cctx) []ret {
		p, ok := c.args[0].(PtrV)
		if !ok {
			return one(st, BoolV{CFact{e.freshID()}})
		}
		var out []ret
		for _, s := range e.need(st, c.site, "nil", "method of nil pointer", CNot{nilCond(p.n)}) {
			out = append(out, ret{s, []Val{BoolV{CFact{e.freshID()}}}})
		}
		return out
	})
}

func parseIPConst(s string) int {
	if strings.Count(s, ".") == 3 && !strings.Contains(s, ":") {
		return 4
	}
	if strings.Contains(s, ":") {
		return 6
	}
	return 0
}

func (e *Eng) boundedInt(st *State, lo int64, hi Lin) IntV {
	s := e.tab.freshIn("n", zi(lo), maxLen)
	e.tab.info[s].cons = append(e.tab.info[s].cons, &Con{e: ls(s).sub(hi)})
	return IntV{ls(s)}
}

func (e *Eng) strSlice(st *State, n Lin, of *StrV) SliceV {
	o := &Obj{kind: kArr, t: types.Typ[types.String], site: "strings"}
	if of != nil {
		o.ext = map[string]Val{"split": *of}
	}
	return SliceV{n: nonNil, obj: e.newObj(st, o), off: lc(0), len: n, cap: n}
}

func (e *Eng) subStr(st *State, of Val, name string) StrV {
	s := e.freshStr(name)
	if l, ok := e.lenOf(st, of); ok {
		k := e.tab.freshIn("len "+name, zi(0), maxLen)
		e.tab.info[k].cons = append(e.tab.info[k].cons, &Con{e: ls(k).sub(l)})
		s.n = ls(k)
	}
	return s
}

func (e *Eng) registerText() {
	R := func(name string, m model) { e.models[name] = m }
	R("strings.Split", func(e *Eng, st *State, c *cctx) []ret {
		s, ok1 := c.args[0].(StrV)
		sep, ok2 := c.args[1].(StrV)
		if !ok1 || !ok2 {
			return e.extResult(st, c.sig, "split")
		}
		lo := int64(0)
		if k, ok := st.strConst(sep); ok && k != "" {
			lo = 1
			if v, ok := st.strConst(s); ok {
				parts := strings.Split(v, k)
				r := e.strSlice(st, lc(int64(len(parts))), &s)
				o := st.heap[r.obj].copy()
				o.known = map[int64]Val{}
				for i, p := range parts {
					o.known[int64(i)] = strVal(p)
				}
				st.heap[r.obj] = o
				return one(st, r)
			}
		}
		n := e.boundedInt(st, lo, s.n.addc(1))
		return one(st, e.strSlice(st, n.L, &s))
	})
	splitN := func(e *Eng, st *State, c *cctx) []ret {
		s, ok1 := c.args[0].(StrV)
		sep, ok2 := c.args[1].(StrV)
		k, ok3 := c.args[2].(IntV)
		if !ok1 || !ok2 || !ok3 {
			return e.extResult(st, c.sig, "split")
		}
		lo := int64(0)
		if x, ok := st.strConst(sep); ok && x != "" && k.L.isConst() && k.L.k.sign() != 0 {
			lo = 1
		}
		n := e.boundedInt(st, lo, s.n.addc(1))
		if k.L.isConst() && k.L.k.sign() > 0 {
			st.assumeLin(n.L.sub(k.L), false)
		}
		return one(st, e.strSlice(st, n.L, &s))
	}
	R("strings.SplitN", splitN)
	R("strings.Fields", func(e *Eng, st *State, c *cctx) []ret {
		l, _ := e.lenOf(st, c.args[0])
		return one(st, e.strSlice(st, e.boundedInt(st, 0, l).L, nil))
	})
	R("strings.Join", func(e *Eng, st *State, c *cctx) []ret { return one(st, e.freshStr("joined")) })
	contains := func(e *Eng, st *State, c *cctx) []ret {
		a, ok1 := e.lenOf(st, c.args[0])
		b, ok2 := e.lenOf(st, c.args[1])
		if x, ok := c.args[0].(StrV); ok {
			if y, ok := c.args[1].(StrV); ok {
				xs, k1 := st.strConst(x)
				ys, k2 := st.strConst(y)
				if k1 && k2 {
					switch c.fn.Name() {
					case "Contains":
						return one(st, bconst(strings.Contains(xs, ys)))
					case "HasPrefix":
						return one(st, bconst(strings.HasPrefix(xs, ys)))
					case "HasSuffix":
						return one(st, bconst(strings.HasSuffix(xs, ys)))
					}
				}
			}
		}
		imp := CImp{id: e.freshID()}
		if ok1 && ok2 {
			imp.t = []row{{b.sub(a), false}}
		}
		return one(st, BoolV{imp})
	}
	for _, p := range []string{"strings.", "bytes."} {
		for _, n := range []string{"Contains", "HasPrefix", "HasSuffix"} {
			R(p+n, contains)
		}
		for _, n := range []string{"Index", "LastIndex"} {
			R(p+n, func(e *Eng, st *State, c *cctx) []ret {
				a, ok1 := e.lenOf(st, c.args[0])
				b, ok2 := e.lenOf(st, c.args[1])
				if !ok1 || !ok2 {
					return one(st, e.boundedInt(st, -1, lz(maxLen)))
				}
				// -1, or a place where it fits
				n := st.clone()
				var out []ret
				out = append(out, ret{n, []Val{IntV{lc(-1)}}})
				if st.assumeLin(b.sub(a), false) {
					out = append(out, ret{st, []Val{e.boundedInt(st, 0, a.sub(b))}})
				}
				return out
			})
		}
		for _, n := range []string{"IndexByte", "IndexAny", "IndexRune", "LastIndexByte", "IndexFunc", "LastIndexAny"} {
			R(p+n, func(e *Eng, st *State, c *cctx) []ret {
				a, ok := e.lenOf(st, c.args[0])
				if !ok {
					return one(st, e.boundedInt(st, -1, lz(maxLen)))
				}
				n := st.clone()
				out := []ret{{n, []Val{IntV{lc(-1)}}}}
				if st.assumeLin(lc(1).sub(a), false) {
					out = append(out, ret{st, []Val{e.boundedInt(st, 0, a.addc(-1))}})
				}
				return out
			})
		}
		R(p+"Count", func(e *Eng, st *State, c *cctx) []ret {
			a, _ := e.lenOf(st, c.args[0])
			return one(st, e.boundedInt(st, 0, a.addc(1)))
		})
	}
	for _, n := range []string{"TrimSpace", "Trim", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix", "TrimFunc"} {
		R("strings."+n, func(e *Eng, st *State, c *cctx) []ret {
			if len(c.args) > 1 {
				if f, ok := c.args[1].(FuncV); ok && f.fn != nil {
					e.runCallback(st, f, c.site)
				}
			}
			return one(st, e.subStr(st, c.args[0], n))
		})
	}
	for _, n := range []string{"Replace", "ReplaceAll", "ToLower", "ToUpper", "Map", "Title"} {
		R("strings."+n, func(e *Eng, st *State, c *cctx) []ret {
			for _, a := range c.args {
				if f, ok := a.(FuncV); ok && f.fn != nil {
					e.runCallback(st, f, c.site)
				}
			}
			return one(st, e.freshStr(n))
		})
	}
	R("strings.Repeat", func(e *Eng, st *State, c *cctx) []ret {
		n, ok := c.args[1].(IntV)
		if !ok {
			return one(st, e.freshStr("rep"))
		}
		var out []ret
		for _, s := range e.need(st, c.site, "panic", "negative Repeat count", CCmp{e: n.L.neg()}) {
			out = append(out, ret{s, []Val{e.freshStr("rep")}})
		}
		return out
	})
	cut := func(e *Eng, st *State, c *cctx) []ret {
		a, ok := e.lenOf(st, c.args[0])
		b, _ := e.lenOf(st, c.args[1])
		if !ok {
			return e.extResult(st, c.sig, "cut")
		}
		s := c.args[0].(StrV)
		n := st.clone()
		out := []ret{{n, []Val{s, strVal(""), bconst(false)}}}
		if st.assumeLin(b.sub(a), false) {
			x, y := e.subStr(st, s, "before"), e.subStr(st, s, "after")
			st.assumeLin(x.n.add(y.n).add(b).sub(a), true)
			out = append(out, ret{st, []Val{x, y, bconst(true)}})
		}
		return out
	}
	R("strings.Cut", cut)
	R("strings.NewReplacer", func(e *Eng, st *State, c *cctx) []ret {
		s, ok := c.args[0].(SliceV)
		if ok {
			l, _ := e.lenOf(st, s)
			even := l.divisibleBy(zi(2))
			if l.isConst() {
				even = l.k.floorDiv(zi(2)).mul(zi(2)).eq(l.k)
			}
			e.record(st, c.site, "panic", "NewReplacer with an even number of strings", even, "odd argument count")
		}
		return e.extResult(st, c.sig, "replacer")
	})
	R("(*strings.Replacer).Replace", func(e *Eng, st *State, c *cctx) []ret { return one(st, e.freshStr("replaced")) })
	cmp := func(e *Eng, st *State, c *cctx) []ret {
		return one(st, IntV{ls(e.tab.freshIn("cmp", zi(-1), zi(1)))})
	}
	R("bytes.Compare", cmp)
	R("strings.Compare", cmp)
	eq := func(e *Eng, st *State, c *cctx) []ret { return one(st, BoolV{CFact{e.freshID()}}) }
	R("bytes.Equal", eq)
	R("strings.EqualFold", eq)
	R("path.Ext", func(e *Eng, st *State, c *cctx) []ret { return one(st, e.subStr(st, c.args[0], "ext")) })
	R("path/filepath.Ext", e.models["path.Ext"])
	R("fmt.Sprintf", func(e *Eng, st *State, c *cctx) []ret { return one(st, e.freshStr("sprintf")) })
	R("fmt.Sprint", func(e *Eng, st *State, c *cctx) []ret { return one(st, e.freshStr("sprint")) })
	R("fmt.Sprintln", func(e *Eng, st *State, c *cctx) []ret { return one(st, e.freshStr("sprint")) })
	newErr := func(e *Eng, st *State, c *cctx) []ret {
		return one(st, IfaceV{n: nonNil, id: e.freshID(), tag: "new error"})
	}
	R("errors.New", newErr)
	R("fmt.Errorf", newErr)
	R("errors.Is", eq)
	R("errors.As", func(e *Eng, st *State, c *cctx) []ret {
		e.havocVal(st, c.args[1])
		return one(st, BoolV{CFact{e.freshID()}})
	})
	parse := func(lo func(bits int64) Z, hi func(bits int64) Z) model {
		return func(e *Eng, st *State, c *cctx) []ret {
			t := c.sig.Results().At(0).Type()
			l, h, _, _, _ := basicRange(t)
			if len(c.args) == 3 {
				if b, ok := c.args[2].(IntV); ok {
					if k, ok := b.L.constInt(); ok && k > 0 && k < 64 {
						l, h = lo(k), hi(k)
					}
				}
			}
			bad := st.clone()
			v := e.tab.freshIn("parsed", l, h)
			w := e.tab.freshIn("parsed", l, h)
			return []ret{{st, []Val{IntV{ls(v)}, IfaceV{n: isNil}}}, {bad, []Val{IntV{ls(w)}, IfaceV{n: nonNil, id: e.freshID(), tag: "strconv"}}}}
		}
	}
	R("strconv.ParseUint", parse(func(b int64) Z { return zi(0) }, func(b int64) Z { return zpow2(uint(b)).sub(zi(1)) }))
	R("strconv.ParseInt", parse(func(b int64) Z { return zpow2(uint(b - 1)).neg() }, func(b int64) Z { return zpow2(uint(b - 1)).sub(zi(1)) }))
	R("strconv.Atoi", parse(nil, nil))
	sortM := func(e *Eng, st *State, c *cctx) []ret {
		if s, ok := c.args[0].(SliceV); ok && st.nilOf(s.n) != 1 {
			e.shuffle(st, s)
			for _, a := range c.args[1:] {
				if f, ok := a.(FuncV); ok && f.fn != nil {
					e.sortCallback(st, s, f, c.site)
				}
			}
		} else if x, ok := c.args[0].(IfaceV); ok {
			if x.t != nil {
				if s, ok := x.v.(SliceV); ok && st.nilOf(s.n) != 1 {
					e.shuffle(st, s)
					for _, a := range c.args[1:] {
						if f, ok := a.(FuncV); ok && f.fn != nil {
							l, _ := e.lenOf(st, s)
							if st.cs.entailsLE(l.addc(-1)) {
								continue
							}
							n := st.clone()
							i, j := e.boundedInt(n, 0, l.addc(-1)), e.boundedInt(n, 0, l.addc(-1))
							e.callFn(n, f.fn, []Val{i, j}, f.bind, c.site)
						}
					}
				} else if x.v != nil && len(c.args) == 1 {
					e.undecided(st, c.site, "sort.Sort")
				}
			}
		}
		return one(st)
	}
	for _, n := range []string{"sort.Strings", "sort.Ints", "sort.Slice", "sort.SliceStable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc"} {
		R(n, sortM)
	}
	R("sort.Search", func(e *Eng, st *State, c *cctx) []ret {
		n, _ := c.args[0].(IntV)
		if f, ok := c.args[1].(FuncV); ok && f.fn != nil && !st.cs.entailsLE(n.L) {
			s := st.clone()
			if s.assumeLin(lc(1).sub(n.L), false) {
				e.callFn(s, f.fn, []Val{e.boundedInt(s, 0, n.L.addc(-1))}, f.bind, c.site)
			}
		}
		return one(st, e.boundedInt(st, 0, e.maxOf0(st, n.L)))
	})
	R("sort.SearchStrings", func(e *Eng, st *State, c *cctx) []ret {
		l, _ := e.lenOf(st, c.args[0])
		return one(st, e.boundedInt(st, 0, l))
	})
}

func (e *Eng) maxOf0(st *State, l Lin) Lin { return e.minOf(st, l.neg(), lc(0)).neg() }

// shuffle forgets which element is where.
func (e *Eng) shuffle(st *State, s SliceV) {
	o := st.heap[s.obj]
	if o == nil {
		return
	}
	c := o.copy()
	c.memo = nil
	if untracked(o.t) {
		c.known = nil
	} else if !o.top {
		alts, top := e.allAlts(st, o)
		c = st.heap[s.obj].copy()
		c.memo, c.known, c.low, c.two = nil, nil, nil, false
		c.alts, c.top = alts, top
	}
	st.setObj(c)
}

func (e *Eng) sortCallback(st *State, s SliceV, f FuncV, site ssa.Instruction) {
	n := st.clone()
	l, _ := e.lenOf(n, s)
	if !n.assumeLin(lc(1).sub(l), false) {
		return
	}
	o := n.heap[s.obj]
	for _, a := range e.loadElem(n, s.obj, s.off.add(e.boundedInt(n, 0, l.addc(-1)).L)) {
		for _, b := range e.loadElem(a.st.clone(), s.obj, s.off.add(e.boundedInt(a.st, 0, l.addc(-1)).L)) {
			e.callFn(b.st, f.fn, []Val{a.v, b.v}, f.bind, site)
		}
	}
	_ = o
}

func (e *Eng) registerIO() {
	R := func(name string, m model) { e.models[name] = m }
	mkPtr := func(site string) model {
		return func(e *Eng, st *State, c *cctx) []ret {
			return one(st, PtrV{obj: e.newObj(st, &Obj{kind: kOpaque, site: site, ext: map[string]Val{}})})
		}
	}
	R("bufio.NewScanner", func(e *Eng, st *State, c *cctx) []ret {
		ext := map[string]Val{}
		if x, ok := c.args[0].(IfaceV); ok {
			if p, ok := x.v.(PtrV); ok {
				if o := st.heap[p.obj]; o != nil && o.ext["short"] != nil {
					ext["short"] = o.ext["short"]
				}
			}
		}
		return one(st, PtrV{obj: e.newObj(st, &Obj{kind: kOpaque, site: "scanner", ext: ext})})
	})
	R("bufio.NewReader", mkPtr("reader"))
	R("bufio.NewReaderSize", mkPtr("reader"))
	R("bytes.NewBuffer", mkPtr("buffer"))
	R("bytes.NewBufferString", mkPtr("buffer"))
	R("bytes.NewReader", mkPtr("reader"))
	R("strings.NewReader", func(e *Eng, st *State, c *cctx) []ret {
		ext := map[string]Val{}
		if s, ok := c.args[0].(StrV); ok {
			if k, ok := st.strConst(s); ok {
				// a built-in text whose lines are all short is always read to its end
				long := false
				for _, l := range strings.Split(k, "\n") {
					if len(l) > 60000 {
						long = true
					}
				}
				if !long {
					ext["short"] = bconst(true)
				}
			}
		}
		return one(st, PtrV{obj: e.newObj(st, &Obj{kind: kOpaque, site: "reader", ext: ext})})
	})
	R("(*bufio.Scanner).Buffer", func(e *Eng, st *State, c *cctx) []ret { return one(st) })
	R("(*bufio.Scanner).Split", func(e *Eng, st *State, c *cctx) []ret { return one(st) })
	R("(*bufio.Scanner).Scan", func(e *Eng, st *State, c *cctx) []ret {
		n := st.clone()
		if p, ok := c.args[0].(PtrV); ok {
			if o := n.heap[p.obj]; o != nil && o.kind == kOpaque {
				x := o.copy()
				ev := e.errVal("scan")
				if o.ext["short"] != nil {
					ev = IfaceV{n: isNil}
				}
				x.ext = map[string]Val{"err": ev}
				n.heap[p.obj] = x
				e.pendErr(n, ev.n, c.site, "input not read to its end")
			}
		}
		return []ret{{st, []Val{bconst(true)}}, {n, []Val{bconst(false)}}}
	})
	R("(*bufio.Scanner).Err", func(e *Eng, st *State, c *cctx) []ret {
		if p, ok := c.args[0].(PtrV); ok {
			if o := st.heap[p.obj]; o != nil {
				if v, ok := o.ext["err"]; ok {
					return one(st, v)
				}
			}
		}
		return one(st, e.errVal("scan"))
	})
	R("(*bufio.Scanner).Text", func(e *Eng, st *State, c *cctx) []ret { return one(st, e.freshStr("line")) })
	R("(*bufio.Scanner).Bytes", func(e *Eng, st *State, c *cctx) []ret { return one(st, e.makeBytes(st, e.freshLen("line"))) })
	// a write may fail; its error must reach the caller
	write := func(what string, errAt int) model {
		return func(e *Eng, st *State, c *cctx) []ret {
			var vs []Val
			for i := 0; i < c.sig.Results().Len(); i++ {
				if i == errAt {
					ev := e.errVal(what)
					e.pendErr(st, ev.n, c.site, what)
					vs = append(vs, ev)
					continue
				}
				vs = append(vs, e.topVal(st, c.sig.Results().At(i).Type(), what, 1, false))
			}
			return one(st, vs...)
		}
	}
	R("fmt.Fprintf", write("write", 1))
	R("fmt.Fprintln", write("write", 1))
	R("fmt.Fprint", write("write", 1))
	R("io.WriteString", write("write", 1))
	R("io.Copy", write("write", 1))
	R("(*bytes.Buffer).WriteTo", write("write", 1))
	R("(*bytes.Reader).WriteTo", write("write", 1))
	R("invoke (io.Writer).Write", write("write", 1))
	R("invoke (net/http.ResponseWriter).Write", write("reply", 1))
	R("(*os.File).Write", write("write", 1))
	R("(*os.File).WriteString", write("write", 1))
	R("(*os.File).Close", write("close", 0))
	R("(*os.File).Sync", write("sync", 0))
	R("invoke (io.Closer).Close", write("close", 0))
	R("invoke (io.WriteCloser).Close", write("close", 0))
	R("bufio.NewWriter", mkPtr("writer"))
	R("(*bufio.Writer).Flush", write("write", 0))
	R("(*bufio.Writer).Write", write("write", 1))
	R("(*bufio.Writer).WriteString", write("write", 1))
	R("(*bufio.Writer).WriteByte", write("write", 0))
	bufW := func(e *Eng, st *State, c *cctx) []ret {
		l := lc(1)
		if len(c.args) > 1 {
			if x, ok := e.lenOf(st, c.args[1]); ok {
				l = x
			}
		}
		if c.sig.Results().Len() == 2 {
			return one(st, IntV{l}, IfaceV{n: isNil})
		}
		return one(st, IfaceV{n: isNil})
	}
	R("(*bytes.Buffer).Write", bufW)
	R("(*bytes.Buffer).WriteString", bufW)
	R("(*bytes.Buffer).WriteByte", bufW)
	R("(*bytes.Buffer).Len", func(e *Eng, st *State, c *cctx) []ret { return one(st, IntV{e.freshLen("buflen")}) })
	R("(*bytes.Buffer).Bytes", func(e *Eng, st *State, c *cctx) []ret {
		return one(st, e.makeBytes(st, e.freshLen("buf")))
	})
	R("(*bytes.Buffer).String", func(e *Eng, st *State, c *cctx) []ret { return one(st, e.freshStr("buf")) })
	R("(*strings.Builder).String", func(e *Eng, st *State, c *cctx) []ret { return one(st, e.freshStr("built")) })
	R("(*strings.Builder).WriteString", bufW)
	R("(*strings.Builder).WriteByte", bufW)
	R("(*strings.Builder).WriteRune", bufW)
	open := func(what string) model {
		return func(e *Eng, st *State, c *cctx) []ret {
			bad := st.clone()
			n := c.sig.Results().Len()
			var bv []Val
			for i := 0; i < n-1; i++ {
				bv = append(bv, e.zero(bad, c.sig.Results().At(i).Type()))
			}
			ev := IfaceV{n: nonNil, id: e.freshID(), tag: what}
			e.pendErr(bad, ev.n, c.site, what)
			bv = append(bv, ev)
			var gv []Val
			for i := 0; i < n-1; i++ {
				t := c.sig.Results().At(i).Type()
				if _, ok := t.Underlying().(*types.Pointer); ok {
					gv = append(gv, PtrV{obj: e.newObj(st, &Obj{kind: kOpaque, site: what, ext: map[string]Val{}})})
				} else if s, ok := t.Underlying().(*types.Slice); ok && isByte(s.Elem()) {
					gv = append(gv, e.makeBytes(st, e.freshLen("file")))
				} else {
					gv = append(gv, e.topVal(st, t, what, 1, true))
				}
			}
			gv = append(gv, IfaceV{n: isNil})
			return []ret{{st, gv}, {bad, bv}}
		}
	}
	R("os.ReadFile", open("read file"))
	R("os.Create", open("create file"))
	R("os.Open", open("open file"))
	R("os.OpenFile", open("open file"))
	R("io.ReadAll", open("read"))
	R("os.CreateTemp", open("create file"))
	for _, n := range []string{"os.WriteFile", "os.Rename"} {
		R(n, write("write", 0))
	}
	exit := func(e *Eng, st *State, c *cctx) []ret {
		if e.exitHook != nil {
			e.exitHook(st, c.args[0])
		}
		return nil
	}
	R("os.Exit", exit)
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln"} {
		R(n, func(e *Eng, st *State, c *cctx) []ret {
			if e.exitHook != nil {
				e.exitHook(st, IntV{lc(1)})
			} else if e.mode.panics {
				e.record(st, c.site, "panic", "process exit", false, "reachable")
			}
			return nil
		})
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln"} {
		R(n, func(e *Eng, st *State, c *cctx) []ret {
			if e.mode.panics {
				e.record(st, c.site, "panic", "explicit panic", false, "reachable")
			}
			return nil
		})
	}
	for _, n := range []string{"log.Println", "log.Printf", "log.Print", "fmt.Println", "fmt.Printf", "fmt.Print"} {
		R(n, func(e *Eng, st *State, c *cctx) []ret {
			if c.sig.Results().Len() == 2 {
				return one(st, IntV{e.freshLen("n")}, e.errVal("print"))
			}
			return one(st)
		})
	}
	R("encoding/json.Marshal", func(e *Eng, st *State, c *cctx) []ret {
		bad := st.clone()
		ev := IfaceV{n: nonNil, id: e.freshID(), tag: "json"}
		e.pendErr(bad, ev.n, c.site, "json")
		return []ret{{st, []Val{e.makeBytes(st, e.freshLen("json")), IfaceV{n: isNil}}}, {bad, []Val{SliceV{n: isNil}, ev}}}
	})
	R("encoding/json.MarshalIndent", e.models["encoding/json.Marshal"])
	R("encoding/json.Unmarshal", func(e *Eng, st *State, c *cctx) []ret {
		if x, ok := c.args[1].(IfaceV); ok && x.t != nil {
			if p, ok := x.v.(PtrV); ok {
				// anything of the type, or unchanged
				if o := st.heap[p.obj]; o != nil && o.kind == kCell && len(p.path) == 0 {
					n := o.copy()
					n.cell = e.topVal(st, o.t, "json", 2, false)
					st.setObj(n)
				} else {
					e.havocObj(st, p.obj)
				}
			}
		}
		bad := st.clone()
		ev := IfaceV{n: nonNil, id: e.freshID(), tag: "json"}
		e.pendErr(bad, ev.n, c.site, "json")
		return []ret{{st, []Val{IfaceV{n: isNil}}}, {bad, []Val{ev}}}
	})
}

func (e *Eng) registerMisc() {
	R := func(name string, m model) { e.models[name] = m }
	need := func(n int64, t types.Type) model {
		return func(e *Eng, st *State, c *cctx) []ret {
			l, _ := e.lenOf(st, c.args[1])
			var out []ret
			for _, s := range e.need(st, c.site, "index", "enough bytes for the integer", CCmp{e: lc(n).sub(l)}) {
				if c.sig.Results().Len() == 0 {
					e.havocBytes(s, c.args[1])
					out = append(out, ret{s, nil})
				} else {
					out = append(out, ret{s, []Val{e.topInt(t, "be")}})
				}
			}
			return out
		}
	}
	for _, o := range []string{"bigEndian", "littleEndian"} {
		for _, x := range []struct {
			n string
			b int64
			t types.Type
		}{{"Uint16", 2, types.Typ[types.Uint16]}, {"Uint32", 4, types.Typ[types.Uint32]}, {"Uint64", 8, types.Typ[types.Uint64]}} {
			R("(encoding/binary."+o+")."+x.n, need(x.b, x.t))
			R("(encoding/binary."+o+").Put"+x.n, need(x.b, x.t))
		}
	}
	bits := func(hi int64) model {
		return func(e *Eng, st *State, c *cctx) []ret {
			return one(st, IntV{ls(e.tab.freshIn("bits", zi(0), zi(hi)))})
		}
	}
	for _, p := range []struct {
		s string
		n int64
	}{{"", 64}, {"8", 8}, {"16", 16}, {"32", 32}, {"64", 64}} {
		for _, f := range []string{"TrailingZeros", "LeadingZeros", "Len", "OnesCount"} {
			R("math/bits."+f+p.s, bits(p.n))
		}
	}
	R("(*sync.Map).Load", func(e *Eng, st *State, c *cctx) []ret {
		k := e.syncKey(st, c.args[1])
		miss := st.clone()
		out := []ret{{miss, []Val{IfaceV{n: isNil}, bconst(false)}}}
		if a := e.syncM[k]; a != nil {
			out = append(out, ret{st, []Val{e.instance(st, a), bconst(true)}})
		}
		return out
	})
	R("(*sync.Map).Store", func(e *Eng, st *State, c *cctx) []ret {
		k := e.syncKey(st, c.args[1])
		a := e.capture(st, c.args[2])
		if old := e.syncM[k]; old == nil {
			e.syncM[k] = mergeAlts(e, st, []*Alt{a})[0]
			e.syncChanged = true
		} else {
			m := mergeAlts(e, st, []*Alt{old, a})
			if len(m) > 1 {
				e.undecided(st, c.site, "sync.Map holds values of different shapes")
			} else if !sameAlt(e, m[0], old) {
				e.syncM[k] = m[0]
				e.syncChanged = true
			}
		}
		return one(st)
	})
	R("(*math/big.Int).SetBytes", func(e *Eng, st *State, c *cctx) []ret { return one(st, c.args[0]) })
	R("time.Now", func(e *Eng, st *State, c *cctx) []ret { return e.extResult(st, c.sig, "now") })
	R("reflect.DeepEqual", func(e *Eng, st *State, c *cctx) []ret { return one(st, BoolV{CFact{e.freshID()}}) })
}

func (e *Eng) havocBytes(st *State, v Val) {
	if s, ok := v.(SliceV); ok {
		e.havocObj(st, s.obj)
	}
}

func (e *Eng) syncKey(st *State, v Val) string {
	if t := rtypeOf(v); t != nil {
		return "T" + t.String()
	}
	return keyString(v)
}

func sameAlt(e *Eng, a, b *Alt) bool {
	if a.key != b.key || len(a.locals) != len(b.locals) || len(a.cons) != len(b.cons) {
		return false
	}
	for i := range a.locals {
		x, y := e.tab.info[a.locals[i]], e.tab.info[b.locals[i]]
		if x.hasLo != y.hasLo || x.hasHi != y.hasHi || x.hasLo && !x.lo.eq(y.lo) || x.hasHi && !x.hi.eq(y.hi) {
			return false
		}
	}
	return true
}
