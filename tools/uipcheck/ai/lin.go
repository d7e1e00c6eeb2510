package ai

import (
	"fmt"
	"sort"
	"strings"
)

// Sym is an immutable integer unknown.
type Sym int

type term struct {
	s Sym
	c Z
}

// Lin is a linear expression k + sum(c*s).
type Lin struct {
	k Z
	t []term // sorted by s, no zero coefficient
}

func lc(v int64) Lin { return Lin{k: zi(v)} }
func lz(v Z) Lin     { return Lin{k: v} }
func ls(s Sym) Lin   { return Lin{t: []term{{s, zi(1)}}} }

func (a Lin) isConst() bool { return len(a.t) == 0 }

func (a Lin) constInt() (int64, bool) {
	if len(a.t) == 0 && a.k.b == nil {
		return a.k.v, true
	}
	return 0, false
}

func (a Lin) addScaled(c Lin, f Z) Lin {
	if f.sign() == 0 {
		return a
	}
	r := Lin{k: a.k.add(c.k.mul(f))}
	if len(c.t) == 0 {
		r.t = a.t
		return r
	}
	r.t = make([]term, 0, len(a.t)+len(c.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(c.t) {
		switch {
		case j >= len(c.t) || (i < len(a.t) && a.t[i].s < c.t[j].s):
			r.t = append(r.t, a.t[i])
			i++
		case i >= len(a.t) || c.t[j].s < a.t[i].s:
			r.t = append(r.t, term{c.t[j].s, c.t[j].c.mul(f)})
			j++
		default:
			v := a.t[i].c.add(c.t[j].c.mul(f))
			if v.sign() != 0 {
				r.t = append(r.t, term{a.t[i].s, v})
			}
			i++
			j++
		}
	}
	return r
}

func (a Lin) add(c Lin) Lin    { return a.addScaled(c, zi(1)) }
func (a Lin) sub(c Lin) Lin    { return a.addScaled(c, zi(-1)) }
func (a Lin) addc(v int64) Lin { return Lin{k: a.k.add(zi(v)), t: a.t} }
func (a Lin) neg() Lin         { return Lin{}.addScaled(a, zi(-1)) }
func (a Lin) mulz(f Z) Lin     { return Lin{}.addScaled(a, f) }
func (a Lin) mulc(f int64) Lin { return a.mulz(zi(f)) }

func (a Lin) coef(s Sym) Z {
	for _, t := range a.t {
		if t.s == s {
			return t.c
		}
	}
	return Z{}
}

func (a Lin) same(c Lin) bool {
	if !a.k.eq(c.k) || len(a.t) != len(c.t) {
		return false
	}
	for i := range a.t {
		if a.t[i].s != c.t[i].s || !a.t[i].c.eq(c.t[i].c) {
			return false
		}
	}
	return true
}

func (a Lin) divisibleBy(m Z) bool {
	if a.k.sub(a.k.floorDiv(m).mul(m)).sign() != 0 {
		return false
	}
	for _, t := range a.t {
		if t.c.sub(t.c.floorDiv(m).mul(m)).sign() != 0 {
			return false
		}
	}
	return true
}

func (a Lin) divExact(m Z) Lin {
	r := Lin{k: a.k.floorDiv(m)}
	for _, t := range a.t {
		r.t = append(r.t, term{t.s, t.c.floorDiv(m)})
	}
	return r
}

func (a Lin) rename(m map[Sym]Sym) Lin {
	hit := false
	for _, t := range a.t {
		if _, ok := m[t.s]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return a
	}
	r := Lin{k: a.k}
	for _, t := range a.t {
		s := t.s
		if n, ok := m[s]; ok {
			s = n
		}
		r = r.addScaled(ls(s), t.c)
	}
	return r
}

func (a Lin) String() string {
	var b strings.Builder
	for _, t := range a.t {
		fmt.Fprintf(&b, "%s*s%d + ", t.c, t.s)
	}
	b.WriteString(a.k.String())
	return b.String()
}

// Con is e <= 0, or e == 0 when eq.
type Con struct {
	e  Lin
	eq bool
}

type symInfo struct {
	lo, hi       Z
	hasLo, hasHi bool
	cons         []*Con // always true of this symbol
	prod         *[2]Lin
	name         string
}

// symTab holds the facts that define symbols.
type symTab struct {
	info []symInfo
}

func (st *symTab) fresh(name string) Sym {
	st.info = append(st.info, symInfo{name: name})
	return Sym(len(st.info) - 1)
}

func (st *symTab) freshIn(name string, lo, hi Z) Sym {
	s := st.fresh(name)
	i := &st.info[s]
	i.lo, i.hi, i.hasLo, i.hasHi = lo, hi, true, true
	return s
}

type bnd struct {
	lo, hi       Z
	hasLo, hasHi bool
}

func (b *bnd) tightenLo(v Z) {
	if !b.hasLo || v.cmp(b.lo) > 0 {
		b.lo, b.hasLo = v, true
	}
}

func (b *bnd) tightenHi(v Z) {
	if !b.hasHi || v.cmp(b.hi) < 0 {
		b.hi, b.hasHi = v, true
	}
}

// consSet is the conjunction a state knows.
type consSet struct {
	tab  *symTab
	list []*Con

	defs  []*Con // what defines the symbols of list
	defsN int
	defsL *Con
}

// all returns the constraints together with the definitions of their symbols.
func (cs *consSet) all() []*Con {
	n := len(cs.list)
	if n == 0 {
		return nil
	}
	if cs.defsN == n && cs.defsL == cs.list[n-1] {
		return cs.defs
	}
	seen := map[Sym]bool{}
	have := map[*Con]bool{}
	out := make([]*Con, 0, 2*n)
	for _, c := range cs.list {
		for _, t := range c.e.t {
			if !seen[t.s] {
				seen[t.s] = true
				for _, d := range cs.tab.info[t.s].cons {
					if !have[d] {
						have[d] = true
						out = append(out, d)
					}
				}
			}
		}
	}
	out = append(out, cs.list...)
	cs.defs, cs.defsN, cs.defsL = out, n, cs.list[n-1]
	return out
}

// symBounds collects the interval of s from its definition and the
// single-symbol constraints.
func (cs *consSet) symBounds(s Sym) bnd {
	i := &cs.tab.info[s]
	b := bnd{i.lo, i.hi, i.hasLo, i.hasHi}
	for _, c := range cs.list {
		if len(c.e.t) == 1 && c.e.t[0].s == s {
			tightenFrom(&b, c)
		}
	}
	for _, c := range i.cons {
		if len(c.e.t) == 1 && c.e.t[0].s == s {
			tightenFrom(&b, c)
		}
	}
	return b
}

func tightenFrom(b *bnd, c *Con) {
	co := c.e.t[0].c
	// co*s + k <= 0
	if co.sign() > 0 {
		b.tightenHi(c.e.k.neg().floorDiv(co))
		if c.eq {
			b.tightenLo(c.e.k.neg().ceilDiv(co))
		}
	} else {
		b.tightenLo(c.e.k.ceilDiv(co.neg()))
		if c.eq {
			b.tightenHi(c.e.k.floorDiv(co.neg()))
		}
	}
}

// interval evaluates e over symbol bounds only.
func (cs *consSet) interval(e Lin) bnd {
	r := bnd{e.k, e.k, true, true}
	for _, t := range e.t {
		b := cs.symBounds(t.s)
		lo, hi := b.lo, b.hi
		hl, hh := b.hasLo, b.hasHi
		if t.c.sign() < 0 {
			lo, hi = hi, lo
			hl, hh = hh, hl
		}
		if r.hasLo = r.hasLo && hl; r.hasLo {
			r.lo = r.lo.add(lo.mul(t.c))
		}
		if r.hasHi = r.hasHi && hh; r.hasHi {
			r.hi = r.hi.add(hi.mul(t.c))
		}
	}
	return r
}

type row struct {
	e  Lin
	eq bool
}

// norm divides by the gcd of the coefficients, tightening for integers.
// ok is false when the row is a contradiction, triv when it says nothing.
func (r row) norm() (out row, triv, bad bool) {
	if len(r.e.t) == 0 {
		if r.eq {
			return r, r.e.k.sign() == 0, r.e.k.sign() != 0
		}
		return r, r.e.k.sign() <= 0, r.e.k.sign() > 0
	}
	g := Z{}
	for _, t := range r.e.t {
		g = zgcd(g, t.c)
	}
	if g.eq(zi(1)) {
		return r, false, false
	}
	k := r.e.k
	if r.eq {
		q := k.floorDiv(g)
		if !q.mul(g).eq(k) {
			return r, false, true
		}
		k = q
	} else {
		k = k.ceilDiv(g)
	}
	n := Lin{k: k, t: make([]term, len(r.e.t))}
	for i, t := range r.e.t {
		n.t[i] = term{t.s, t.c.floorDiv(g)}
	}
	return row{n, r.eq}, false, false
}

const maxRows = 220
const maxSeed = 70

// gather returns the constraints connected to the symbols of the seeds.
func (cs *consSet) gather(seeds []row) []row { return cs.gatherN(seeds, 1<<30) }

func (cs *consSet) gatherN(seeds []row, depth int) []row {
	rows := append([]row(nil), seeds...)
	seen := map[Sym]bool{}
	used := map[*Con]bool{}
	var queue []Sym
	push := func(e Lin) {
		for _, t := range e.t {
			if !seen[t.s] {
				seen[t.s] = true
				queue = append(queue, t.s)
			}
		}
	}
	for _, r := range seeds {
		push(r.e)
	}
	list := cs.all()
	for ; len(queue) > 0 && len(rows) < maxSeed && depth > 0; depth-- {
		level := queue
		queue = nil
		in := map[Sym]bool{}
		for _, s := range level {
			in[s] = true
		}
		for _, s := range level {
			i := &cs.tab.info[s]
			if i.hasLo {
				rows = append(rows, row{e: lz(i.lo).sub(ls(s))})
			}
			if i.hasHi {
				rows = append(rows, row{e: ls(s).addScaled(lz(i.hi), zi(-1))})
			}
			for _, c := range i.cons {
				if !used[c] {
					used[c] = true
					rows = append(rows, row{c.e, c.eq})
					push(c.e)
				}
			}
			if i.prod != nil {
				for _, r := range cs.linearise(s, i.prod) {
					rows = append(rows, r)
					push(r.e)
				}
			}
		}
		for j := len(list) - 1; j >= 0; j-- {
			c := list[j]
			if used[c] {
				continue
			}
			for _, t := range c.e.t {
				if in[t.s] {
					used[c] = true
					rows = append(rows, row{c.e, c.eq})
					push(c.e)
					break
				}
			}
		}
	}
	return rows
}

func (cs *consSet) linearise(p Sym, xy *[2]Lin) []row {
	var out []row
	for d := 0; d < 2; d++ {
		x, y := xy[d], xy[1-d]
		b := cs.interval(y)
		if !b.hasLo || !b.hasHi {
			continue
		}
		if b.lo.eq(b.hi) {
			return []row{{e: ls(p).addScaled(x, b.lo.neg()), eq: true}}
		}
		bx := cs.interval(x)
		if bx.hasLo && bx.lo.sign() >= 0 {
			out = append(out, row{e: ls(p).addScaled(x, b.hi.neg())})
			out = append(out, row{e: ls(p).neg().addScaled(x, b.lo)})
		}
	}
	return out
}

// unsat reports that the rows have no integer solution (rational
// elimination with integer tightening; false means "not shown").
func unsat(in []row, keep Sym) (bad bool, rest []row) {
	return eliminate(in, keep, nil)
}

// propagate adds the bounds that interval reasoning gives the symbols with
// large coefficients (how often arithmetic wrapped), which are small integers.
func propagate(rows []row) []row {
	big := map[Sym]bool{}
	for _, r := range rows {
		if len(r.e.t) < 2 {
			continue
		}
		for _, t := range r.e.t {
			if t.c.abs().cmp(zi(1<<15)) > 0 {
				big[t.s] = true
			}
		}
	}
	if len(big) == 0 {
		return rows
	}
	bs := map[Sym]*bnd{}
	at := func(s Sym) *bnd {
		b := bs[s]
		if b == nil {
			b = &bnd{}
			bs[s] = b
		}
		return b
	}
	for _, r := range rows {
		if len(r.e.t) == 1 {
			tightenFrom(at(r.e.t[0].s), &Con{r.e, r.eq})
		}
	}
	// e <= 0: c*s <= -(rest), with rest at its least
	upper := func(e Lin) {
		inf := 0
		var is Sym
		sum := e.k
		for _, t := range e.t {
			b := at(t.s)
			if t.c.sign() > 0 && b.hasLo {
				sum = sum.add(t.c.mul(b.lo))
			} else if t.c.sign() < 0 && b.hasHi {
				sum = sum.add(t.c.mul(b.hi))
			} else {
				inf++
				is = t.s
			}
		}
		if inf > 1 {
			return
		}
		for _, t := range e.t {
			if inf == 1 && t.s != is {
				continue
			}
			b := at(t.s)
			rest := sum
			if inf == 0 {
				if t.c.sign() > 0 {
					rest = sum.sub(t.c.mul(b.lo))
				} else {
					rest = sum.sub(t.c.mul(b.hi))
				}
			}
			tightenFrom(b, &Con{Lin{k: rest, t: []term{t}}, false})
		}
	}
	for i := 0; i < 3; i++ {
		for _, r := range rows {
			if len(r.e.t) > 1 && len(r.e.t) < 8 {
				upper(r.e)
				if r.eq {
					upper(r.e.neg())
				}
			}
		}
	}
	for s := range big {
		b := at(s)
		if b.hasLo && b.hasHi && b.lo.eq(b.hi) {
			rows = append(rows, row{ls(s).addScaled(lz(b.lo), zi(-1)), true})
			continue
		}
		if b.hasLo {
			rows = append(rows, row{e: lz(b.lo).sub(ls(s))})
		}
		if b.hasHi {
			rows = append(rows, row{e: ls(s).addScaled(lz(b.hi), zi(-1))})
		}
	}
	return rows
}

// elim is one eliminated symbol and the rows that mentioned it then.
type elim struct {
	s    Sym
	rows []row
}

func eliminate(in []row, keep Sym, hist *[]elim) (bad bool, rest []row) {
	rows := make([]row, 0, len(in))
	for _, r := range in {
		n, triv, b := r.norm()
		if b {
			return true, nil
		}
		if !triv {
			rows = append(rows, n)
		}
	}
	rows = dedupe(propagate(rows))
	for {
		// equalities first
		pick := -1
		var ps Sym
		unit := false
		for i, r := range rows {
			if !r.eq {
				continue
			}
			for _, t := range r.e.t {
				if t.s == keep {
					continue
				}
				u := t.c.abs().eq(zi(1))
				if pick < 0 || (u && !unit) {
					pick, ps, unit = i, t.s, u
				}
			}
			if unit {
				break
			}
		}
		if pick >= 0 {
			eq := rows[pick]
			c := eq.e.coef(ps)
			if hist != nil {
				*hist = append(*hist, elim{ps, []row{eq}})
			}
			var next []row
			for i, r := range rows {
				if i == pick {
					continue
				}
				a := r.e.coef(ps)
				if a.sign() != 0 {
					// |c|*r - sign(c)*a*eq
					f := a
					if c.sign() > 0 {
						f = a.neg()
					}
					r = row{r.e.mulz(c.abs()).addScaled(eq.e, f), r.eq}
					n, triv, b := r.norm()
					if b {
						return true, nil
					}
					if triv {
						continue
					}
					r = n
				}
				next = append(next, r)
			}
			rows = next
			continue
		}
		// choose the symbol with the fewest combinations
		type cnt struct{ p, n int }
		m := map[Sym]*cnt{}
		for _, r := range rows {
			for _, t := range r.e.t {
				if t.s == keep {
					continue
				}
				c := m[t.s]
				if c == nil {
					c = &cnt{}
					m[t.s] = c
				}
				if r.eq {
					c.p++
					c.n++
				} else if t.c.sign() > 0 {
					c.p++
				} else {
					c.n++
				}
			}
		}
		if len(m) == 0 {
			return false, rows
		}
		best, bc := Sym(-1), 1<<30
		for s, c := range m {
			v := c.p*c.n - c.p - c.n
			if v < bc || (v == bc && s < best) {
				best, bc = s, v
			}
		}
		var pos, neg, next []row
		for _, r := range rows {
			a := r.e.coef(best)
			switch a.sign() {
			case 0:
				next = append(next, r)
			case 1:
				pos = append(pos, r)
			default:
				neg = append(neg, r)
			}
		}
		if hist != nil {
			*hist = append(*hist, elim{best, append(append([]row(nil), pos...), neg...)})
		}
		for _, p := range pos {
			for _, q := range neg {
				a, b := p.e.coef(best), q.e.coef(best).neg()
				g := zgcd(a, b)
				r := row{e: p.e.mulz(b.floorDiv(g)).addScaled(q.e, a.floorDiv(g))}
				n, triv, bad := r.norm()
				if bad {
					return true, nil
				}
				if triv || len(n.e.t) > 12 {
					continue
				}
				next = append(next, n)
			}
		}
		next = dedupe(next)
		if len(next) > maxRows {
			sort.SliceStable(next, func(i, j int) bool { return len(next[i].e.t) < len(next[j].e.t) })
			next = next[:maxRows]
		}
		rows = next
	}
}

func (e Lin) hash() uint64 {
	h := uint64(1469598103934665603)
	for _, t := range e.t {
		h = (h ^ uint64(t.s)) * 1099511628211
		v := uint64(t.c.v)
		if t.c.b != nil {
			v = 7
		}
		h = (h ^ v) * 1099511628211
	}
	return h
}

func (a Lin) sameTerms(c Lin) bool {
	if len(a.t) != len(c.t) {
		return false
	}
	for i := range a.t {
		if a.t[i].s != c.t[i].s || !a.t[i].c.eq(c.t[i].c) {
			return false
		}
	}
	return true
}

// dedupe keeps the tightest of the rows with the same coefficients.
func dedupe(rows []row) []row {
	m := make(map[uint64][]int, len(rows))
	out := make([]row, 0, len(rows))
next:
	for _, r := range rows {
		h := r.e.hash()
		for _, i := range m[h] {
			if out[i].eq == r.eq && out[i].e.sameTerms(r.e) {
				if r.eq && !out[i].e.k.eq(r.e.k) {
					continue // contradictory: keep both
				}
				if !r.eq && r.e.k.cmp(out[i].e.k) > 0 {
					out[i] = r
				}
				continue next
			}
		}
		m[h] = append(m[h], len(out))
		out = append(out, r)
	}
	return out
}

// simplify drops the constraints another one of the list makes redundant.
func simplify(l []*Con) []*Con {
	if len(l) < 2 {
		return l
	}
	m := make(map[uint64][]int, len(l))
	out := make([]*Con, 0, len(l))
	dead := make([]bool, len(l))
next:
	for i, c := range l {
		h := c.e.hash()
		for _, j := range m[h] {
			d := l[j]
			if dead[j] || d.eq != c.eq || !d.e.sameTerms(c.e) {
				continue
			}
			if c.e.k.eq(d.e.k) || !c.eq && c.e.k.cmp(d.e.k) < 0 {
				dead[i] = true
				continue next
			}
			if !c.eq {
				dead[j] = true
			}
		}
		m[h] = append(m[h], i)
	}
	for i, c := range l {
		if !dead[i] {
			out = append(out, c)
		}
	}
	return out
}

// entailsLE reports e <= 0 in every valuation of the set.
func (cs *consSet) entailsLE(e Lin) bool {
	if e.isConst() {
		return e.k.sign() <= 0
	}
	if b := cs.interval(e); b.hasHi && b.hi.sign() <= 0 {
		return true
	} else if b.hasLo && b.lo.sign() > 0 {
		return false
	}
	for _, c := range cs.list {
		if !c.eq && c.e.sameTerms(e) && c.e.k.cmp(e.k) >= 0 {
			return true
		}
	}
	return cs.refute(row{e: e.neg().addc(1)}, nil)
}

// refute reports that the row contradicts the set; a valuation that shows it
// does not goes to the pool.
func (cs *consSet) refute(r row, p *pool) bool {
	seed := []row{r}
	near := cs.gatherN(seed, 1)
	if bad, _ := unsat(near, -1); bad {
		return true
	}
	rows := cs.gather(seed)
	if len(rows) == len(near) && p == nil {
		return false
	}
	if p == nil {
		bad, _ := unsat(rows, -1)
		return bad
	}
	var hist []elim
	if bad, _ := eliminate(rows, -1, &hist); bad {
		return true
	}
	p.learn(rows, hist)
	return false
}

// pool holds valuations of a constraint set, to reject what it does not entail.
type pool struct {
	m []map[Sym]Z
}

func evalLin(e Lin, m map[Sym]Z) (Z, bool) {
	v := e.k
	for _, t := range e.t {
		x, ok := m[t.s]
		if !ok {
			return v, false
		}
		v = v.add(x.mul(t.c))
	}
	return v, true
}

func (p *pool) learn(rows []row, hist []elim) {
	m := map[Sym]Z{}
	for i := len(hist) - 1; i >= 0; i-- {
		h := hist[i]
		var b bnd
		for _, r := range h.rows {
			a := Z{}
			rest := Lin{k: r.e.k}
			for _, t := range r.e.t {
				if t.s == h.s {
					a = t.c
				} else {
					if _, ok := m[t.s]; !ok {
						m[t.s] = Z{}
					}
					rest.t = append(rest.t, t)
				}
			}
			k, _ := evalLin(rest, m)
			tightenFrom(&b, &Con{Lin{k: k, t: []term{{h.s, a}}}, r.eq})
		}
		v := Z{}
		switch {
		case b.hasLo && b.hasHi && b.lo.cmp(b.hi) > 0:
			return
		case b.hasLo && b.lo.sign() > 0:
			v = b.lo
		case b.hasHi && b.hi.sign() < 0:
			v = b.hi
		case len(p.m)%2 == 1 && b.hasHi && b.hi.cmp(zi(1<<20)) < 0:
			v = b.hi
		}
		m[h.s] = v
	}
	for _, r := range rows {
		for _, t := range r.e.t {
			if _, ok := m[t.s]; !ok {
				m[t.s] = Z{}
			}
		}
		v, _ := evalLin(r.e, m)
		if v.sign() > 0 || r.eq && v.sign() != 0 {
			return
		}
	}
	if len(p.m) > 24 {
		p.m = p.m[1:]
	}
	p.m = append(p.m, m)
}

// rejects reports that a valuation has e above zero (or, for eq, not zero).
func (p *pool) rejects(e Lin, eq bool) bool {
	for i := len(p.m) - 1; i >= 0; i-- {
		if v, ok := evalLin(e, p.m[i]); ok && (v.sign() > 0 || eq && v.sign() != 0) {
			return true
		}
	}
	return false
}

func (cs *consSet) entailsP(e Lin, eq bool, p *pool) bool {
	if e.isConst() {
		return e.k.sign() == 0 || !eq && e.k.sign() < 0
	}
	if p.rejects(e, eq) {
		return false
	}
	if eq {
		return cs.entailsP(e, false, p) && cs.entailsP(e.neg(), false, p)
	}
	if b := cs.interval(e); b.hasHi && b.hi.sign() <= 0 {
		return true
	} else if b.hasLo && b.lo.sign() > 0 {
		return false
	}
	for _, c := range cs.list {
		if !c.eq && c.e.sameTerms(e) && c.e.k.cmp(e.k) >= 0 {
			return true
		}
	}
	return cs.refute(row{e: e.neg().addc(1)}, p)
}

func (cs *consSet) entailsEQ(e Lin) bool {
	if e.isConst() {
		return e.k.sign() == 0
	}
	return cs.entailsLE(e) && cs.entailsLE(e.neg())
}

// entailsNE reports e != 0.
func (cs *consSet) entailsNE(e Lin) bool {
	if e.isConst() {
		return e.k.sign() != 0
	}
	return cs.refute(row{e: e, eq: true}, nil)
}

// contradicts reports that adding c leaves no valuation.
func (cs *consSet) contradicts(c row) bool {
	if c.e.isConst() {
		if c.eq {
			return c.e.k.sign() != 0
		}
		return c.e.k.sign() > 0
	}
	return cs.refute(c, nil)
}

// sup returns the largest value e may take, if bounded.
func (cs *consSet) sup(e Lin) (Z, bool) {
	if e.isConst() {
		return e.k, true
	}
	z := Sym(1 << 30)
	seed := row{e: e.addScaled(Lin{t: []term{{z, zi(1)}}}, zi(-1)), eq: true}
	rows := cs.gatherSup(e)
	rows = append(rows, seed)
	bad, rest := unsat(rows, z)
	if bad {
		return Z{}, false
	}
	var out Z
	ok := false
	for _, r := range rest {
		if len(r.e.t) != 1 || r.e.t[0].s != z {
			continue
		}
		c := r.e.t[0].c
		if c.sign() > 0 || r.eq {
			v := r.e.k.neg().floorDiv(c.abs())
			if c.sign() < 0 {
				v = r.e.k.floorDiv(c.abs())
			}
			if !ok || v.cmp(out) < 0 {
				out, ok = v, true
			}
		}
	}
	return out, ok
}

func (cs *consSet) gatherSup(e Lin) []row {
	rows := cs.gather([]row{{e: e}})
	return rows[1:] // drop the seed itself
}
