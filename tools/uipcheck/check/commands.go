package check

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/bits"
	"uipcheck/load"
)

func init() {
	register("C36", "proof", commands)
}

const cmdRule = "a command does what it is asked"

// cmdRun is a run of a command.
type cmdRun struct {
	*stepRun
	main    *ssa.Function
	info    *bits.Ptr
	version *bits.Ptr
	asked   []*bits.Int
	times   int
	shown   []string
	exit    int64 // -1: it does not say
	served  *bits.Outcome
	addr    string
	handler bits.Value
	routes  map[string][]route
	status  []int64
	wrote   []bits.Value
	odd     bool
}

type route struct {
	pattern string
	f       bits.Value
}

func (b *bitRun) newCmdRun(pkg, name string) *cmdRun {
	main := b.c.P.Func(pkg, "main")
	r := &cmdRun{stepRun: b.newStepRun(pkg, main, name), main: main, exit: -1, routes: map[string][]route{}}
	m := r.m
	r.bad = func(f string, a ...interface{}) {
		if os.Getenv("ALLCELLS") != "" {
			fmt.Printf("BAD %s: %s\n", name, fmt.Sprintf(f, a...)+notes(m))
		}
		b.fail(cmdRule, main, "for "+name+": "+fmt.Sprintf(f, a...)+notes(m))
	}
	r.files()
	r.handle()
	r.info = m.New(m.Input(b.typeOf("db/inf", "IpInfo"), "answer"))
	r.version = m.New(m.Input(b.typeOf("db/inf", "VersionInfo"), "version"))
	n := m.Input(types.Typ[types.Int], "mask")
	q := b.typeOf("db/inf", "Query").String()
	m.Models["("+q+").Query"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		r.times++
		r.asked, _ = m.Content(c.StateOf(), args[1])
		if r.fails["query"] {
			return []bits.Ret{{V: bits.Tuple{&bits.Ptr{}, n, r.err("query")}}}
		}
		return []bits.Ret{{V: bits.Tuple{r.info, n, r.okErr}}}
	}
	m.Models["("+q+").VersionInfo"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		return []bits.Ret{{V: r.version}}
	}
	m.Models["os.Exit"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		r.exit = -2
		if x, ok := args[0].(*bits.Int); ok {
			if k, ok := x.Const(); ok {
				r.exit = k
			}
		}
		return []bits.Ret{}
	}
	for _, f := range []string{"Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Panicln"} {
		m.Models["log."+f] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
			r.exit = 1
			return []bits.Ret{}
		}
	}
	// the values of a list, those pointed to if they are pointers
	each := func(o bits.Outcome, v bits.Value) []string {
		var got []string
		l, _ := v.(*bits.Slice)
		for i := 0; l != nil && i < m.Len(o, l); i++ {
			v := m.ElemAt(o, l, i)
			if x, ok := v.(*bits.Iface); ok && x.T != nil {
				v = x.V
			}
			if p, ok := v.(*bits.Ptr); ok && p.Obj != nil {
				if d := m.Deref(o, p); d != nil {
					v = d
				}
			}
			s := r.what(o, v)
			if k := strings.Index(s, inText); k >= 0 {
				for k >= 0 {
					s = s[k+len(inText):]
					e := strings.Index(s, inText)
					if e < 0 {
						break
					}
					got = append(got, s[:e])
					s = s[e+len(inText):]
					k = strings.Index(s, inText)
				}
				continue
			}
			got = append(got, s)
		}
		return got
	}
	for _, f := range []string{"Print", "Printf", "Println", "Fprint", "Fprintf", "Fprintln"} {
		f := f
		m.Models["fmt."+f] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
			o := c.StateOf()
			done := []bits.Ret{{V: bits.Tuple{m.Input(types.Typ[types.Int], "shown"), r.okErr}}}
			if f[0] == 'F' {
				if r.same(o, args[0], "Stderr") {
					return done
				}
				if x, ok := args[0].(*bits.Iface); ok && x.T == nil && x.Key == "writer" {
					l, ok := args[len(args)-1].(*bits.Slice)
					if !ok {
						return nil
					}
					plain := f == "Fprint"
					if f == "Fprintf" {
						t, ok := m.Text(args[1])
						plain = ok && (t == "%s" || t == "%v")
					}
					if !plain || m.Len(o, l) != 1 || !r.put(o, m.ElemAt(o, l, 0)) {
						r.odd = true
					}
					return done
				}
			}
			r.shown = append(r.shown, each(o, args[len(args)-1])...)
			return done
		}
	}
	for _, f := range []string{"(*os.File).WriteString", "(*os.File).Write", "io.WriteString"} {
		prev := m.Models[f]
		m.Models[f] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
			o := c.StateOf()
			if out := r.same(o, args[0], "Stdout"); out || r.same(o, args[0], "Stderr") {
				if out {
					r.shown = append(r.shown, each(o, m.List(types.Typ[types.String], args[1]))...)
				}
				return []bits.Ret{{V: bits.Tuple{m.Input(types.Typ[types.Int], "shown"), r.okErr}}}
			}
			if prev == nil {
				return nil
			}
			return prev(m, c, args)
		}
	}
	for _, f := range []string{"Sprint", "Sprintf", "Sprintln"} {
		m.Models["fmt."+f] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
			t := ""
			for _, s := range each(c.StateOf(), args[len(args)-1]) {
				t += inText + s + inText
			}
			return []bits.Ret{{V: m.Str(t)}}
		}
	}
	return r
}

// inText surrounds a value that is part of a printed text.
const inText = "\x00"

// same says whether v is what a variable of package os holds.
func (r *cmdRun) same(o bits.Outcome, v bits.Value, name string) bool {
	p := r.b.c.P.SSA.ImportedPackage("os")
	if p == nil || p.Var(name) == nil {
		return false
	}
	if x, ok := v.(*bits.Iface); ok && x.T != nil {
		v = x.V
	}
	d := r.m.Deref(o, r.m.GlobalPtr(p.Var(name)))
	return d != nil && r.m.Key(d) == r.m.Key(v)
}

// put is what a handler writes.
func (r *cmdRun) put(o bits.Outcome, v bits.Value) bool {
	if x, ok := v.(*bits.Iface); ok && x.T != nil {
		v = x.V
	}
	l, ok := r.m.Content(o, v)
	if !ok {
		return false
	}
	if len(r.status) == 0 {
		r.status = []int64{200}
	}
	for _, x := range l {
		r.wrote = append(r.wrote, x)
	}
	return true
}

// args sets the arguments of the command.
func (r *cmdRun) args(l ...bits.Value) bool {
	p := r.b.c.P.SSA.ImportedPackage("os")
	if p == nil || p.Var("Args") == nil {
		r.bad("it takes no arguments")
		return false
	}
	r.m.SetGlobal(p.Var("Args"), r.m.List(types.Typ[types.String], append([]bits.Value{r.m.Str("command")}, l...)...))
	return true
}

// code is the status the command ends with.
func (r *cmdRun) code(outs []bits.Outcome) (int64, bool) {
	switch {
	case r.exit >= 0 && len(outs) == 0:
		return r.exit, true
	case r.exit == -1 && len(outs) == 1:
		return 0, true
	}
	r.bad("how it ends is not known")
	return 0, false
}

func commands(c *Ctx) (*Result, error) {
	b := newBitRun(c, "The main function of every command is interpreted with stand-ins for files, formats and the network; what it prints, answers and writes, and its status, are compared with what it is asked for.")
	b.res.Rules = []string{cmdRule}
	for _, p := range []string{"cmd/simple", "cmd/server", "cmd/converter"} {
		if _, err := b.fn(p, "main"); err != nil {
			return nil, err
		}
	}
	var jobs []func()
	add := func(name string, f func()) {
		if s := os.Getenv("CELL"); s == "" || strings.Contains(name, s) {
			jobs = append(jobs, f)
		}
	}
	asks := []string{"1.2.3.4", "::ffff:9.8.7.6", "2001:db8::1", "255.255.255.255", "::", "free4", "free6", "none", "v", "version", "v6", "vv"}
	for _, text := range someTexts {
		if index(asks, text) < 0 {
			asks = append(asks, text)
		}
	}
	for _, ask := range asks {
		for _, fail := range []string{"", "read", "open", "query"} {
			ask, fail := ask, fail
			if len(asks) > 12 && index(asks[:12], ask) < 0 && fail != "" && fail != "query" {
				continue
			}
			{
				n := fmt.Sprintf("simple, asked for %q, %q failing", ask, fail)
				add(n, func() { b.simpleCell(n, ask, fail) })
			}
			if ask == "v" || ask == "v6" || ask == "vv" {
				continue
			}
			n := fmt.Sprintf("server, asked for %q, %q failing", ask, fail)
			add(n, func() { b.serverCell(n, ask, fail) })
		}
	}
	for _, out := range []string{"o.ipdb", "o.scan,p.memip", "o.ipdb,p.scan,q.memip", "p.scan,in.awdb,x/o.ipdb"} {
		for _, rule := range []string{"", "default", "country,city", "line"} {
			for line := 0; line < 4; line++ {
				for _, fail := range []string{"", "read", "open", "dump", "pack"} {
					out, rule, line, fail := out, rule, line, fail
					if (fail == "read" || fail == "open") && line%2 == 0 {
						continue
					}
					for at := 0; at < len(strings.Split(out, ",")) && (at == 0 || fail == "pack"); at++ {
						at := at
						n := fmt.Sprintf("converter to %s by rule %q, lines %02b, %q failing (%d)", out, rule, line, fail, at)
						add(n, func() { b.converterCell(n, out, rule, line&1 != 0, line&2 != 0, fail, at) })
					}
				}
			}
		}
	}
	b.sample("%d runs of commands", len(jobs))
	b.each(len(jobs), func(i int) { jobs[i]() })
	return b.done(), nil
}

// address makes the text of an address and its bytes; nil if it is none.
func (r *cmdRun) address(ask string) (bits.Value, []*bits.Int, []bits.Value) {
	m := r.m
	var l []*bits.Int
	var items []bits.Value
	switch ask {
	case "free4":
		l = append(constInts(m, mapped...), freeBytes(m, "ip", 4)...)
		items = r.textOf("ip", "four", ".", slice(m, copyBytes(l)))
	case "free6":
		l = freeBytes(m, "ip6", 16)
		items = r.textOf("ip", "six", ":", slice(m, copyBytes(l)))
	case "none":
		items = r.plain("none", 3)
	default:
		items = r.lit(ask)
		if v, ok := r.meant("ip", items); ok {
			x, _ := m.Content(bits.Outcome{}.Fresh(), v)
			l = form16(m, x)
		}
		return m.Str(ask), l, items
	}
	// not a version
	for _, x := range items[:1] {
		if x, ok := x.(*bits.Int); ok {
			for _, c := range "vV" {
				if e := m.Equal(x, m.Const(uint64(c), 8, false)); e != 0 && e != 1 {
					m.Assume(e, false)
				}
			}
		}
	}
	return r.str(items), l, items
}

func (b *bitRun) simpleCell(name, ask, fail string) {
	r := b.newCmdRun("cmd/simple", name)
	m := r.m
	r.fails[fail] = true
	text, ip, _ := r.address(ask)
	if !r.args(m.Str("a.awdb"), text) {
		return
	}
	code, ok := r.code(b.run(m, r.main))
	if !ok {
		return
	}
	start := bits.Outcome{}.Fresh()
	want := m.Key(m.Deref(start, r.info))
	version := strings.HasPrefix(ask, "v")
	if version {
		want = m.Key(m.Deref(start, r.version))
	}
	fails := fail == "read" || fail == "open" || !version && (fail == "query" || ip == nil)
	has := index(r.shown, want) >= 0
	switch {
	case fails && code == 0:
		r.bad("it ends with status 0")
	case fails && has:
		r.bad("it prints an answer it did not get")
	case fails:
	case code != 0:
		r.bad("it ends with status %d", code)
	case !has || len(r.shown) != 1:
		r.bad("it does not print the answer, and nothing else")
	case ip != nil && (r.times != 1 || diffBytes(m, form16(m, r.asked), ip) != ""):
		r.bad("it looks up another address")
	default:
		steps := []string{"read a.awdb", "open .awdb " + r.contentOf(r.file)}
		r.logIs(steps...)
	}
}

// web models the HTTP server.
func (r *cmdRun) web() {
	m := r.m
	keep := func(mux, pattern, f bits.Value) []bits.Ret {
		p, ok := m.Text(pattern)
		if !ok {
			r.odd = true
		}
		k := ""
		if mux != nil {
			k = m.Key(mux)
		}
		r.routes[k] = append(r.routes[k], route{p, f})
		return []bits.Ret{{}}
	}
	m.Models["net/http.NewServeMux"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		return []bits.Ret{{V: m.New(m.Zero(r.b.stdType("net/http", "ServeMux")))}}
	}
	for _, f := range []string{"HandleFunc", "Handle"} {
		m.Models["(*net/http.ServeMux)."+f] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
			return keep(args[0], args[1], args[2])
		}
		m.Models["net/http."+f] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
			return keep(nil, args[0], args[1])
		}
	}
	serve := func(c *bits.Site, addr, handler bits.Value) []bits.Ret {
		o := c.StateOf().Copy()
		r.served, r.handler = &o, handler
		r.addr = r.what(c.StateOf(), addr)
		return []bits.Ret{{V: r.err("")}}
	}
	m.Models["net/http.ListenAndServe"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		return serve(c, args[0], args[1])
	}
	m.Models["(*net/http.Server).ListenAndServe"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		s, ok := m.Deref(c.StateOf(), args[0]).(*bits.Struct)
		if !ok {
			return nil
		}
		return serve(c, fieldOf(s, "Addr"), fieldOf(s, "Handler"))
	}
	w := "(net/http.ResponseWriter)."
	m.Models[w+"WriteHeader"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		r.state(args[1])
		return []bits.Ret{{}}
	}
	m.Models[w+"Write"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		if !r.put(c.StateOf(), args[1]) {
			r.odd = true
		}
		return []bits.Ret{{V: bits.Tuple{m.Input(types.Typ[types.Int], "wrote"), r.okErr}}}
	}
	for _, n := range []string{w + "WriteString", "io.WriteString"} {
		m.Models[n] = m.Models[w+"Write"]
	}
	m.Models["net/http.Error"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		r.state(args[2])
		r.put(c.StateOf(), args[1])
		return []bits.Ret{{}}
	}
	m.Models["net/http.NotFound"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		r.status = append(r.status, 404)
		return []bits.Ret{{}}
	}
}

func (r *cmdRun) state(v bits.Value) {
	if x, ok := v.(*bits.Int); ok {
		if k, ok := x.Const(); ok {
			r.status = append(r.status, k)
			return
		}
	}
	r.odd = true
}

// serverCell starts the server and asks it.
func (b *bitRun) serverCell(name, ask, fail string) {
	r := b.newCmdRun("cmd/server", name)
	m := r.m
	r.fails[fail], r.fails[""] = true, true // serving ends with an error at last
	r.web()
	text, ip, items := r.address(ask)
	_ = text
	if !r.args(m.Str("a.ipdb"), m.Str(":8080")) {
		return
	}
	code, ok := r.code(b.run(m, r.main))
	if !ok {
		return
	}
	if fail == "read" || fail == "open" {
		if code == 0 || r.served != nil {
			r.bad("it serves without a database, or ends with status 0")
		}
		return
	}
	switch {
	case r.served == nil:
		r.bad("it does not serve")
		return
	case r.addr != ":8080":
		r.bad("it serves on another address")
		return
	case code == 0:
		r.bad("it ends with status 0 when it cannot serve")
		return
	}
	r.logIs("read a.ipdb", "open .ipdb "+r.contentOf(r.file))
	// which handler the request goes to
	h := r.handler
	if i, ok := h.(*bits.Iface); ok && i.T == nil && i.Nil == 1 {
		h = r.serves("", ask)
	} else if ok && i.T != nil && strings.HasSuffix(i.T.String(), "http.ServeMux") {
		h = r.serves(m.Key(i.V), ask)
	}
	if h == nil || r.odd {
		r.bad("nothing answers, or what is not known")
		return
	}
	url := b.stdType("net/url", "URL")
	req := b.stdType("net/http", "Request")
	if url == nil || req == nil {
		r.bad("there are no requests")
		return
	}
	path := r.str(append(r.lit("/"), items...))
	request := m.New(named(m, req, map[string]bits.Value{"URL": m.New(named(m, url, map[string]bits.Value{"Path": path})), "RequestURI": path, "Method": m.Str("GET")}))
	writer := &bits.Iface{Key: "writer"}
	var outs []bits.Outcome
	r.times, r.asked = 0, nil
	switch x := h.(type) {
	case *bits.Func:
		b.saw(x.Fn)
		outs = m.Apply(*r.served, x, writer, request)
	case *bits.Iface:
		if f, ok := x.V.(*bits.Func); ok {
			b.saw(f.Fn)
			outs = m.Apply(*r.served, f, writer, request)
			break
		}
		var f *ssa.Function
		if x.T != nil {
			f = b.c.P.SSA.LookupMethod(x.T, nil, "ServeHTTP")
		}
		if f == nil {
			r.bad("what answers is not known")
			return
		}
		b.saw(f)
		outs = m.RunFrom(*r.served, f, x.V, writer, request)
	}
	if len(outs) != 1 || r.odd {
		r.bad("%d outcomes of a request where one is expected", len(outs))
		return
	}
	answer := m.Deref(outs[0], r.info)
	if ask == "version" {
		answer = m.Deref(outs[0], r.version)
	}
	var want []bits.Value
	for _, p := range r.pairs {
		if p.kind == "json" && p.key == m.Key(answer) {
			want = p.text
		}
	}
	switch {
	case ask != "version" && (ip == nil || fail == "query"):
		if len(r.status) == 0 || r.status[0] < 400 {
			r.bad("a lookup that fails is answered with status %v", r.status)
		}
	case len(r.status) != 1 || r.status[0] != 200:
		r.bad("it answers with status %v", r.status)
	case want == nil || r.itemsKey(r.wrote) != r.itemsKey(want):
		r.bad("the answer is not the JSON of what the database says")
	case ask != "version" && (r.times != 1 || diffBytes(m, form16(m, r.asked), ip) != ""):
		r.bad("it looks up another address")
	}
}

// serves finds the handler of a request.
func (r *cmdRun) serves(mux, ask string) bits.Value {
	l := append([]route(nil), r.routes[mux]...)
	sort.SliceStable(l, func(i, j int) bool { return len(l[i].pattern) > len(l[j].pattern) })
	for _, x := range l {
		if x.pattern == "/"+ask || strings.HasSuffix(x.pattern, "/") && strings.HasPrefix("/"+ask, x.pattern) {
			return x.f
		}
	}
	return nil
}

func (b *bitRun) converterCell(name, out, rule string, line, replace bool, fail string, at int) {
	r := b.newCmdRun("cmd/converter", name)
	m := r.m
	r.fails[fail] = true
	if p := b.c.P.Pkg("db/field/operate"); p != nil {
		m.Globals(p)
	}
	values := map[string]string{"i": "in.awdb", "o": out}
	if rule != "" {
		values["r"] = rule
	}
	if line {
		values["line"] = "l.ipdb"
	}
	str := func(c *bits.Site, name, def bits.Value) (bits.Value, bool) {
		n, ok := m.Text(name)
		if !ok {
			return nil, false
		}
		if v, ok := values[n]; ok {
			return m.Str(v), true
		}
		return def, true
	}
	yes := func(name, def bits.Value) (bits.Value, bool) {
		n, ok := m.Text(name)
		if ok && n == "line-replace" && replace {
			return &bits.Bool{B: 1}, true
		}
		return def, ok
	}
	m.Models["flag.String"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		if v, ok := str(c, args[0], args[1]); ok {
			return []bits.Ret{{V: m.New(v)}}
		}
		return nil
	}
	m.Models["flag.Bool"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		if v, ok := yes(args[0], args[1]); ok {
			return []bits.Ret{{V: m.New(v)}}
		}
		return nil
	}
	m.Models["flag.StringVar"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		p, isPtr := args[0].(*bits.Ptr)
		if v, ok := str(c, args[1], args[2]); ok && isPtr {
			m.SetPtr(c, p, v)
			return []bits.Ret{{}}
		}
		return nil
	}
	m.Models["flag.BoolVar"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		p, isPtr := args[0].(*bits.Ptr)
		if v, ok := yes(args[1], args[2]); ok && isPtr {
			m.SetPtr(c, p, v)
			return []bits.Ret{{}}
		}
		return nil
	}
	ipd := m.New(m.Input(b.typeOf("db/inf", "IpData"), "dumped"))
	var operations []string
	if p := b.c.P.Pkg("db/field/operate"); p != nil {
		for n, mem := range p.Members {
			f, ok := mem.(*ssa.Function)
			if !ok || f.Object() == nil || !f.Object().Exported() {
				continue
			}
			n := n
			m.Models[f.String()] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
				s := n
				for _, a := range args {
					s += " " + r.what(c.StateOf(), a)
				}
				operations = append(operations, s)
				return []bits.Ret{{}}
			}
		}
	}
	m.Models[load.ModPath+"/db/convert.DumpFile"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		o := c.StateOf()
		r.note("dump %s by %s", r.what(o, args[0]), r.what(o, args[1]))
		if r.fails["dump"] {
			return []bits.Ret{{V: bits.Tuple{&bits.Ptr{}, r.err("dump")}}}
		}
		l, ok := args[2].(*bits.Slice)
		n := m.Len(o, l)
		if !ok || n < 0 {
			m.Notes = append(m.Notes, "operations that are not known")
			return nil
		}
		for i := 0; i < n; i++ {
			f, ok := m.ElemAt(o, l, i).(*bits.Func)
			if !ok {
				m.Notes = append(m.Notes, "operations that are not known")
				return nil
			}
			k := len(operations)
			if g := m.Models[f.Fn.String()]; g != nil {
				g(m, c, []bits.Value{ipd})
			} else {
				m.Apply(o.Copy(), f, ipd)
			}
			if len(operations) == k {
				operations = append(operations, "nothing")
			}
		}
		return []bits.Ret{{V: bits.Tuple{ipd, r.okErr}}}
	}
	packs := 0
	m.Models[load.ModPath+"/db/convert.PackFile"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		r.note("pack %s of %s", r.what(c.StateOf(), args[0]), r.what(c.StateOf(), args[1]))
		packs++
		if r.fails["pack"] && packs-1 == at {
			return []bits.Ret{{V: r.err("pack")}}
		}
		return []bits.Ret{{V: r.okErr}}
	}
	if r.main == nil {
		return
	}
	code, ok := r.code(b.run(m, r.main))
	if !ok {
		return
	}
	data := m.Key(ipd)
	defaults := operations
	// what they are is the matter of C34; they come first
	tail := []string{"AttachDistrict " + data}
	if line {
		op := "AttachLineByCidr "
		if replace {
			op = "ReplaceLineByCidr "
		}
		tail = append([]string{op + data + " " + m.Key(&bits.Iface{Key: "handle"})}, tail...)
	}
	if fail == "" || fail == "pack" {
		want := append(b.defaultNames(m, data), tail...)
		if strings.Join(defaults, "\n") != strings.Join(want, "\n") {
			r.bad("the operations are [%s], not [%s]", strings.Join(defaults, ", "), strings.Join(want, ", "))
			return
		}
	}
	text := rule
	if rule == "" || rule == "default" {
		text = ""
		if p := b.c.P.Pkg("db/field/export"); p != nil {
			if k, ok := p.Pkg.Scope().Lookup("DefaultRule").(*types.Const); ok {
				text = constant.StringVal(k.Val())
			}
		}
	}
	var want []string
	if line {
		want = append(want, "read l.ipdb")
		if fail != "read" {
			want = append(want, "open .ipdb "+r.contentOf(r.file))
		}
	}
	if fail != "read" && fail != "open" {
		want = append(want, "dump in.awdb by "+text)
		if fail != "dump" {
			for i, f := range strings.Split(out, ",") {
				if fail == "pack" && i > at && len(r.log) == len(want) {
					break // those after one that failed may be left out
				}
				want = append(want, "pack "+f+" of "+data)
			}
		}
	}
	if !r.logIs(want...) {
		return
	}
	if (fail == "") != (code == 0) {
		r.bad("it ends with status %d", code)
	}
}

// defaultNames are the operations of every conversion.
func (b *bitRun) defaultNames(m *bits.Machine, data string) []string {
	p := b.c.P.Pkg("db/field/operate")
	if p == nil {
		return nil
	}
	g, ok := p.Members["DefaultOperates"].(*ssa.Global)
	if !ok {
		return nil
	}
	o := bits.Outcome{}.Fresh()
	l, ok := m.Deref(o, m.GlobalPtr(g)).(*bits.Slice)
	var names []string
	for i := 0; ok && i < m.Len(o, l); i++ {
		if f, ok := m.ElemAt(o, l, i).(*bits.Func); ok {
			names = append(names, f.Fn.Name()+" "+data)
		}
	}
	return names
}
