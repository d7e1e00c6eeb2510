package check

import (
	"fmt"
	"go/types"
	"net"
	"os"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/bits"
	"uipcheck/load"
)

func init() {
	register("C35", "proof", steps)
}

const stepRule = "each step is done once, in order, with what it is given"

// stepRun is a run of code that calls out to stand-ins, which log what they
// are called with.
type stepRun struct {
	*textRun
	name  string
	log   []string
	okErr *bits.Iface
	bad   func(string, ...interface{})
	file  []bits.Value
	made  *bits.Ptr // the file that was made
	fails map[string]bool
	hands map[string]*bits.Func
}

func (b *bitRun) newStepRun(pkg string, f *ssa.Function, name string) *stepRun {
	s := &stepRun{textRun: b.newTextRun(b.c.P.Pkg(pkg)), name: name, okErr: &bits.Iface{Nil: 1}, fails: map[string]bool{}, hands: map[string]*bits.Func{}}
	s.bad = func(m string, a ...interface{}) {
		if os.Getenv("ALLCELLS") != "" {
			fmt.Printf("BAD %s: %s\n", name, fmt.Sprintf(m, a...)+notes(s.m))
		}
		b.fail(stepRule, f, "for "+name+": "+fmt.Sprintf(m, a...)+notes(s.m))
	}
	s.file = s.plain("file", 3)
	m := s.m
	ext := func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		if x, ok := m.Text(args[0]); ok {
			return []bits.Ret{{V: m.Str(path.Ext(x))}}
		}
		return nil
	}
	m.Models["path.Ext"], m.Models["path/filepath.Ext"] = ext, ext
	return s
}

func (s *stepRun) note(f string, a ...interface{}) { s.log = append(s.log, fmt.Sprintf(f, a...)) }

// err is the error of a step: nil unless the step fails.
func (s *stepRun) err(step string) *bits.Iface {
	if s.fails[step] {
		return &bits.Iface{Key: "failure of " + step}
	}
	return s.okErr
}

// what names a value.
func (s *stepRun) what(o bits.Outcome, v bits.Value) string {
	if x, ok := v.(*bits.Slice); ok {
		if l, ok := s.m.Content(o, x); ok {
			var r []bits.Value
			for _, i := range l {
				r = append(r, i)
			}
			if c, ok := constBytes(r); ok {
				return string(c)
			}
			return s.itemsKey(r)
		}
	}
	if x, ok := v.(*bits.Iface); ok && x.T == nil && x.Nil == 1 {
		return "none"
	}
	return s.m.Key(v)
}

func (s *stepRun) contentOf(items []bits.Value) string {
	return s.what(bits.Outcome{}.Fresh(), s.str(items))
}

// files models files: what they are read from and written to.
func (s *stepRun) files() {
	m := s.m
	open := &bits.Ptr{}
	m.Models["os.ReadFile"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		s.note("read %s", s.what(c.StateOf(), args[0]))
		if s.fails["read"] {
			return []bits.Ret{{V: bits.Tuple{m.NilSlice(), s.err("read")}}}
		}
		return []bits.Ret{{V: bits.Tuple{m.Bytes(s.file), s.okErr}}}
	}
	m.Models["io/ioutil.ReadFile"] = m.Models["os.ReadFile"]
	m.Models["os.Open"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		s.note("read %s", s.what(c.StateOf(), args[0]))
		if s.fails["read"] {
			return []bits.Ret{{V: bits.Tuple{&bits.Ptr{}, s.err("read")}}}
		}
		open = m.NewStream()
		return []bits.Ret{{V: bits.Tuple{open, s.okErr}}}
	}
	m.Models["io.ReadAll"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		i, ok := args[0].(*bits.Iface)
		if p, isPtr := ptrOf(i); !ok || !isPtr || p.Obj == nil || p.Obj != open.Obj {
			return nil
		}
		return []bits.Ret{{V: bits.Tuple{m.Bytes(s.file), s.okErr}}}
	}
	create := func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		s.note("create %s", s.what(c.StateOf(), args[0]))
		if s.fails["create"] {
			return []bits.Ret{{V: bits.Tuple{&bits.Ptr{}, s.err("create")}}}
		}
		if s.made == nil {
			s.made = m.NewStream()
		}
		return []bits.Ret{{V: bits.Tuple{s.made, s.okErr}}}
	}
	m.Models["os.Create"] = create
	m.Models["os.OpenFile"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		x, ok := args[1].(*bits.Int)
		if !ok {
			return nil
		}
		n, ok := x.Const()
		if !ok || int(n)&os.O_TRUNC == 0 || int(n)&os.O_CREATE == 0 || int(n)&(os.O_APPEND|os.O_EXCL) != 0 {
			return nil
		}
		return create(m, c, args)
	}
	m.Models["(*os.File).Close"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		p, ok := args[0].(*bits.Ptr)
		if ok && s.made != nil && p.Obj == s.made.Obj {
			s.note("close")
			return []bits.Ret{{V: s.err("close")}}
		}
		return []bits.Ret{{V: s.okErr}}
	}
	write := m.Models["(*bytes.Buffer).Write"]
	m.Models["(*os.File).Write"], m.Models["(*os.File).WriteString"] = write, write
	m.Models["(*os.File).Sync"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		return []bits.Ret{{V: s.okErr}}
	}
	m.Models["os.WriteFile"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		s.note("create %s", s.what(c.StateOf(), args[0]))
		if s.fails["create"] || s.fails["close"] {
			return []bits.Ret{{V: s.err("create")}}
		}
		l, ok := m.Content(c.StateOf(), args[1])
		if !ok {
			return nil
		}
		s.made = m.NewStream()
		var r []bits.Value
		for _, x := range l {
			r = append(r, x)
		}
		if !m.Emit(c, s.made, r) {
			return nil
		}
		s.note("close")
		return []bits.Ret{{V: s.okErr}}
	}
}

func ptrOf(i *bits.Iface) (*bits.Ptr, bool) {
	if i == nil {
		return nil, false
	}
	p, ok := i.V.(*bits.Ptr)
	return p, ok
}

// standIn is a function that does what f says.
func (s *stepRun) standIn(name string, sig types.Type, f func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret) *bits.Func {
	if x := s.hands[name]; x != nil {
		return x
	}
	g, _ := sig.Underlying().(*types.Signature)
	fn := s.b.c.P.SSA.NewFunction("stand-in:"+name, g, "stand-in")
	s.m.Models[fn.String()] = f
	s.hands[name] = &bits.Func{Fn: fn}
	return s.hands[name]
}

// formats makes the table of a kind of format know some extensions.
func (s *stepRun) formats(get string, sig types.Type, known []string, f func(ext string) func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret) {
	s.m.Models[load.ModPath+"/db/format."+get] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		x, ok := m.Text(args[0])
		if !ok {
			return nil
		}
		if index(known, x) < 0 {
			return []bits.Ret{{V: m.Zero(sig)}}
		}
		return []bits.Ret{{V: s.standIn(get+x, sig, f(x))}}
	}
}

func (s *stepRun) logIs(want ...string) bool {
	if strings.Join(s.log, "\n") == strings.Join(want, "\n") {
		return true
	}
	s.bad("the steps are [%s], not [%s]", strings.Join(s.log, ", "), strings.Join(want, ", "))
	return false
}

// end is the one outcome of a call, with its error.
func (s *stepRun) end(outs []bits.Outcome, fails bool) (bits.Outcome, bool) {
	if len(outs) != 1 || len(outs[0].Res) == 0 {
		s.bad("%d outcomes where one is expected", len(outs))
		return bits.Outcome{}, false
	}
	e, ok := outs[0].Res[len(outs[0].Res)-1].(*bits.Iface)
	switch {
	case !ok || e.Nil != 0 && e.Nil != 1:
		s.bad("whether it fails is not known")
		return bits.Outcome{}, false
	case fails != (e.Nil == 0):
		s.bad("it fails: %v, expected: %v", e.Nil == 0, fails)
		return bits.Outcome{}, false
	}
	return outs[0], true
}

var someExts = []string{".ipdb", ".awdb", ".scan", ".memip"}

// files with and without an extension that is known
var someFiles = []string{"a.ipdb", "/x.y/b.awdb", "dir.ipdb/c", "noext", "two.awdb.scan", "z.memip", "x.zip", ".scan", "a.ipdb.bak"}

func steps(c *Ctx) (*Result, error) {
	b := newBitRun(c, "The entry points of conversions and lookups are interpreted with stand-ins for files, formats, rules and operations that log what they are called with; the log and the result are compared with what they are for.")
	b.res.Rules = []string{stepRule}
	var jobs []func()
	add := func(name string, f func()) {
		if s := os.Getenv("CELL"); s == "" || strings.Contains(name, s) {
			jobs = append(jobs, f)
		}
	}
	get := func(pkg, name string) (*ssa.Function, error) { return b.fn(pkg, name) }
	dump, err := get("db/convert", "DumpFile")
	if err != nil {
		return nil, err
	}
	packF, err := get("db/convert", "PackFile")
	if err != nil {
		return nil, err
	}
	packB, err := get("db/convert", "PackBytes")
	if err != nil {
		return nil, err
	}
	packW, err := get("db/convert", "PackWriter")
	if err != nil {
		return nil, err
	}
	open, err := get("db/query", "NewDb")
	if err != nil {
		return nil, err
	}
	openB, err := get("db/query", "NewDbFromBytes")
	if err != nil {
		return nil, err
	}
	for _, shape := range []string{"no rows", "no columns", "rows that go", "one row"} {
		for ops := 1; ops < 4; ops++ {
			shape, ops := shape, ops
			name := fmt.Sprintf("DumpFile of data with %s, %d operations", shape, ops)
			add(name, func() { b.dumpSteps(dump, name, someFiles[0], "country", ops, "", shape) })
		}
		for how, f := range map[string]*ssa.Function{"file": packF, "bytes": packB, "writer": packW} {
			shape, how, f := shape, how, f
			for _, fail := range []string{"", "pack"} {
				fail := fail
				name := fmt.Sprintf("%s of data with %s, %q failing", f.Name(), shape, fail)
				to := someExts[0]
				if how == "file" {
					to = someFiles[0]
				}
				add(name, func() { b.packSteps(f, name, how, to, fail, shape) })
			}
		}
	}
	for _, file := range someFiles {
		for _, rule := range []string{"", "country,city", "line"} {
			for ops := 0; ops < 4; ops++ {
				for _, fail := range []string{"", "read", "dump"} {
					file, rule, ops, fail := file, rule, ops, fail
					name := fmt.Sprintf("DumpFile of %q by rule %q with %d operations, %q failing", file, rule, ops, fail)
					add(name, func() { b.dumpSteps(dump, name, file, rule, ops, fail, "") })
				}
			}
		}
		for _, fail := range []string{"", "create", "pack", "close"} {
			file, fail := file, fail
			name := fmt.Sprintf("PackFile to %q, %q failing", file, fail)
			add(name, func() { b.packSteps(packF, name, "file", file, fail, "") })
		}
		for _, fail := range []string{"", "read", "open"} {
			file, fail := file, fail
			name := fmt.Sprintf("NewDb of %q, %q failing", file, fail)
			add(name, func() { b.openSteps(open, name, file, false, fail) })
		}
	}
	for _, kind := range append([]string{"", ".zip", "ipdb"}, someExts...) {
		for _, fail := range []string{"", "pack"} {
			kind, fail := kind, fail
			n1 := fmt.Sprintf("PackBytes of kind %q, %q failing", kind, fail)
			add(n1, func() { b.packSteps(packB, n1, "bytes", kind, fail, "") })
			n2 := fmt.Sprintf("PackWriter of kind %q, %q failing", kind, fail)
			add(n2, func() { b.packSteps(packW, n2, "writer", kind, fail, "") })
		}
		for _, fail := range []string{"", "open"} {
			kind, fail := kind, fail
			name := fmt.Sprintf("NewDbFromBytes of kind %q, %q failing", kind, fail)
			add(name, func() { b.openSteps(openB, name, kind, true, fail) })
		}
	}
	hows := []string{"Query 4", "Query 16", "Query 6", "QueryU32", "QueryStr 4", "QueryStr 6", "QueryStr no address", "VersionInfo", "GetIntern"}
	for _, text := range someTexts {
		hows = append(hows, "QueryStr ="+text)
	}
	for _, how := range hows {
		for _, fail := range []string{"", "query"} {
			how, fail := how, fail
			name := fmt.Sprintf("%q, %q failing", how, fail)
			add(name, func() { b.querySteps(openB, name, how, fail) })
		}
	}
	b.sample("%d runs of entry points", len(jobs))
	b.each(len(jobs), func(i int) { jobs[i]() })
	return b.done(), nil
}

// someTexts are texts that are addresses, and some that only look like it.
var someTexts = []string{"0.0.0.0", "255.255.255.255", "::", "::1", "2001:DB8::1", "::ffff:1.2.3.4", "::1.2.3.4", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff",
	"", "1.2.3.4/8", "1.2.3.4/x", "2001:db8::/32", " 1.2.3.4", "1.2.3.4 ", "1.2.3.4\n", "1.2.3.4:80", "[::1]", "[::1]:80", "fe80::1%eth0", "01.2.3.4", "1.2.3", "1.2.3.4.5",
	"256.0.0.1", "-1.0.0.0", "localhost", "0x01020304", "16909060", "1:2:3:4:5:6:7:8:9", "::1::", "1.2.3.4,5.6.7.8"}

// someData is data of a shape, or any.
func (s *stepRun) someData(name, shape string) *bits.Ptr {
	m, b := s.m, s.b
	t := b.typeOf("db/inf", "IpData")
	if shape == "" {
		return m.New(m.Input(t, name))
	}
	str := types.Typ[types.String]
	raw := b.typeOf("db/inf", "IpRaw")
	var fs, rows []bits.Value
	if shape != "no columns" {
		fs = append(fs, m.Str("country"), m.Str("isp"))
	}
	if shape != "no rows" {
		rows = append(rows, named(m, raw, map[string]bits.Value{"Cidr": m.New(m.Input(b.stdType("net", "IPNet"), name+".net")), "FieldValues": m.List(str, fs...)}))
	}
	return m.New(named(m, t, map[string]bits.Value{"Version": m.New(m.Input(b.typeOf("db/inf", "VersionInfo"), name+".version")), "Fields": m.List(str, fs...), "Ips": m.List(raw, rows...)}))
}

func (b *bitRun) dumpSteps(f *ssa.Function, name, file, rule string, nops int, fail, shape string) {
	s := b.newStepRun("db/convert", f, name)
	m := s.m
	s.fails[fail] = true
	s.files()
	ipd := s.someData("dumped", shape)
	m.Models[load.ModPath+"/db/field/export.ParseRule"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		r := s.what(c.StateOf(), args[0])
		if r == "" {
			return []bits.Ret{{V: s.okErr}}
		}
		return []bits.Ret{{V: &bits.Iface{Key: "rule " + r}}}
	}
	s.formats("GetDumpFormat", b.typeOf("db/inf", "Dump"), someExts, func(ext string) func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		return func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
			s.note("dump %s %s %s", ext, s.what(c.StateOf(), args[0]), s.what(c.StateOf(), args[1]))
			if s.fails["dump"] {
				return []bits.Ret{{V: bits.Tuple{&bits.Ptr{}, s.err("dump")}}}
			}
			return []bits.Ret{{V: bits.Tuple{ipd, s.okErr}}}
		}
	})
	opT := b.typeOf("db/field/operate", "Operate")
	var ops []bits.Value
	var want []string
	for i := 0; i < nops; i++ {
		k := fmt.Sprint("op", i%2) // the third is the first again
		want = append(want, k+" "+m.Key(ipd))
		ops = append(ops, s.standIn(k, opT, func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
			s.note("%s %s", k, s.what(c.StateOf(), args[0]))
			if p, ok := args[0].(*bits.Ptr); ok && shape == "rows that go" {
				m.SetPtr(c, p, m.Deref(bits.Outcome{}.Fresh(), s.someData("less", "no rows")))
			}
			return []bits.Ret{{}}
		}))
	}
	list := m.List(opT, ops...)
	if nops == 0 {
		list = m.NilSlice()
	}
	ext := path.Ext(file)
	known := index(someExts, ext) >= 0
	o, ok := s.end(b.run(m, f, m.Str(file), m.Str(rule), list), fail != "" || !known)
	if !ok {
		return
	}
	exporter := "none"
	if rule != "" {
		exporter = s.what(o, &bits.Iface{Key: "rule " + rule})
	}
	steps := []string{"read " + file, "dump " + ext + " " + s.contentOf(s.file) + " " + exporter}
	switch {
	case !known:
		// the file may be read first, or not
		if len(s.log) > 0 {
			s.logIs(steps[0])
		}
		return
	case fail == "read":
		s.logIs(steps[0])
		return
	case fail == "dump":
		s.logIs(steps...)
		return
	}
	if !s.logIs(append(steps, want...)...) {
		return
	}
	if m.Key(o.Res[0]) != m.Key(ipd) {
		s.bad("the result is not what was dumped")
	}
}

func (b *bitRun) packSteps(f *ssa.Function, name, how, file, fail, shape string) {
	s := b.newStepRun("db/convert", f, name)
	m := s.m
	s.fails[fail] = true
	s.files()
	ipd := s.someData("data", shape)
	packed := s.plain("packed", 5)
	s.formats("GetPackFormat", b.typeOf("db/inf", "Pack"), someExts, func(ext string) func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		return func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
			s.note("pack %s %s", ext, s.what(c.StateOf(), args[0]))
			if !s.fails["pack"] && !m.Emit(c, args[1], packed) {
				return nil
			}
			return []bits.Ret{{V: s.err("pack")}}
		}
	})
	ext := file
	args := []bits.Value{m.Str(file), ipd}
	if how == "file" {
		ext = path.Ext(file)
	}
	var w *bits.Ptr
	if how == "writer" {
		w = m.NewStream()
		args = append(args, &bits.Iface{T: types.NewPointer(b.stdType("bytes", "Buffer")), V: w})
	}
	known := index(someExts, ext) >= 0
	o, ok := s.end(b.run(m, f, args...), fail != "" || !known)
	if !ok {
		return
	}
	if !known {
		s.logIs()
		return
	}
	want := []string{"pack " + ext + " " + m.Key(ipd)}
	if how == "file" {
		if fail == "create" {
			s.logIs("create " + file)
			return
		}
		want = append(append([]string{"create " + file}, want...), "close")
		// a buffer may be packed to first
		if len(s.log) == 3 && s.log[0] == want[1] {
			s.log[0], s.log[1] = s.log[1], s.log[0]
		}
		if fail == "pack" && len(s.log) == 1 && s.log[0] == want[1] {
			return
		}
	}
	if !s.logIs(want...) || fail != "" {
		return
	}
	var got []bits.Value
	switch how {
	case "bytes":
		if l, ok := m.Content(o, o.Res[0]); ok {
			for _, x := range l {
				got = append(got, x)
			}
		}
	case "writer":
		got, _ = m.Written(o, w)
	case "file":
		got, _ = m.Written(o, s.made)
	}
	if s.itemsKey(got) != s.itemsKey(packed) {
		s.bad("what was packed is not what the %s holds", how)
	}
}

// handle models the handle of an open database.
func (s *stepRun) handle() {
	b := s.b
	query, q := b.typeOf("db/inf", "NewQuery"), b.typeOf("db/inf", "Query").String()
	s.formats("GetQueryFormat", query, someExts, func(ext string) func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		return func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
			s.note("open %s %s", ext, s.what(c.StateOf(), args[0]))
			if s.fails["open"] {
				return []bits.Ret{{V: bits.Tuple{s.okErr, s.err("open")}}}
			}
			return []bits.Ret{{V: bits.Tuple{&bits.Iface{Key: "handle"}, s.okErr}}}
		}
	})
	s.m.Models["("+q+").BuildCache"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret { return []bits.Ret{{}} }
	// the list of addresses that are looked up in advance is of no interest
	split := s.m.Models["strings.Split"]
	s.m.Models["strings.Split"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		if x, ok := m.Text(args[0]); ok && len(x) > 1000 {
			return []bits.Ret{{V: m.List(types.Typ[types.String])}}
		}
		return split(m, c, args)
	}
}

func (b *bitRun) openSteps(f *ssa.Function, name, file string, bytes bool, fail string) {
	s := b.newStepRun("db/query", f, name)
	m := s.m
	s.fails[fail] = true
	s.files()
	s.handle()
	ext := path.Ext(file)
	args := []bits.Value{m.Str(file)}
	if bytes {
		ext = file
		args = append(args, m.Bytes(s.file))
	}
	known := index(someExts, ext) >= 0
	_, ok := s.end(b.run(m, f, args...), fail != "" || !known)
	if !ok {
		return
	}
	var want []string
	if !bytes {
		want = append(want, "read "+file)
	}
	switch {
	case fail == "read":
		s.logIs(want...)
		return
	case !known:
		if len(s.log) > 0 || bytes {
			s.logIs(want...)
		}
		return
	}
	s.logIs(append(want, "open "+ext+" "+s.contentOf(s.file))...)
}

func (b *bitRun) querySteps(open *ssa.Function, name, how, fail string) {
	words := strings.Fields(how)
	db := b.typeOf("db/query", "Db")
	var f *ssa.Function
	if words[0] == "GetIntern" {
		f = b.c.P.Func("db/query", words[0])
	} else if db != nil {
		f = b.c.P.SSA.LookupMethod(types.NewPointer(db), b.c.P.Pkg("db/query").Pkg, words[0])
	}
	if f == nil || len(f.Blocks) == 0 {
		b.fail(stepRule, open, "there is no "+words[0])
		return
	}
	s := b.newStepRun("db/query", f, name)
	m := s.m
	s.fails[fail] = true
	s.handle()
	info := m.New(m.Input(b.typeOf("db/inf", "IpInfo"), "answer"))
	version := m.New(m.Input(b.typeOf("db/inf", "VersionInfo"), "version"))
	n := m.Input(types.Typ[types.Int], "mask")
	v4 := append(constInts(m, mapped...), freeBytes(m, "ip", 4)...)
	v6 := freeBytes(m, "ip6", 16)
	u32 := m.Input(types.Typ[types.Uint32], "number").(*bits.Int)
	t4, t6, none := s.textOf("ip", "four", ".", slice(m, copyBytes(v4))), s.textOf("ip", "six", ":", slice(m, copyBytes(v6))), s.plain("none", 3)
	for _, l := range [][]bits.Value{t4, t6} {
		m.Assume(m.Equal(l[0].(*bits.Int), none[0].(*bits.Int)), false)
	}
	var asked []*bits.Int
	times := 0
	q := b.typeOf("db/inf", "Query").String()
	m.Models["("+q+").Query"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		times++
		asked, _ = m.Content(c.StateOf(), args[1])
		if s.fails["query"] {
			return []bits.Ret{{V: bits.Tuple{info, n, s.err("query")}}}
		}
		return []bits.Ret{{V: bits.Tuple{info, n, s.okErr}}}
	}
	m.Models["("+q+").VersionInfo"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		return []bits.Ret{{V: version}}
	}
	o, ok := s.end(b.run(m, open, m.Str(".ipdb"), m.Bytes(s.file)), false)
	if !ok {
		return
	}
	b.saw(f)
	handle := o.Res[0]
	var want []*bits.Int
	args := []bits.Value{handle}
	switch how {
	case "Query 4":
		want = v4
		args = append(args, slice(m, copyBytes(v4[12:])))
	case "Query 16":
		want = v4
		args = append(args, slice(m, copyBytes(v4)))
	case "Query 6":
		want = v6
		args = append(args, slice(m, copyBytes(v6)))
	case "QueryU32":
		want = constInts(m, mapped...)
		for i := 3; i >= 0; i-- {
			want = append(want, &bits.Int{Bits: append([]bits.Bit(nil), u32.Bits[8*i:8*i+8]...)})
		}
		normAll(m, want)
		args = append(args, u32)
	case "QueryStr 4":
		want = v4
		args = append(args, s.str(t4))
	case "QueryStr 6":
		want = v6
		args = append(args, s.str(t6))
	case "QueryStr no address":
		args = append(args, s.str(none))
	}
	if k := strings.Index(how, "="); k >= 0 {
		text := how[k+1:]
		args = append(args, m.Str(text))
		if ip := net.ParseIP(text); ip != nil {
			want = constInts(m, ip.To16()...)
		}
	}
	outs := m.RunFrom(o, f, args...)
	if how == "VersionInfo" || how == "GetIntern" {
		w := m.Key(version)
		if how == "GetIntern" {
			w = m.Key(&bits.Iface{Key: "handle"})
		}
		if len(outs) != 1 || len(outs[0].Res) != 1 || m.Key(outs[0].Res[0]) != w {
			s.bad("it does not give that of the handle")
		}
		return
	}
	if o, ok = s.end(outs, fail != "" || want == nil); !ok || want == nil {
		return
	}
	switch {
	case times == 0:
		s.bad("the handle is not asked")
	case len(asked) != 4 && len(asked) != 16 || diffBytes(m, form16(m, asked), want) != "":
		s.bad("the handle is asked about another address")
	case fail == "" && (m.Key(o.Res[0]) != m.Key(info) || len(o.Res) != 3 || m.Key(o.Res[1]) != m.Key(n)):
		s.bad("the answer is not that of the handle")
	}
}
