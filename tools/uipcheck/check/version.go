package check

import (
	"fmt"
	"go/types"
	"net"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"uipcheck/bits"
)

func init() {
	register("C37", "proof", versions)
}

const versionRule = "a database says of itself what is so"

func (b *bitRun) badVersion(m *bits.Machine, f *ssa.Function, name, s string, a ...interface{}) {
	if os.Getenv("ALLCELLS") != "" {
		fmt.Printf("BAD %s: %s\n", name, fmt.Sprintf(s, a...)+notes(m))
	}
	b.fail(versionRule, f, "for "+name+": "+fmt.Sprintf(s, a...)+notes(m))
}

func versions(c *Ctx) (*Result, error) {
	b := newBitRun(c, "The version that an opened database reports is interpreted with a free description of the file; the self checks with a stand-in for the database; the questions a version answers for every family.")
	b.res.Rules = []string{versionRule}
	info := b.typeOf("db/inf", "VersionInfo")
	db := b.typeOf("db/query", "Db")
	if info == nil || db == nil {
		return nil, fmt.Errorf("db/inf.VersionInfo or db/query.Db is not there")
	}
	var jobs []func()
	// the questions
	for name, want := range map[string]func(k int) bool{
		"HasIpV4": func(k int) bool { return k&1 == 1 },
		"HasIpV6": func(k int) bool { return k&2 == 2 },
		"IsIpAll": func(k int) bool { return k == 3 },
		"IsIpV4":  func(k int) bool { return k == 1 },
		"IsIpV6":  func(k int) bool { return k == 2 },
	} {
		f := b.g.method("db/inf", "VersionInfo", name)
		if f == nil {
			return nil, fmt.Errorf("(*db/inf.VersionInfo).%s is not there", name)
		}
		for k := 0; k < 4; k++ {
			k, want := k, want
			jobs = append(jobs, func() {
				m := b.machine()
				v := m.Input(info, "version").(*bits.Struct)
				st := info.Underlying().(*types.Struct)
				for i := range v.F {
					if st.Field(i).Name() == "IpType" {
						v.F[i] = m.Const(uint64(k), 64, true)
					}
				}
				outs := b.run(m, f, m.New(v))
				if len(outs) != 1 {
					b.badVersion(m, f, f.Name(), "%d outcomes", len(outs))
					return
				}
				if x, ok := outs[0].Res[0].(*bits.Bool); !ok || x.B != b2bit(want(k)) {
					b.badVersion(m, f, fmt.Sprintf("%s of family %d", f.Name(), k), "the answer is not %v", want(k))
				}
			})
		}
	}
	// the self checks
	for name, l := range map[string][][2]string{
		"CheckV4": {{"8.8.8.8", "美国"}, {"119.29.29.29", "中国"}},
		"CheckV6": {{"2001:4860:4860::8888", "美国"}, {"2606:4700:4700::1111", "美国"}},
	} {
		f := b.g.method("db/query", "Db", name)
		if f == nil {
			return nil, fmt.Errorf("(*db/query.Db).%s is not there", name)
		}
		for _, x := range []string{"中国", "美国", "", "fails", "free"} {
			for _, y := range []string{"中国", "美国", "", "fails", "free"} {
				l, got := l, []string{x, y}
				jobs = append(jobs, func() { b.selfCheck(f, l, got) })
			}
		}
	}
	for _, tc := range b.versionCells() {
		jobs = append(jobs, tc)
	}
	b.sample("%d questions to databases about themselves", len(jobs))
	b.each(len(jobs), func(i int) { jobs[i]() })
	return b.done(), nil
}

// selfCheck asks whether the database knows two addresses.
func (b *bitRun) selfCheck(f *ssa.Function, l [][2]string, got []string) {
	name := fmt.Sprintf("%s with answers %v", f.Name(), got)
	r := b.newStepRun("db/query", f, name)
	m := r.m
	r.handle()
	info := b.typeOf("db/inf", "IpInfo")
	var answers []bits.Value
	var other []bits.Value
	for i, g := range got {
		v := m.Input(info, fmt.Sprint("answer", i)).(*bits.Struct)
		st := info.Underlying().(*types.Struct)
		for k := range v.F {
			if st.Field(k).Name() == "Country" {
				v.F[k] = m.Str(g)
				if g == "free" {
					v.F[k] = r.str(r.plain(fmt.Sprint("country", i), 6))
					for _, c := range []string{"美国", "中国"} {
						_ = c
					}
					l, _ := m.Content(bits.Outcome{}.Fresh(), v.F[k])
					m.Assume(m.Equal(l[5], m.Const(0xBD, 8, false)), false) // the last of both names
				}
			}
		}
		answers = append(answers, m.New(v))
		other = append(other, v)
	}
	m.Models["("+b.typeOf("db/inf", "Query").String()+").Query"] = func(m *bits.Machine, c *bits.Site, args []bits.Value) []bits.Ret {
		asked, _ := m.Content(c.StateOf(), args[1])
		for i, x := range l {
			if len(asked) > 0 && diffBytes(m, form16(m, asked), constInts(m, net.ParseIP(x[0]).To16()...)) == "" {
				if got[i] == "fails" {
					return []bits.Ret{{V: bits.Tuple{&bits.Ptr{}, m.Input(types.Typ[types.Int], "mask"), r.err("query")}}}
				}
				return []bits.Ret{{V: bits.Tuple{answers[i], m.Input(types.Typ[types.Int], "mask"), r.okErr}}}
			}
		}
		r.note("another address")
		return nil
	}
	r.fails["query"] = true
	open := b.c.P.Func("db/query", "NewDbFromBytes")
	if open == nil {
		b.badVersion(m, f, name, "NewDbFromBytes is not there")
		return
	}
	outs := b.run(m, open, m.Str(".ipdb"), m.Bytes(r.file))
	if len(outs) != 1 {
		b.badVersion(m, f, name, "nothing can be opened")
		return
	}
	b.saw(f)
	done := m.RunFrom(outs[0], f, outs[0].Res[0])
	if len(done) != 1 || len(done[0].Res) != 1 || index(r.log, "another address") >= 0 {
		b.badVersion(m, f, name, "%d outcomes where one is expected, or another address is asked for", len(done))
		return
	}
	good := got[0] == l[0][1] && got[1] == l[1][1]
	i, ok := done[0].Res[0].(*bits.Iface)
	if !ok {
		b.badVersion(m, f, name, "the outcome is not known")
		return
	}
	nil_ := done[0].Bit(i.Nil)
	if nil_ != b2bit(good) {
		b.badVersion(m, f, name, "it succeeds though the answers are wrong, or fails though they are right")
	}
}

// versionCells are descriptions of files.
func (b *bitRun) versionCells() []func() {
	ask := b.g.method("db/query", "Db", "VersionInfo")
	query := b.g.method("db/query", "Db", "Query")
	var jobs []func()
	text := func(s string) func(m *bits.Machine, t types.Type) bits.Value {
		return func(m *bits.Machine, t types.Type) bits.Value { return m.Str(s) }
	}
	free := func(name string, n int) func(m *bits.Machine, t types.Type) bits.Value {
		return func(m *bits.Machine, t types.Type) bits.Value {
			var l []bits.Value
			for i := 0; i < n; i++ {
				l = append(l, m.Input(byteT, fmt.Sprint(name, i)))
			}
			x := m.Bytes(l)
			x.Str = true
			return x
		}
	}
	run := func(format, name string, tc trieCell, set map[string]func(m *bits.Machine, t types.Type) bits.Value, want func(m *bits.Machine, meta *bits.Struct) map[string]func(o bits.Outcome, v bits.Value) bool) {
		jobs = append(jobs, func() {
			open, dump := b.opener("db/format/"+format), b.dumpOf("db/format/"+format)
			if open == nil || dump == nil || ask == nil || query == nil {
				b.fail(versionRule, ask, "the opener of "+format+" files, Db.Query or Db.VersionInfo is not there")
				return
			}
			b.saw(ask)
			name := format + " with " + name
			tc.ask = &versionAsk{set: set, check: func(m *bits.Machine, o bits.Outcome, q *bits.Iface, meta *bits.Struct) {
				outs := m.RunFrom(o, ask, b.dbOf(m, query, q))
				if len(outs) != 1 {
					b.badVersion(m, ask, name, "%d outcomes", len(outs))
					return
				}
				v, ok := m.Deref(outs[0], outs[0].Res[0]).(*bits.Struct)
				if !ok || meta == nil {
					b.badVersion(m, ask, name, "the version is not known")
					return
				}
				ws := want(m, meta)
				var fs []string
				for f := range ws {
					fs = append(fs, f)
				}
				sort.Strings(fs)
				for _, f := range fs {
					if x := fieldOf(v, f); x == nil || !ws[f](outs[0], x) {
						b.badVersion(m, ask, name, "its %s is %s", f, m.Key(x))
					}
				}
			}}
			if format == "ipdb" {
				b.ipdbLookup(open, dump, query, tc)
			} else {
				b.awdbLookup(open, dump, query, tc)
			}
		})
	}
	type asks = map[string]func(o bits.Outcome, v bits.Value) bool
	is := func(m *bits.Machine, w bits.Value) func(o bits.Outcome, v bits.Value) bool {
		return func(o bits.Outcome, v bits.Value) bool {
			x, ok := v.(*bits.Int)
			y, ok2 := w.(*bits.Int)
			if ok && ok2 {
				return m.Same(m.Wide(x, true), m.Wide(y, true))
			}
			return m.Key(v) == m.Key(w) || strText(v) && strText(w) && sameText(m, o, v, w)
		}
	}
	list := func(m *bits.Machine, l ...string) func(o bits.Outcome, v bits.Value) bool {
		return func(o bits.Outcome, v bits.Value) bool {
			if m.Len(o, v) != len(l) {
				return false
			}
			var got []string
			for i := range l {
				t, ok := m.Text(m.ElemAt(o, v, i))
				if !ok {
					return false
				}
				got = append(got, t)
			}
			// in any order
			want := append([]string(nil), l...)
			sort.Strings(got)
			sort.Strings(want)
			return strings.Join(got, "\n") == strings.Join(want, "\n")
		}
	}
	for ver := 1; ver <= 3; ver++ {
		for _, langs := range [][]string{{"CN"}, {"CN", "EN"}, {"EN", "CN"}, {"JP", "CN", "EN"}} {
			for _, v := range []string{"", "free", "20220101"} {
				langs, v, ver := langs, v, ver
				set := map[string]func(m *bits.Machine, t types.Type) bits.Value{
					"Version": text(v),
					"Languages": func(m *bits.Machine, t types.Type) bits.Value {
						var ps []bits.Pair
						for i, l := range langs {
							ps = append(ps, bits.Pair{K: m.Str(l), V: m.N(int64(i))})
						}
						return m.Map(t, ps...)
					},
				}
				if v == "free" {
					set["Version"] = free("version", 5)
				}
				tc := trieCell{version: ver, v4: ver&1 == 1, form: "4 bytes", start: 96, depth: 3, kind: "record", size: "ample"}
				if ver == 2 {
					tc.form = "byte 0"
				}
				run("ipdb", fmt.Sprintf("family %d, languages %v and version %q", ver, langs, v), tc, set, func(m *bits.Machine, meta *bits.Struct) map[string]func(o bits.Outcome, v bits.Value) bool {
					w := asks{
						"IpType":    is(m, m.Const(uint64(ver), 64, true)),
						"Build":     is(m, fieldOf(meta, "Build")),
						"ExtraInfo": is(m, fieldOf(meta, "Extra")),
						"Languages": list(m, langs...),
					}
					if v != "" {
						w["Version"] = is(m, fieldOf(meta, "Version"))
					}
					return w
				})
			}
		}
	}
	for _, ver := range []int{4, 6} {
		for _, rs := range []int{24, 28, 32} {
			for _, kind := range []string{"free", "city", ""} {
				ver, kind := ver, kind
				set := map[string]func(m *bits.Machine, t types.Type) bits.Value{
					"DatabaseType": text(kind),
					"Languages": func(m *bits.Machine, t types.Type) bits.Value {
						return m.List(types.Typ[types.String], m.Str("zh"), m.Str("CN"))
					},
				}
				if kind == "free" {
					set["DatabaseType"] = free("type", 4)
				}
				tc := trieCell{version: ver, v4: ver == 4, form: "4 bytes", start: 96, depth: 3, kind: "record", size: "ample", rs: rs}
				if ver == 6 {
					tc.form = "byte 0"
				}
				run("awdb", fmt.Sprintf("family %d, record size %d and type %q", ver, rs, kind), tc, set, func(m *bits.Machine, meta *bits.Struct) map[string]func(o bits.Outcome, v bits.Value) bool {
					return asks{
						"IpType":    is(m, m.Const(uint64(ver/2-1), 64, true)),
						"Build":     is(m, fieldOf(meta, "BuildEpoch")),
						"Languages": list(m, "zh", "CN"),
						"Version": func(o bits.Outcome, v bits.Value) bool {
							x, ok1 := m.Content(o, v)
							y, ok2 := m.Content(o, fieldOf(meta, "DatabaseType"))
							if !ok1 || !ok2 {
								return false
							}
							pre := "ipplus360"
							if len(x) != len(pre)+len(y) {
								return false
							}
							return diffBytes(m, x, append(constInts(m, []byte(pre)...), y...)) == ""
						},
					}
				})
			}
		}
	}
	if s := os.Getenv("CELL"); s != "" && !strings.Contains("versions", s) {
		return nil
	}
	return jobs
}

func strText(v bits.Value) bool {
	s, ok := v.(*bits.Slice)
	return ok && s.Str
}
