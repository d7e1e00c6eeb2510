import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import mkseed

mkseed('s43-ops-stop-empty', 'C35', [('db/convert/dumper.go', '''	for _, op := range ops {
		op(ipData)
	}''', '''	for _, op := range ops {
		if op(ipData); len(ipData.Ips) == 0 {
			break
		}
	}''')], 'db/convert', '''package convert

import (
	"os"
	"testing"

	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
)

type demo struct{}

func (demo) Dump(inf.Exporter) (*inf.IpData, error) {
	return &inf.IpData{Version: &inf.VersionInfo{}, Ips: make([]inf.IpRaw, 1)}, nil
}

func TestDemo(t *testing.T) {
	format.RegisterDumpFormat(".demo", func([]byte, inf.Exporter) (*inf.IpData, error) { return demo{}.Dump(nil) })
	f := t.TempDir() + "/a.demo"
	if err := os.WriteFile(f, []byte("x"), 0o600); err != nil {
		t.Fatal(err)
	}
	d, err := DumpFile(f, "", []operate.Operate{
		func(d *inf.IpData) { d.Ips = nil },
		func(d *inf.IpData) { d.Fields = []string{"country"} },
	})
	if err != nil || len(d.Fields) != 1 {
		t.Fatal(d, err)
	}
}
''', 'an operation that leaves no rows, and another one after it', 'the later operations are not applied')

mkseed('s44-lookup-prefix-text', 'C35', [('db/query/query.go', '''	ip := net.ParseIP(ipStr)
	if ip == nil {
		return nil, 0, errors.New("invalid ip: " + ipStr)''', '''	addr := ipStr
	if k := strings.IndexByte(ipStr, '/'); k > 0 {
		addr = ipStr[:k]
	}
	ip := net.ParseIP(addr)
	if ip == nil {
		return nil, 0, errors.New("invalid ip: " + ipStr)''')], 'db/query', '''package query

import (
	"net"
	"testing"

	"github.com/qiniu/uip/db/inf"
)

type demo struct{}

func (demo) Query(net.IP) (*inf.IpInfo, int, error) { return &inf.IpInfo{Country: "A"}, 8, nil }
func (demo) VersionInfo() *inf.VersionInfo          { return &inf.VersionInfo{} }
func (demo) BuildCache([]string)                    {}

func TestDemo(t *testing.T) {
	q := &Db{q: demo{}}
	if _, _, err := q.QueryStr("1.2.3.4"); err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{"1.2.3.4/8", "1.2.3.4/x", "::1/64"} {
		if i, _, err := q.QueryStr(s); err == nil {
			t.Fatal(s, i)
		}
	}
}
''', 'a text that starts like an address and goes on after a slash', 'it is looked up, where it is no address')

SERVER = '''package main

import (
	"encoding/json"
	"io"
	"net"
	"net/http"
	"testing"
	"time"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

func TestDemo(t *testing.T) {
	d := &inf.IpData{Version: &inf.VersionInfo{IpType: inf.IpV4, Count: 2, Languages: []string{"CN"}}, Fields: []string{"country", "city"}}
	for _, s := range []string{"0.0.0.0/1", "128.0.0.0/1"} {
		_, n, _ := net.ParseCIDR(s)
		d.Ips = append(d.Ips, inf.IpRaw{Cidr: n, FieldValues: []string{s[:1], "B"}})
	}
	b, err := convert.PackBytes(".ipdb", d)
	if err != nil {
		t.Fatal(err)
	}
	q, err := query.NewDbFromBytes(".ipdb", b)
	if err != nil {
		t.Fatal(err)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	s := server{q}
	go s.ListenAndServe(addr)
	get := func(path string) (int, string) {
		for i := 0; ; i++ {
			r, err := http.Get("http://" + addr + path)
			if err == nil {
				b, _ := io.ReadAll(r.Body)
				r.Body.Close()
				return r.StatusCode, string(b)
			}
			if i > 100 {
				t.Fatal(err)
			}
			time.Sleep(50 * time.Millisecond)
		}
	}
	want, _, err := q.QueryStr("130.1.2.3")
	if err != nil {
		t.Fatal(err)
	}
	j, _ := json.Marshal(want)
	if c, s := get("/130.1.2.3"); c != 200 || s != string(j) {
		t.Fatal(c, s)
	}
	%s
}
'''

mkseed('s45-server-last-part', 'C36', [('cmd/server/server.go', '''		ip := request.URL.Path[1:]
''', '''		ip := path.Base(request.URL.Path)
'''), ('cmd/server/server.go', '''	"net/http"
''', '''	"net/http"
	"path"
''')], 'cmd/server', SERVER % '''for _, p := range []string{"/x/130.1.2.3", "/1.2.3.4/130.1.2.3"} {
		if c, s := get(p); c < 400 {
			t.Fatal(p, c, s)
		}
	}''', 'a path of more than one part', 'it is answered with the record of its last part, though it is no address')

mkseed('s46-server-lookup-failed', 'C36', [('cmd/server/server.go', '''		if err != nil {
			writer.WriteHeader(404)
			return
		}
''', '''		if err != nil && i != nil {
			writer.WriteHeader(404)
			return
		}
''')], 'cmd/server', SERVER % '''if c, s := get("/none"); c < 400 {
		t.Fatal(c, s)
	}''', 'a request for what is no address', 'it is answered with null and status 200')

mkseed('s47-converter-later-output', 'C36', [('cmd/converter/main.go', '''	for _, output := range outputs {
		err = convert.PackFile(output, ipData)
		if err != nil {
			log.Println(err)
''', '''	for i, output := range outputs {
		err = convert.PackFile(output, ipData)
		if err != nil {
			log.Println(err)
			if i > 0 {
				break
			}
''')], '', None, 'a second output that cannot be written', 'the converter ends with status 0', rawdemo='''#!/bin/bash
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/converter" ./cmd/converter || exit 2
here=$(cd "$(dirname "$0")" && pwd)
echo "{\\"Replace\\":{\\"$PWD/db/convert/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" >"$tmp/o.json"
DEMO_OUT="$tmp/in.ipdb" go test -overlay "$tmp/o.json" -vet=off -count=1 -run '^TestDemo$' ./db/convert || exit 3
"$tmp/converter" -i "$tmp/in.ipdb" -o "$tmp/a.ipdb" 2>"$tmp/log" || { cat "$tmp/log"; exit 4; }
test -s "$tmp/a.ipdb" || exit 5
"$tmp/converter" -i "$tmp/in.ipdb" -o "$tmp/a.ipdb,$tmp/missing/b.ipdb" 2>/dev/null && exit 6
exit 0
''')
open('/verif/seeded/s47-converter-later-output/demo_test.go','w').write('''package convert_test

import (
	"net"
	"os"
	"testing"

	"github.com/qiniu/uip/db/convert"
	_ "github.com/qiniu/uip/db/format/ipdb"
	"github.com/qiniu/uip/db/inf"
)

func TestDemo(t *testing.T) {
	d := &inf.IpData{Version: &inf.VersionInfo{IpType: inf.IpV4, Count: 2, Languages: []string{"CN"}}, Fields: []string{"country", "province", "city", "isp"}}
	for _, s := range []string{"0.0.0.0/1", "128.0.0.0/1"} {
		_, n, _ := net.ParseCIDR(s)
		d.Ips = append(d.Ips, inf.IpRaw{Cidr: n, FieldValues: []string{s[:1], "P", "B", "I"}})
	}
	if err := convert.PackFile(os.Getenv("DEMO_OUT"), d); err != nil {
		t.Fatal(err)
	}
}
''')
