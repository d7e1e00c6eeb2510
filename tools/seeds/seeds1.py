import sys; sys.path.insert(0,'/tmp')
from mkseed import mkseed
IPDBHELP='''
func file(meta map[string]interface{}, body []byte) []byte {
	meta["total_size"] = len(body)
	m, _ := json.Marshal(meta)
	out := []byte{byte(len(m) >> 24), byte(len(m) >> 16), byte(len(m) >> 8), byte(len(m))}
	return append(append(out, m...), body...)
}
func be(v ...uint32) []byte {
	var b []byte
	for _, x := range v {
		b = append(b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	return b
}
'''
mkseed('s01-ipdb-record-end','C01',[('db/format/ipdb/reader.go','if (resolved + 2 + size) > len(db.data) {','if (resolved + size) > len(db.data) {')],
 'db/format/ipdb','''package ipdb

import (
	"encoding/json"
	"net"
	"testing"
)
'''+IPDBHELP+'''
// a record whose announced length passes the end of the file by one byte
func TestDemo(t *testing.T) {
	nodes := be(1+8, 1+8) // both children of the only node are a record
	body := append(nodes, be(1, 1)...)
	body = append(body, 0, 4, 'a', 'b', 'c')
	data := file(map[string]interface{}{"ip_version": 2, "node_count": 1, "languages": map[string]int{"CN": 0}, "fields": []string{"country_name"}}, body)
	q, err := newQuerier(data)
	if err != nil {
		return
	}
	if i, _, err := q.Query(net.ParseIP("2001:db8::1")); err == nil {
		t.Fatal("a record past the end of the file was answered", i)
	}
}
''','a database file whose last record announces one or two bytes more than the file holds','a query on a malformed ipdb file panics with slice bounds out of range')
mkseed('s02-ipdb-loopback-node','C01',[('db/format/ipdb/reader.go','''		if node >= db.nodeCount {
			break
		}
		node = db.readNode(node, ((''','''		if node > db.nodeCount {
			break
		}
		node = db.readNode(node, ((''')],
 'db/format/ipdb','''package ipdb

import (
	"encoding/json"
	"net"
	"testing"
)
'''+IPDBHELP+'''
// a trie without data section, whose empty child is the node count itself
func TestDemo(t *testing.T) {
	body := be(1, 1)
	data := file(map[string]interface{}{"ip_version": 2, "node_count": 1, "languages": map[string]int{"CN": 0}, "fields": []string{"country_name"}}, body)
	q, err := newQuerier(data)
	if err != nil {
		return
	}
	if i, _, err := q.Query(net.ParseIP("2001:db8::1")); err == nil {
		t.Fatal("answered", i)
	}
}
''','a file that ends right after its node section, and an address without a record','a query on a malformed ipdb file panics reading past the node section')
mkseed('s03-find-ignores-search-error','C05',[('db/format/ipdb/reader.go','''	return -1, 0, db2.ErrDataNotExists''','''	return node, i, nil''')],
 'db/format/ipdb','''package ipdb

import (
	"bytes"
	"net"
	"testing"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/inf"
)

func TestDemo(t *testing.T) {
	_, n, _ := net.ParseCIDR("10.0.0.0/8")
	ipd := &inf.IpData{Fields: []string{field.Country}, Version: &inf.VersionInfo{IpType: inf.IpV4, Version: "1"},
		Ips: []inf.IpRaw{{Cidr: n, FieldValues: []string{"x"}}}}
	var b bytes.Buffer
	if err := pack(ipd, &b); err != nil {
		t.Fatal(err)
	}
	q, err := newQuerier(b.Bytes())
	if err != nil {
		t.Fatal(err)
	}
	if i, _, err := q.Query(net.ParseIP("11.0.0.1")); err == nil {
		t.Fatal("an address without a record was answered", i)
	}
}
''','an address that no network of the database covers','a lookup without a record succeeds with the bytes of the node section as record')
mkseed('s04-awdb-swallows-decode-error','C05',[('db/format/awdb/reader.go','	return network, true, r.retrieveData(pointer, result)','''	err = r.retrieveData(pointer, result)
	if _, corrupt := err.(InvalidDatabaseError); err != nil && !corrupt {
		return network, false, err
	}
	return network, true, nil''')],
 'db/format/awdb','''package awdb

import (
	"net"
	"testing"
)

func str(s string) []byte { return append([]byte{0x40 | byte(len(s))}, s...) }

// record: a map whose second value is a pointer past the end of the data
func TestDemo(t *testing.T) {
	data := []byte{}
	data = append(data, 0, 0, 17, 0, 0, 17) // node 0 of 1, both children are the record at 0
	data = append(data, make([]byte, 16)...)
	rec := []byte{0xe0 | 2}
	rec = append(rec, str("country")...)
	rec = append(rec, str("x")...)
	rec = append(rec, str("isp")...)
	rec = append(rec, 0x38, 0xff, 0xff, 0xff, 0xff)
	data = append(data, rec...)
	data = append(data, metadataStartMarker...)
	meta := []byte{0xe0 | 3}
	meta = append(meta, str("node_count")...)
	meta = append(meta, 0xc1, 1)
	meta = append(meta, str("record_size")...)
	meta = append(meta, 0xa1, 24)
	meta = append(meta, str("ip_version")...)
	meta = append(meta, 0xa1, 6)
	data = append(data, meta...)
	q, err := newQuerier(data)
	if err != nil {
		return
	}
	if i, _, err := q.Query(net.ParseIP("8.8.4.4")); err == nil {
		t.Fatal("a damaged record was answered", i)
	}
}
''','a damaged record: one that decodes in part','a lookup of a damaged record succeeds with what was decoded before the damage')
mkseed('s05-plain-write-error','C06',[('db/format/plain/packer.go','''		_, err = fmt.Fprintf(writer, "%s\\t%s\\n", v.Cidr, strings.Join(replaceComma(v.FieldValues), ","))
''','''		var n int
		n, err = fmt.Fprintf(writer, "%s\\t%s\\n", v.Cidr, strings.Join(replaceComma(v.FieldValues), ","))
		if n == 0 {
			continue
		}
''')],
 'db/format/plain','''package plain

import (
	"errors"
	"net"
	"testing"

	"github.com/qiniu/uip/db/inf"
)

type full struct{ left int }

func (f *full) Write(b []byte) (int, error) {
	if f.left == 0 {
		return 0, errors.New("no space left on device")
	}
	f.left--
	return len(b), nil
}

func TestDemo(t *testing.T) {
	_, n, _ := net.ParseCIDR("10.0.0.0/8")
	ipd := &inf.IpData{Fields: []string{"country"}, Version: &inf.VersionInfo{IpType: inf.IpV4},
		Ips: []inf.IpRaw{{Cidr: n, FieldValues: []string{"x"}}, {Cidr: n, FieldValues: []string{"y"}}}}
	if err := pack(ipd, &full{left: 4}); err == nil {
		t.Fatal("the last line was not written, and no error reported")
	}
}
''','a device that fills up exactly between two lines','a write that fails without writing anything is skipped and the dump reported complete')
mkseed('s06-ipdb-section-write','C06',[('db/format/ipdb/writer.go','''	if _, err := nodeChunk.WriteTo(w); err != nil {
		return err
	}
	if _, err := p.dataChunk.WriteTo(w); err != nil {
		return err
	}

	return nil''','''	_, err = nodeChunk.WriteTo(w)
	if _, err := p.dataChunk.WriteTo(w); err != nil {
		return err
	}

	return nil''')],
 'db/format/ipdb','''package ipdb

import (
	"errors"
	"net"
	"testing"

	"github.com/qiniu/uip/db/inf"
)

type flaky struct{ n int }

func (f *flaky) Write(b []byte) (int, error) {
	f.n++
	if f.n == 2 {
		return 0, errors.New("timeout")
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	_, n, _ := net.ParseCIDR("10.0.0.0/8")
	ipd := &inf.IpData{Fields: []string{"country"}, Version: &inf.VersionInfo{IpType: inf.IpV4},
		Ips: []inf.IpRaw{{Cidr: n, FieldValues: []string{"x"}}}}
	if err := pack(ipd, &flaky{}); err == nil {
		t.Fatal("the node section was not written, and no error reported")
	}
}
''','a writer that fails on the second section only','a failed write of the node section is reported as success')
mkseed('s07-memip-count-first','C07',[('db/format/memip/dumper.go','''	scanner := bufio.NewScanner(bio)
	for scanner.Scan() {
		t.lines''','''	scanner := bufio.NewScanner(bio)
	counter := bufio.NewScanner(bytes.NewReader(data))
	count := 0
	for counter.Scan() {
		count++
	}
	t.lines = make([]string, 0, count)
	for i := 0; i < count && scanner.Scan(); i++ {
		t.lines''')],
 'db/format/memip','''package memip

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	in := "1 2 a-b-c-d-e-f\\n3 4 " + strings.Repeat("x", 70000) + "-b-c-d-e-f\\n5 6 a-b-c-d-e-f\\n"
	if r, err := dump([]byte(in), nil); err == nil {
		t.Fatal("the input was cut at its long line, and no error reported", len(r.Ips))
	}
}
''','a line longer than the scanner buffer, after a good one','a database with an over-long line is cut there and reported as complete')
mkseed('s08-server-error-body','C30',[('cmd/server/server.go','''		if err != nil {
			writer.WriteHeader(404)
			return
		}
		b, _ := json.Marshal(i)''','''		if err != nil {
			i = nil
			if ip == "" {
				writer.WriteHeader(404)
				return
			}
		}
		b, _ := json.Marshal(i)''')],
 'cmd/server',None,'a request for an address the database does not have','a failed lookup is answered with status 200 and the body null',
 rawdemo='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
tmp=$(mktemp -d); trap 'kill $pid 2>/dev/null; rm -rf "$tmp"' EXIT
echo "{\\"Replace\\":{\\"$PWD/db/convert/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" >"$tmp/o.json"
DEMO_OUT=$tmp/a.ipdb go test -overlay "$tmp/o.json" -vet=off -count=1 -run '^TestDemo$' ./db/convert || exit 3
go build -o "$tmp/server" ./cmd/server || exit 3
"$tmp/server" "$tmp/a.ipdb" 127.0.0.1:18734 >"$tmp/log" 2>&1 &
pid=$!
python3 - <<'PY'
import sys, time, urllib.request, urllib.error
for i in range(50):
    try:
        r = urllib.request.urlopen("http://127.0.0.1:18734/10.0.0.1"); break
    except OSError: time.sleep(0.1)
else:
    print("server did not start"); sys.exit(4)
try:
    r = urllib.request.urlopen("http://127.0.0.1:18734/99.0.0.1")
    print("status", r.status, r.read()); sys.exit(1)
except urllib.error.HTTPError as e:
    sys.exit(0 if e.code >= 400 else 1)
PY
''')
open('/verif/seeded/s08-server-error-body/demo_test.go','w').write('''package convert

import (
	"net"
	"os"
	"testing"

	_ "github.com/qiniu/uip/db/format/ipdb"
	"github.com/qiniu/uip/db/inf"
)

func TestDemo(t *testing.T) {
	_, n, _ := net.ParseCIDR("10.0.0.0/8")
	ipd := &inf.IpData{Fields: []string{"country"}, Version: &inf.VersionInfo{IpType: inf.IpV4},
		Ips: []inf.IpRaw{{Cidr: n, FieldValues: []string{"x"}}}}
	if err := PackFile(os.Getenv("DEMO_OUT"), ipd); err != nil {
		t.Fatal(err)
	}
}
''')
