import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import mkseed

PACK = '''
func packed(t *testing.T, fields []string, rows [][]string, cidrs ...string) []byte {
	ipd := &inf.IpData{Fields: fields, Version: &inf.VersionInfo{IpType: inf.IpV4, Version: "1"}}
	for i, c := range cidrs {
		_, n, _ := net.ParseCIDR(c)
		ipd.Ips = append(ipd.Ips, inf.IpRaw{Cidr: n, FieldValues: rows[i]})
	}
	var b bytes.Buffer
	if err := pack(ipd, &b); err != nil {
		t.Fatal(err)
	}
	return b.Bytes()
}
'''
HEAD = '''package ipdb

import (
	"bytes"
	"net"
	"testing"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/inf"
)
'''
AW = '''package awdb

import (
	"net"
	"testing"
)

func str(s string) []byte { return append([]byte{0x40 | byte(len(s))}, s...) }

// file: one node with both children the record at 0
func file(rec []byte) []byte {
	data := []byte{0, 0, 17, 0, 0, 17}
	data = append(data, make([]byte, 16)...)
	data = append(data, rec...)
	data = append(data, "\\xAB\\xCD\\xEFipplus360.com"...)
	m := []byte{0xe0 | 3}
	m = append(m, str("node_count")...)
	m = append(m, 0xc1, 1)
	m = append(m, str("record_size")...)
	m = append(m, 0xa1, 24)
	m = append(m, str("ip_version")...)
	m = append(m, 0xa1, 4)
	return append(data, m...)
}
'''

mkseed('s05-plain-row-error', 'C06', [('db/format/plain/packer.go', '''strings.Join(replaceComma(v.FieldValues), ","))
		if err != nil {
			return err
		}''', '''strings.Join(replaceComma(v.FieldValues), ","))
		if err != nil {
			break
		}''')], 'db/format/plain', '''package plain

import (
	"errors"
	"net"
	"testing"

	"github.com/qiniu/uip/db/inf"
)

type full struct{ left int }

func (f *full) Write(p []byte) (int, error) {
	if f.left -= len(p); f.left < 0 {
		return 0, errors.New("no space left")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	ipd := &inf.IpData{Fields: []string{"country"}, Version: &inf.VersionInfo{IpType: inf.IpV4}}
	for i := 0; i < 100; i++ {
		ipd.Ips = append(ipd.Ips, inf.IpRaw{Cidr: &net.IPNet{IP: net.IPv4(10, 0, byte(i), 0), Mask: net.CIDRMask(24, 32)}, FieldValues: []string{"x"}})
	}
	if err := pack(ipd, &full{1000}); err == nil {
		t.Fatal("the disk was full, and no error")
	}
}
''', 'a writer that fails after the header, in the middle of the rows', 'a text file cut short by a full disk is reported as written')

mkseed('s09-awdb-mask-in-place', 'C09', [('db/format/awdb/reader.go', '''	mask := net.CIDRMask(prefixLength, len(ip)*8)
	return &net.IPNet{IP: ip.Mask(mask), Mask: mask}''', '''	mask := net.CIDRMask(prefixLength, len(ip)*8)
	for i := range mask {
		ip[i] &= mask[i]
	}
	return &net.IPNet{IP: ip, Mask: mask}''')], 'db/format/awdb', AW + '''
func TestDemo(t *testing.T) {
	rec := []byte{0xe0 | 1}
	rec = append(append(rec, str("country")...), str("x")...)
	q, err := newQuerier(file(rec))
	if err != nil {
		t.Fatal(err)
	}
	ip := net.ParseIP("10.1.2.3")
	if _, _, err := q.Query(ip); err != nil {
		t.Fatal(err)
	}
	if ip.String() != "10.1.2.3" {
		t.Fatal("the address of the caller became", ip)
	}
}
''', 'a caller that uses its address after the lookup, or shares it between lookups', 'a lookup overwrites the address it was given')

mkseed('s10-ipdb-lazy-prefix-cache', 'C09', [('db/format/ipdb/reader.go', '''	for i := 0; i < len(db.ipV4BitsCache); i++ {
		db.setCache(i)
	}
	return
''', '''	db.filled = make([]bool, len(db.ipV4BitsCache))
	return
'''), ('db/format/ipdb/reader.go', '''	ipV4BitsCache   []uint
}''', '''	ipV4BitsCache   []uint
	filled          []bool // which entries of the cache are set
}'''), ('db/format/ipdb/reader.go', '''	r := db.ipV4BitsCache[bytesToIndex(ip)]
''', '''	n := bytesToIndex(ip)
	if !db.filled[n] {
		db.filled[n] = true
		db.setCache(n)
	}
	r := db.ipV4BitsCache[n]
''')], 'db/format/ipdb', HEAD + '''	"sync"
)
'''[0:0] + PACK + '''
// lookups of a shared handle under the race detector
func TestDemo(t *testing.T) {
	data := packed(t, []string{field.Country}, [][]string{{"x"}, {"y"}}, "10.0.0.0/8", "11.0.0.0/8")
	q, err := newQuerier(data)
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	for k := 0; k < 8; k++ {
		go func() {
			for i := 0; i < 256; i++ {
				q.Query(net.IPv4(10, byte(i), 0, 1))
				q.Query(net.IPv4(11, byte(i), 0, 1))
			}
			done <- true
		}()
	}
	for k := 0; k < 8; k++ {
		<-done
	}
}
''', 'two lookups of one open database at once, the first of their prefix', 'lookups write the prefix cache of the shared handle; one may see an entry marked set that is not',
 rawdemo='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=1
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\":{\\"$PWD/db/format/ipdb/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" >"$tmp/o.json"
go test -race -overlay "$tmp/o.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./db/format/ipdb
''')

mkseed('s11-ipdb-fields-in-place', 'C10', [('db/format/ipdb/fields.go', '''	var newFields []string
	for''', '''	newFields := fields[:0]
	for''')], 'db/format/ipdb', HEAD + PACK + '''
func TestDemo(t *testing.T) {
	fields := []string{field.Country, field.Province}
	packed(t, fields, [][]string{{"x", "y"}}, "10.0.0.0/8")
	if fields[0] != field.Country || fields[1] != field.Province {
		t.Fatal("packing renamed the fields of the data:", fields)
	}
}
''', 'data that is packed to ipdb and then used again, for a second file or a report', 'packing to ipdb renames the columns of the data it was given')

mkseed('s12-plain-replace-in-place', 'C10', [('db/format/memip/packer.go', '''		values := covertValues(offsets, ip.FieldValues)
''', '''		values := covertValues(offsets, ip.FieldValues)
		if len(ipd.Fields) == len(fields) && offsets[0] == 0 {
			copy(ip.FieldValues, values)
		}
''')], 'db/format/memip', '''package memip

import (
	"bytes"
	"net"
	"testing"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/inf"
)

func TestDemo(t *testing.T) {
	_, n, _ := net.ParseCIDR("10.0.0.0/8")
	vals := []string{"a", "b", "c", "小运营商", "中国", "亚洲"}
	ipd := &inf.IpData{Fields: []string{field.City, field.Province, field.District, field.ISP, field.Country, field.Continent},
		Version: &inf.VersionInfo{IpType: inf.IpV4}, Ips: []inf.IpRaw{{Cidr: n, FieldValues: vals}}}
	var b bytes.Buffer
	if err := pack(ipd, &b); err != nil {
		t.Fatal(err)
	}
	if vals[3] != "小运营商" {
		t.Fatal("packing changed the isp of the data to", vals[3])
	}
}
''', 'data whose columns are those of memip, packed to memip and then used again', 'packing to memip overwrites the values of the data it was given')

mkseed('s13-awdb-shared-record', 'C11', [('db/format/awdb/querier.go', '''	reader *Reader
}''', '''	reader *Reader
	last   inf.IpInfo
}'''), ('db/format/awdb/querier.go', '''	return &inf.IpInfo{
		Country: ''', '''	q.last = inf.IpInfo{
		Country: '''), ('db/format/awdb/querier.go', '''		Line:      info[FieldLine],
	}, ones, nil''', '''		Line:      info[FieldLine],
	}
	return &q.last, ones, nil''')], 'db/format/awdb', AW + '''
func TestDemo(t *testing.T) {
	rec := []byte{0xe0 | 1}
	rec = append(append(rec, str("country")...), str("x")...)
	q, err := newQuerier(file(rec))
	if err != nil {
		t.Fatal(err)
	}
	a, _, err := q.Query(net.ParseIP("10.1.2.3"))
	if err != nil {
		t.Fatal(err)
	}
	a.Country = "mine"
	if _, _, err := q.Query(net.ParseIP("11.1.2.3")); err != nil {
		t.Fatal(err)
	}
	if a.Country != "mine" {
		t.Fatal("a later lookup changed the record to", a.Country)
	}
}
''', 'a caller that keeps a record while it makes another lookup', 'lookups return one shared record')

mkseed('s14-merge-appends-shared', 'C12', [('db/field/operate/replace.go', '''		subs := ipRange.r.IPNets()
''', '''		subs := ipRange.r.IPNets()
		if n := len(ipRange.f); n > 0 && len(subs) > 1 && ipRange.f[n-1] == "" {
			ipRange.f[n-1] = subs[0].String()
		}
''')], 'db/field/operate', '''package operate

import (
	"net"
	"testing"

	"github.com/qiniu/uip/db/inf"
)

func cidr(s string) *net.IPNet {
	_, n, _ := net.ParseCIDR(s)
	return n
}

// three networks of which the first two join; all of them share their values
func TestDemo(t *testing.T) {
	v := []string{"x", ""}
	ipd := &inf.IpData{Fields: []string{"country", "note"}, Version: &inf.VersionInfo{}, Ips: []inf.IpRaw{
		{Cidr: cidr("10.0.0.0/24"), FieldValues: v}, {Cidr: cidr("10.0.1.0/24"), FieldValues: v}, {Cidr: cidr("10.0.2.0/24"), FieldValues: v},
		{Cidr: cidr("10.9.0.0/24"), FieldValues: v}}}
	MergeNearNetwork(ipd)
	for _, r := range ipd.Ips {
		if r.Cidr.String() == "10.9.0.0/24" && r.FieldValues[1] != "" {
			t.Fatal("the row of", r.Cidr, "holds", r.FieldValues[1])
		}
	}
}
''', 'networks that share one slice of values, of which some join to a range of several networks', 'what merging notes in the row of one network shows in rows of others')

mkseed('s15-language-fallback', 'C14', [('db/format/ipdb/querier.go', '''	off, ok := q.r.meta.Languages["CN"]
	if !ok {
		return 0, nil, 0, db2.ErrNoSupportLanguage
	}
''', '''	off, ok := q.r.meta.Languages["CN"]
	if !ok {
		for _, o := range q.r.meta.Languages {
			off = o
		}
	}
	if off < 0 {
		return 0, nil, 0, db2.ErrNoSupportLanguage
	}
''')], 'db/format/ipdb', '''package ipdb

import (
	"encoding/json"
	"net"
	"testing"
)

func be(v ...uint32) []byte {
	var b []byte
	for _, x := range v {
		b = append(b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	return b
}

func TestDemo(t *testing.T) {
	body := append(be(9, 9), be(1, 1)...)
	body = append(body, 0, 5, 'a', 9, 'b', 9, 'c')
	m, _ := json.Marshal(map[string]interface{}{"ip_version": 2, "node_count": 1, "total_size": len(body),
		"languages": map[string]int{"EN": 0, "FR": 1, "JA": 2}, "fields": []string{"country_name"}})
	data := append(append(be(uint32(len(m))), m...), body...)
	q, err := newQuerier(data)
	if err != nil {
		t.Fatal(err)
	}
	seen := map[string]bool{}
	for i := 0; i < 200; i++ {
		r, _, err := q.Query(net.ParseIP("2001:db8::1"))
		if err != nil {
			seen["error"] = true
		} else {
			seen[r.Country] = true
		}
	}
	if len(seen) != 1 {
		t.Fatal("the same lookup gave", seen)
	}
}
''', 'a database without the language CN and with several others', 'the answer of a lookup depends on the iteration order of the table of languages')

mkseed('s16-awdb-district-column', 'C15', [('db/format/awdb/querier.go', '''		Province:  info[FieldProvince],
		City:      info[FieldCity],''', '''		Province:  info[FieldProvince],
		City:      cityOf(info),'''), ('db/format/awdb/querier.go', '''func (t *querier) check() error {''', '''func cityOf(info map[string]string) string {
	if c, ok := info[FieldCity]; ok {
		return c
	}
	return info[FieldProvince]
}

func (t *querier) check() error {''')], 'db/format/awdb', AW + '''
func TestDemo(t *testing.T) {
	rec := []byte{0xe0 | 1}
	rec = append(append(rec, str("province")...), str("x")...)
	q, err := newQuerier(file(rec))
	if err != nil {
		t.Fatal(err)
	}
	r, _, err := q.Query(net.ParseIP("10.1.2.3"))
	if err != nil {
		t.Fatal(err)
	}
	if r.Province != "x" || r.City != "" {
		t.Fatalf("%+v", r)
	}
}
''', 'a record that has a province and no city', 'the city of a record without one is answered with its province')

mkseed('s17-ipdb-south-america', 'C17', [('db/format/ipdb/writer.go', '''		case "南美洲":
			values[p.continentOffset] = "SA"''', '''		case "南美洲", "拉丁美洲":
			values[p.continentOffset] = "LA"''')], 'db/format/ipdb', HEAD + PACK + '''
func TestDemo(t *testing.T) {
	names := []string{"亚洲", "欧洲", "北美洲", "南美洲", "大洋洲", "非洲", "南极洲"}
	for _, n := range names {
		q, err := newQuerier(packed(t, []string{field.Country, field.Continent}, [][]string{{"x", n}}, "10.0.0.0/8"))
		if err != nil {
			t.Fatal(err)
		}
		r, _, err := q.Query(net.IPv4(10, 1, 2, 3))
		if err != nil {
			t.Fatal(err)
		}
		if r.Continent != n {
			t.Fatal(n, "came back as", r.Continent)
		}
	}
}
''', 'a network of South America', 'the continent of one of seven is written as a code no reader knows')

mkseed('s18-memip-continent-column', 'C17', [('db/format/memip/packer.go', '''			if i == 5 {''', '''			if i >= 4 {''')], 'db/format/memip', '''package memip

import (
	"bytes"
	"net"
	"strings"
	"testing"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/inf"
)

func TestDemo(t *testing.T) {
	_, n, _ := net.ParseCIDR("10.0.0.0/8")
	ipd := &inf.IpData{Fields: []string{field.Country, field.Continent}, Version: &inf.VersionInfo{IpType: inf.IpV4},
		Ips: []inf.IpRaw{{Cidr: n, FieldValues: []string{"NA", "AF"}}}}
	var b bytes.Buffer
	if err := pack(ipd, &b); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), "-NA-非洲\\n") {
		t.Fatal(b.String())
	}
}
''', 'a country given by its code, where the code is that of a continent too (NA: Namibia, SA: Saudi Arabia, AF: Afghanistan)', 'country codes are turned into the names of continents')

mkseed('s19-memip-two-field-names', 'C32', [('db/format/memip/packer.go', '''			if f == ff {
				ret[i] = j
				break
			}''', '''			if f == ff || strings.HasPrefix(ff, f) {
				ret[i] = j
				break
			}''')], 'db/format/memip', '''package memip

import (
	"bytes"
	"net"
	"strings"
	"testing"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/inf"
)

func TestDemo(t *testing.T) {
	_, n, _ := net.ParseCIDR("10.0.0.0/8")
	ipd := &inf.IpData{Fields: []string{"country_code", field.Country}, Version: &inf.VersionInfo{IpType: inf.IpV4},
		Ips: []inf.IpRaw{{Cidr: n, FieldValues: []string{"CN", "中国"}}}}
	var b bytes.Buffer
	if err := pack(ipd, &b); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), "-中国-") {
		t.Fatal(b.String())
	}
}
''', 'data with a column whose name begins with that of another, before it', 'the country is taken from the column of the country code')

mkseed('s20-simple-misses-awdb', 'C25', [('cmd/simple/main.go', '''	_ "github.com/qiniu/uip/db/format/awdb"
''', '')], 'cmd/simple', '', 'the command line lookup of an awdb file', 'the command refuses a format the library supports',
 rawdemo='''#!/bin/bash
# every command links every format
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/simple" ./cmd/simple || exit 1
printf 'x' >"$tmp/a.awdb"
"$tmp/simple" "$tmp/a.awdb" 1.2.3.4 >"$tmp/out" 2>&1
cat "$tmp/out"
! grep -qi unsupported "$tmp/out"
''')

mkseed('s21-tables-swapped', 'C26', [('db/field/data/load.go', '''	Load(field.Province, ProvinceList)''', '''	Load(field.Province, CityList)''')], 'db/field/data', '''package data

import (
	"testing"

	"github.com/qiniu/uip/db/field"
)

func TestDemo(t *testing.T) {
	m := NormalizedMap[field.Province]
	if m["内蒙古自治区"] != "内蒙古" {
		t.Fatalf("%q", m["内蒙古自治区"])
	}
}
''', 'a row whose province is given by its full name', 'provinces are normalised by the table of cities')

mkseed('s22-awdb-nested-pointer', 'C27', [('db/format/awdb/decoder.go', '''	_, err = d.decode(pointer, result, depth)
	return newOffset, err''', '''	_, err = d.decode(pointer, result, depth-1)
	return newOffset, err''')], 'db/format/awdb', AW + '''
var _ net.IP

// a record that is a pointer to itself
func TestDemo(t *testing.T) {
	_, err := newQuerier(file([]byte{0x20, 0}))
	if err != nil {
		return
	}
	t.Fatal("opened a database whose only record points to itself")
}
''', 'a record that is a pointer to itself', 'a hostile file exhausts the stack and kills the process')

mkseed('s23-dump-fatal', 'C28', [('db/convert/dumper.go', '''		log.Println("Dump ip file failed ", ipFile, err)''', '''		log.Panicln("Dump ip file failed ", ipFile, err)''')], 'db/convert', '''package convert

import (
	"os"
	"path/filepath"
	"testing"

	_ "github.com/qiniu/uip/db/format/awdb"
)

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "a.awdb")
	if err := os.WriteFile(f, []byte("x"), 0o600); err != nil {
		t.Fatal(err)
	}
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("the dump of a damaged file panics:", r)
		}
	}()
	if _, err := DumpFile(f, "", nil); err == nil {
		t.Fatal("no error")
	}
}
''', 'the dump of a damaged file', 'a library call ends the process of its user')

mkseed('s24-ipdb-escape-after-check', 'C24', [('db/format/ipdb/writer.go', '''		_data := []byte(data)
''', '''		_data := []byte(strings.Replace(data, "\\n", "\\\\n", -1))
''')], 'db/format/ipdb', HEAD.replace('"net"', '"net"\n\t"strings"') + '''
// a record of 65535 bytes with line ends in it
func TestDemo(t *testing.T) {
	_, n, _ := net.ParseCIDR("10.0.0.0/8")
	ipd := &inf.IpData{Fields: []string{field.Country}, Version: &inf.VersionInfo{IpType: inf.IpV4, Version: "1"},
		Ips: []inf.IpRaw{{Cidr: n, FieldValues: []string{strings.Repeat("a", 65525) + strings.Repeat("\\n", 10)}}}}
	var b bytes.Buffer
	if err := pack(ipd, &b); err != nil {
		return
	}
	q, err := newQuerier(b.Bytes())
	if err != nil {
		t.Fatal(err)
	}
	r, _, err := q.Query(net.IPv4(10, 0, 0, 1))
	if err != nil || len(r.Country) < 65535 {
		t.Fatal("the record came back cut", len(r.Country), err)
	}
}
''', 'a record just within the limit that has line ends in it', 'the length of a record is written modulo 65536')

mkseed('s25-pack-file-probe', 'C29', [('db/convert/packer.go', '''	extend := path.Ext(ipFile)
''', '''	probe, err := os.OpenFile(ipFile, os.O_WRONLY|os.O_CREATE, 0o666)
	if err != nil {
		return err
	}
	probe.Close()
	extend := path.Ext(ipFile)
'''), ('db/convert/packer.go', '''	file, err := os.Create(ipFile)''', '''	file, err := os.OpenFile(ipFile, os.O_WRONLY|os.O_TRUNC, 0o666)''')], 'db/convert', '''package convert

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/qiniu/uip/db/inf"
)

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "out.xyz")
	if err := PackFile(f, &inf.IpData{Version: &inf.VersionInfo{}}); err == nil {
		t.Fatal("no error")
	}
	if _, err := os.Stat(f); err == nil {
		t.Fatal("a file was created for a format that is not supported")
	}
}
''', 'an output name whose extension has no packer', 'an empty file is left behind by a conversion that was refused')

mkseed('s26-converter-skips-unsupported', 'C31', [('cmd/converter/main.go', '''		err = convert.PackFile(output, ipData)
		if err != nil {
''', '''		err = convert.PackFile(output, ipData)
		if err != nil && err != db.ErrUnsupportedFormat {
'''), ('cmd/converter/main.go', '''	"github.com/qiniu/uip/db/convert"
''', '''	"github.com/qiniu/uip/db"
	"github.com/qiniu/uip/db/convert"
''')], 'cmd/converter', '', 'an output, among others, whose format has no packer', 'a conversion that failed for one output ends with status 0',
 rawdemo='''#!/bin/bash
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/converter" ./cmd/converter || exit 1
cd "$tmp"
printf '16777216 16777471 a-b-c-d-e-f\\n' >in.memip
./converter -r '' -i in.memip -o ok.scan >out 2>&1 || { cat out; exit 1; }
if ./converter -r '' -i in.memip -o bad.xyz,ok.scan >out 2>&1; then cat out; echo "the failed conversion ended with status 0"; exit 1; fi
exit 0
''')
