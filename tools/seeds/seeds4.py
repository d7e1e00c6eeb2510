import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import mkseed

mkseed('s34-not-skips-blank', 'C33', [('db/field/export/export.go', '''	if f.condition.not {
		return !in
	}''', '''	if f.condition.not {
		return value != "" && !in
	}''')], 'db/field', '''package field_test

import (
	"testing"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/field/export"
)

func TestDemo(t *testing.T) {
	e := export.ParseRule("country,city|country=!A:country")
	m := []field.Pair{{Ext: "country", Intern: "country"}, {Ext: "city", Intern: "city"}}
	if got := e.Export(m, map[string]string{"country": "A", "city": "x"}); got[1] != "x" {
		t.Fatal(got)
	}
	if got := e.Export(m, map[string]string{"country": "B", "city": "x"}); got[1] != "" {
		t.Fatal(got)
	}
	if got := e.Export(m, map[string]string{"country": "", "city": "x"}); got[1] != "" {
		t.Fatal("a record of no country keeps its city:", got)
	}
}
''', 'a filter with ! and a record whose column of the filter is empty', 'the filter is not applied to the record')

mkseed('s35-filters-alone', 'C33', [('db/field/export/export.go', '''		for _, filter := range e.filters {
			ret = filter.extract(ret)
		}''', '''		row := ret
		for _, filter := range e.filters {
			if filter.match(row[filter.keyOffset]) {
				ret = filter.extract(row)
			}
		}''')], 'db/field', '''package field_test

import (
	"testing"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/field/export"
)

func TestDemo(t *testing.T) {
	e := export.ParseRule("country,province,city|country=!A:country,province|province=P:province,city,country")
	var m []field.Pair
	for _, f := range []string{"country", "province", "city"} {
		m = append(m, field.Pair{Ext: f, Intern: f})
	}
	for _, c := range []struct{ country, province, city string }{{"A", "P", "x"}, {"A", "Q", "x"}, {"B", "Q", ""}, {"B", "P", ""}} {
		got := e.Export(m, map[string]string{"country": c.country, "province": c.province, "city": "x"})
		if got[0] != c.country || got[1] != c.province || got[2] != c.city {
			t.Fatal(c, got)
		}
	}
}
''', 'a record that two filters of a rule match', 'what the first of them leaves out is back')

mkseed('s36-merge-count', 'C34', [('db/field/operate/replace.go', '''	ipd.Version.Count = uint32(len(ipd.Ips))''', '''	ipd.Version.Count = uint32(len(ipRanges))''')], 'db/field', '''package field_test

import (
	"net"
	"testing"

	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/inf"
)

func TestDemo(t *testing.T) {
	d := &inf.IpData{Version: &inf.VersionInfo{IpType: inf.IpV4}, Fields: []string{"country"}}
	for _, s := range []string{"10.0.0.0/24", "10.0.1.0/24", "10.0.2.0/24"} {
		_, n, _ := net.ParseCIDR(s)
		d.Ips = append(d.Ips, inf.IpRaw{Cidr: n, FieldValues: []string{"A"}})
	}
	operate.MergeNearNetwork(d)
	if len(d.Ips) != 2 || d.Version.Count != 2 {
		t.Fatal(len(d.Ips), d.Version.Count)
	}
}
''', 'a merged range that is not one network', 'the count of the data is that of the ranges, not of the networks')

mkseed('s37-trim-last-asn', 'C34', [('db/field/operate/replace.go', '''				mainIspAsnMap[isp][asn] = true''', '''				mainIspAsnMap[isp] = map[string]bool{asn: true}''')], 'db/field', '''package field_test

import (
	"net"
	"testing"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/inf"
)

func TestDemo(t *testing.T) {
	d := &inf.IpData{Version: &inf.VersionInfo{IpType: inf.IpV4}, Fields: []string{field.ISP, field.Asn}}
	for _, r := range [][3]string{{"10.0.0.0/24", "电信", "1"}, {"10.0.1.0/24", "电信", "2"}, {"10.0.2.0/24", "x", "2"}, {"10.0.3.0/24", "y", "1"}, {"10.0.4.0/24", "z", "3"}} {
		_, n, _ := net.ParseCIDR(r[0])
		d.Ips = append(d.Ips, inf.IpRaw{Cidr: n, FieldValues: []string{r[1], r[2]}})
	}
	operate.TrimAsnIspDup(d)
	for i, want := range []string{"电信", "电信", "电信", "电信", "z"} {
		if got := d.Ips[i].FieldValues[0]; got != want {
			t.Fatal(i, got, want)
		}
	}
}
''', 'an operator with two AS numbers, and a row of another with the first of them', 'the row keeps the name of the other')

mkseed('s38-ipdb-host-network', 'C18', [('db/format/ipdb/writer.go', '''		if maxMask < 32 {
			maxMask += 96''', '''		if maxMask < 31 {
			maxMask += 96''')], 'db/format/ipdb', '''package ipdb

import (
	"bytes"
	"net"
	"testing"

	"github.com/qiniu/uip/db/inf"
)

func TestDemo(t *testing.T) {
	d := &inf.IpData{Version: &inf.VersionInfo{IpType: inf.IpV4, Count: 2, Languages: []string{"CN"}}, Fields: []string{"country", "city"}}
	want := map[string]string{"10.0.0.0/31": "A", "10.0.0.8/32": "C"}
	for _, s := range []string{"10.0.0.0/31", "10.0.0.8/32"} {
		_, n, _ := net.ParseCIDR(s)
		d.Ips = append(d.Ips, inf.IpRaw{Cidr: n, FieldValues: []string{want[s], "B"}})
	}
	var b bytes.Buffer
	if err := pack(d, &b); err != nil {
		t.Fatal(err)
	}
	q, err := newQuerier(b.Bytes())
	if err != nil {
		t.Fatal(err)
	}
	for _, r := range d.Ips {
		got, _, err := q.Query(r.Cidr.IP)
		if err != nil || got == nil || got.Country != want[r.Cidr.String()] {
			t.Fatal(r.Cidr, got, err)
		}
	}
}
''', 'a network of one IPv4 address', 'its row is stored at an IPv6 network, and the address has none')

mkseed('s39-ipdb-row-key', 'C18', [('db/format/ipdb/writer.go', '''	if _, ok := p.dataHash[data]; !ok {
		_data := []byte(data)
		// +8 是由于 loopBack node 占用了8byte
		p.dataHash[data] = p.dataChunk.Len() + 8''', '''	key := strings.Join(fields, "")
	if offset, ok := p.dataHash[key]; ok {
		p.dataHash[data] = offset
	} else {
		_data := []byte(data)
		// +8 是由于 loopBack node 占用了8byte
		p.dataHash[key] = p.dataChunk.Len() + 8
		p.dataHash[data] = p.dataHash[key]''')], 'db/format/ipdb', '''package ipdb

import (
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	w := NewWriter(MetaData{Fields: []string{"country_name", "city_name"}}, nil)
	_, a, _ := net.ParseCIDR("10.0.0.0/24")
	_, b, _ := net.ParseCIDR("10.0.1.0/24")
	if err := w.insert(a, []string{"A", ""}); err != nil {
		t.Fatal(err)
	}
	if err := w.insert(b, []string{"", "A"}); err != nil {
		t.Fatal(err)
	}
	for _, c := range []struct {
		n    *net.IPNet
		want string
	}{{a, "A\\t"}, {b, "\\tA"}} {
		node, index, ok := w.Nodes(c.n.IP, 24)
		if !ok {
			t.Fatal(c.n)
		}
		if got := w.resolve(-w.node[node][index]); got != c.want {
			t.Fatalf("%s %q, not %q", c.n, got, c.want)
		}
	}
}
''', 'two rows whose columns are the same text when joined, such as one with only a country and one with only a city of that name', 'the second network gets the row of the first')

mkseed('s40-memip-neighbour-view', 'C13', [('db/format/memip/dumper.go', '''		if reflect.DeepEqual(values, prevInfo) {
			values = prevInfo
		}''', '''		if len(prevInfo) > 0 && reflect.DeepEqual(values[:len(prevInfo)-1], prevInfo[:len(prevInfo)-1]) {
			values = prevInfo
		}''')], 'db/format/memip', '''package memip

import "testing"

func TestDemo(t *testing.T) {
	d, err := dump([]byte("16777216 16777471 a-b-c-d-e-f\\n16777472 16777727 a-b-c-d-e-f\\n16777728 16777983 a-b-c-d-e-g\\n"), nil)
	if err != nil || len(d.Ips) != 3 {
		t.Fatal(d, err)
	}
	for i, want := range []string{"f", "f", "g"} {
		if got := d.Ips[i].FieldValues[5]; got != want {
			t.Fatal(i, got)
		}
	}
}
''', 'neighbouring lines that differ in the continent alone', 'the second line gets the continent of the first')

mkseed('s41-plain-short-row', 'C03', [('db/format/plain/dumper.go', '''		if reflect.DeepEqual(values, prevInfo) {
			values = prevInfo
		}''', '''		if same := reflect.DeepEqual(values, prevInfo); same && cidr.Contains(ret.Ips[len(ret.Ips)-1].Cidr.IP) {
			continue
		} else if same {
			values = prevInfo
		}''')], 'db/format/plain', '''package plain

import "testing"

func TestDemo(t *testing.T) {
	head := "#### plain\\n#### {\\"ipType\\":1}\\n#### country,city\\n"
	d, err := dump([]byte(head+"10.0.0.0/24\\tA,B\\n10.0.1.0/24\\tA,B\\n10.0.0.0/16\\tA,B\\n"), nil)
	if err != nil {
		t.Fatal(err)
	}
	if len(d.Ips) != 3 {
		t.Fatal(len(d.Ips), "rows of 3")
	}
}
''', 'a line whose network holds that of the line before, with the same columns', 'the network is missing from what is read')

mkseed('s42-memip-reserved-line', 'C13', [('db/format/memip/packer.go', '''		if reflect.DeepEqual(prev.f[1:], values[1:]) {''', '''		if reflect.DeepEqual(prev.f[1:5], values[1:5]) {''')], 'db/format/memip', '''package memip

import (
	"bytes"
	"net"
	"testing"

	"github.com/qiniu/uip/db/inf"
)

func TestDemo(t *testing.T) {
	d := &inf.IpData{Version: &inf.VersionInfo{IpType: inf.IpV4}, Fields: fields}
	for i, s := range []string{"10.0.0.0/24", "10.0.1.0/24", "10.0.2.0/24"} {
		_, n, _ := net.ParseCIDR(s)
		d.Ips = append(d.Ips, inf.IpRaw{Cidr: n, FieldValues: []string{"a", "b", "c", "电信", "e", []string{"AS", "EU", "EU"}[i]}})
	}
	var b bytes.Buffer
	if err := pack(d, &b); err != nil {
		t.Fatal(err)
	}
	got, err := dump(b.Bytes(), nil)
	if err != nil {
		t.Fatal(err)
	}
	for _, row := range got.Ips {
		if want := map[bool]string{true: "亚洲", false: "欧洲"}[row.Cidr.IP[len(row.Cidr.IP)-2] == 0]; row.FieldValues[5] != want {
			t.Fatal(row.Cidr, row.FieldValues)
		}
	}
}
''', 'neighbouring networks that differ in the continent alone', 'the second network gets the continent of the first')
