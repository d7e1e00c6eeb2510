import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import mkseed

AW = '''package awdb

import (
	"bytes"
	"net"
	"testing"
)

func str(s string) []byte { return append([]byte{0x40 | byte(len(s))}, s...) }

// file: one node with the given records, and data
func file(size int, node, data []byte) []byte {
	f := append([]byte(nil), node...)
	f = append(f, make([]byte, 16)...)
	f = append(f, data...)
	f = append(f, "\\xAB\\xCD\\xEFipplus360.com"...)
	m := []byte{0xe0 | 3}
	m = append(m, str("node_count")...)
	m = append(m, 0xc1, 1)
	m = append(m, str("record_size")...)
	m = append(m, 0xa1, byte(size))
	m = append(m, str("ip_version")...)
	m = append(m, 0xa1, 4)
	return append(f, m...)
}

func rec(value []byte) []byte {
	r := append([]byte{0xe0 | 2}, str("country")...)
	r = append(r, value...)
	r = append(r, str("city")...)
	return append(r, str("after")...)
}
'''

AWN = AW.replace('	"bytes"\n', '')

mkseed('s27-awdb-28-bit-right', 'C08', [('db/format/awdb/node.go', '''	return ((uint(n.buffer[nodeNumber+3]) & 0x0F) << 24) |''', '''	return ((uint(n.buffer[nodeNumber+3]) & 0x0F) << 20) |''')], 'db/format/awdb', AWN + '''
func TestDemo(t *testing.T) {
	const far = 1 << 24
	data := append(rec(str("near")), make([]byte, far)...)
	data = append(data[:far], rec(str("far"))...)
	r := far + 17
	q, err := newQuerier(file(28, []byte{0, 0, 17, byte(r >> 24), byte(r >> 16), byte(r >> 8), byte(r)}, data))
	if err != nil {
		t.Fatal(err)
	}
	i, n, err := q.Query(net.ParseIP("200.1.2.3"))
	if err != nil || i.Country != "far" || n != 1 {
		t.Fatal(i, n, err)
	}
}
''', 'a file with 28-bit records and more than 16 MB of nodes or data, and an address that takes the right branch', 'lookups read the record of other networks')

mkseed('s28-ipdb-cached-miss', 'C08', [('db/format/ipdb/reader.go', '''		node, i = db.getCache(ip)
		if node > db.nodeCount {''', '''		node, i = db.getCache(ip)
		if node >= db.nodeCount {''')], 'db/format/ipdb', '''package ipdb

import (
	"bytes"
	"net"
	"testing"

	"github.com/qiniu/uip/db/field"
	"github.com/qiniu/uip/db/inf"
)

func TestDemo(t *testing.T) {
	_, n, _ := net.ParseCIDR("10.0.0.0/8")
	ipd := &inf.IpData{Fields: []string{field.Country}, Version: &inf.VersionInfo{IpType: inf.IpV4, Version: "1"},
		Ips: []inf.IpRaw{{Cidr: n, FieldValues: []string{"x"}}}}
	var b bytes.Buffer
	if err := pack(ipd, &b); err != nil {
		t.Fatal(err)
	}
	q, err := newQuerier(b.Bytes())
	if err != nil {
		t.Fatal(err)
	}
	if i, _, err := q.Query(net.ParseIP("10.1.2.3")); err != nil || i.Country != "x" {
		t.Fatal(i, err)
	}
	if i, _, err := q.Query(net.ParseIP("11.1.2.3")); err == nil {
		t.Fatal("no network has this address, and it was found:", i)
	}
}
''', 'a database of one column, and an address whose first 16 bits lead to no data', 'an address without data is found, with empty values')

mkseed('s29-awdb-long-size', 'C20', [('db/format/awdb/decoder.go', '''		size = uintFromBytes(0, sizeBytes) + 65821''', '''		size = uintFromBytes(0, sizeBytes) + 65820''')], 'db/format/awdb', AW + '''
func TestDemo(t *testing.T) {
	const n = 65821 + 10
	v := append([]byte{0x5f, 0, 0, 10}, bytes.Repeat([]byte("x"), n)...)
	q, err := newQuerier(file(24, []byte{0, 0, 17, 0, 0, 17}, rec(v)))
	if err != nil {
		t.Fatal(err)
	}
	i, _, err := q.Query(net.ParseIP("10.1.2.3"))
	if err != nil || len(i.Country) != n || i.City != "after" {
		t.Fatal(len(i.Country), i.City, err)
	}
}
''', 'a text of more than 65820 bytes in an awdb record', 'the text loses its last byte and the record cannot be read past it')

mkseed('s30-awdb-pointer-2', 'C20', [('db/format/awdb/decoder.go', '''		pointerValueOffset = 2048''', '''		pointerValueOffset = 2047''')], 'db/format/awdb', AWN + '''
func TestDemo(t *testing.T) {
	data := append(rec([]byte{0x28, 0, 3}), make([]byte, 4096)...)
	copy(data[2048:], str("no"))
	copy(data[2051:], str("shared"))
	q, err := newQuerier(file(24, []byte{0, 0, 17, 0, 0, 17}, data))
	if err != nil {
		t.Fatal(err)
	}
	i, _, err := q.Query(net.ParseIP("10.1.2.3"))
	if err != nil || i.Country != "shared" || i.City != "after" {
		t.Fatal(i, err)
	}
}
''', 'a value that is shared through a two-byte pointer, in data of more than 2 KB', 'the value is read one byte before where it is')

mkseed('s31-words-to-address', 'C21', [('ipnet/ip.go', '''		byte(low >> 56 & 0xFF), byte(low >> 48 & 0xFF), byte(low >> 40 & 0xFF), byte(low >> 32 & 0xFF),''', '''		byte(low >> 56 & 0xFF), byte(low >> 48 & 0xFF), byte(low >> 40 & 0xFF), byte(high >> 32 & 0xFF),''')], 'ipnet', '''package ipnet

import "testing"

func TestDemo(t *testing.T) {
	if s := Uint64ToIP2(0x20010db800000000, 0x0001000200030004).String(); s != "2001:db8::1:2:3:4" {
		t.Fatal(s)
	}
	if s := Uint64ToIP2(1, 0).String(); s != "0:0:0:1::" {
		t.Fatal(s)
	}
	if s := Uint64ToIP2(1<<32, 0).String(); s != "0:1::" {
		t.Fatal(s)
	}
}
''', 'an address whose eighth and twelfth bytes differ', 'the twelfth byte of the address is that of the high word')

mkseed('s32-join-shrinks', 'C22', [('ipnet/range.go', '''	if !IPLess(LastIP(ipNet).To16(), r.End) {
		r.End = LastIP(ipNet).To16()
	}
	return true''', '''	r.End = LastIP(ipNet).To16()
	return true''')], 'ipnet', '''package ipnet

import (
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	_, a, _ := net.ParseCIDR("10.0.0.0/8")
	_, b, _ := net.ParseCIDR("10.1.0.0/16")
	r := NewRange(a)
	if !r.JoinIPNet(b) {
		t.Fatal("it does not join")
	}
	if !r.Contains(net.ParseIP("10.200.0.1")) {
		t.Fatal("the range lost addresses: it ends at", r.End)
	}
}
''', 'a network inside the range that is joined to it', 'the range loses the addresses after that network')

mkseed('s33-carry', 'C22', [('ipnet/range.go', '''	for i := ipLen - 1; i >= 0; i-- {
		if ip[i] != 0 {''', '''	for i := ipLen - 1; i > 0; i-- {
		if ip[i] != 0 {''')], 'ipnet', '''package ipnet

import (
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	r := &Range{Start: net.ParseIP("8000::"), End: net.ParseIP("bfff:ffff:ffff:ffff:ffff:ffff:ffff:ffff")}
	if got := r.IPNets(); len(got) != 1 || got[0].String() != "8000::/2" {
		t.Fatal(got)
	}
	if n := SuffixZeroLength(net.ParseIP("8000::")); n != 127 {
		t.Fatal(n)
	}
}
''', 'an IPv6 range that starts at an address with only bits of the first byte set', 'the range is split as if it started at ::, and covers addresses before it')
