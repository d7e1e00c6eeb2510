From 02ad09c3486958e6bab31e1dcf8603a0acc4595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 01/48] fix: NewDb returns the read error instead of panicking

---
 db/query/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/query/query.go b/db/query/query.go
index b7f5b7c..3311c3e 100644
--- a/db/query/query.go
+++ b/db/query/query.go
@@ -20,7 +20,7 @@ type Db struct {
 func NewDb(file string) (*Db, error) {
 	b, err := os.ReadFile(file)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	extend := path.Ext(file)
 	return NewDbFromBytes(extend, b)
-- 
2.43.0


From f64435e84c241ed38c1f829ea53a36f9647746a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 02/48] fix: ipdb query reports the lookup error

---
 db/format/ipdb/querier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/ipdb/querier.go b/db/format/ipdb/querier.go
index 3034a01..479e596 100644
--- a/db/format/ipdb/querier.go
+++ b/db/format/ipdb/querier.go
@@ -40,6 +40,9 @@ func (q *querier) Query(ip net.IP) (*inf.IpInfo, int, error) {
 
 func (q *querier) QueryInternal(ip net.IP, cache bool) (int, *inf.IpInfo, int, error) {
 	node, body, mask, err := q.r.find0(ip)
+	if err != nil {
+		return 0, nil, 0, err
+	}
 	if cache {
 		if v, ok := q.queryCache[node]; ok {
 			return node, v, mask, nil
-- 
2.43.0


From ae12c1ab711f7db3365af0d85edf3cf01026e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 03/48] fix: ipdb reader rejects truncated headers and
 impossible node counts

---
 db/format/ipdb/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index cff845a..68c51da 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -47,6 +47,9 @@ const iOff = 5
 
 func newReaderFromBytes(data []byte) (*reader, error) {
 	var meta MetaData
+	if len(data) < 4 {
+		return nil, db2.ErrFileSize
+	}
 	metaLength := int(binary.BigEndian.Uint32(data[0:4]))
 	if len(data) < (4 + metaLength) {
 		return nil, db2.ErrFileSize
@@ -60,6 +63,9 @@ func newReaderFromBytes(data []byte) (*reader, error) {
 	if len(data) != (4 + metaLength + meta.TotalSize) {
 		return nil, db2.ErrFileSize
 	}
+	if meta.NodeCount < 0 || meta.NodeCount > meta.TotalSize/8 {
+		return nil, db2.ErrMetaData
+	}
 
 	db := &reader{
 		fileSize:        len(data),
-- 
2.43.0


From 381075dc47ae6b15fc0c46be721d4bebc0c3d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 04/48] fix: ipdb reader bounds the record and language offsets

---
 db/format/ipdb/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index 68c51da..0b4d87f 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -151,7 +151,7 @@ func (db *reader) decodeInfo(body []byte, off int) ([]string, error) {
 	str := (*string)(unsafe.Pointer(&body))
 	tmp := strings.Split(*str, "\t")
 
-	if (off + len(db.meta.Fields)) > len(tmp) {
+	if off < 0 || off > len(tmp)-len(db.meta.Fields) {
 		return nil, db2.ErrDatabaseError
 	}
 	ret := tmp[off : off+len(db.meta.Fields)]
@@ -260,7 +260,7 @@ func (db *reader) readNode(node, indexBit int) int {
 
 func (db *reader) resolve(node int) ([]byte, error) {
 	resolved := node - db.nodeCount + db.nodeCount*8
-	if resolved >= db.fileSize {
+	if resolved+2 > len(db.data) {
 		return nil, db2.ErrDatabaseError
 	}
 
-- 
2.43.0


From 032ffe23597affadbd78de95086883e6eaf69fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 05/48] fix: ipdb lists its languages in a stable order

---
 db/format/ipdb/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index 0b4d87f..0e1d6cc 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -26,6 +26,7 @@ import (
 	db2 "github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 	"net"
+	"sort"
 	"strings"
 	"time"
 	"unsafe"
@@ -282,8 +283,10 @@ func (db *reader) Languages() []string {
 	for k := range db.meta.Languages {
 		ls = append(ls, k)
 	}
+	sort.Strings(ls)
 	return ls
 }
+
 func (db *reader) HasIPv4() bool {
 	return (int(db.meta.IPVersion) & IPv4) == IPv4
 }
-- 
2.43.0


From 344ad3e20847a60e40db389d9277c822a0b37f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 06/48] fix: ipdb query returns a copy of the cached record

---
 db/format/ipdb/querier.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/format/ipdb/querier.go b/db/format/ipdb/querier.go
index 479e596..9c05216 100644
--- a/db/format/ipdb/querier.go
+++ b/db/format/ipdb/querier.go
@@ -45,7 +45,8 @@ func (q *querier) QueryInternal(ip net.IP, cache bool) (int, *inf.IpInfo, int, e
 	}
 	if cache {
 		if v, ok := q.queryCache[node]; ok {
-			return node, v, mask, nil
+			info := *v
+			return node, &info, mask, nil
 		}
 	}
 
-- 
2.43.0


From 28e8179e6028c3a2b5ed61762f48af5d0385cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 07/48] fix: awdb reader accepts buffers shorter than the
 metadata window

---
 db/format/awdb/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 5592167..2a6fc0e 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -43,6 +43,9 @@ const metaDetectStart = 2000
 // a Reader structure or an error.
 func FromBytes(buffer []byte) (*Reader, error) {
 	detectOffset := len(buffer) - metaDetectStart
+	if detectOffset < 0 {
+		detectOffset = 0
+	}
 	metaIn := buffer[detectOffset:]
 	metadataStart := bytes.LastIndex(metaIn, metadataStartMarker)
 
-- 
2.43.0


From 420583bf5407b4131ecb1fa72f7d6ed7e1d29a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 08/48] fix: awdb reader rejects a search tree size that
 overflows

---
 db/format/awdb/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 2a6fc0e..0737d5b 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -64,6 +64,10 @@ func FromBytes(buffer []byte) (*Reader, error) {
 	}
 
 	metadataStart += detectOffset
+	// bounds the product below, which could otherwise wrap around
+	if metadata.RecordSize > 32 || metadata.NodeCount > uint(len(buffer)) {
+		return nil, newInvalidDatabaseError("the aw DB contains invalid metadata")
+	}
 	searchTreeSize := metadata.NodeCount * metadata.RecordSize / 4
 	dataSectionStart := searchTreeSize + dataSectionSeparatorSize
 	dataSectionEnd := uint(metadataStart)
-- 
2.43.0


From 1c6403c2e36a43441c0ad8ea38e8b5da2dad0c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 09/48] fix: awdb map keys no longer follow pointer cycles
 without end

---
 db/format/awdb/decoder.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 98addb8..98e67d8 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -669,9 +669,18 @@ func (d *decoder) decodeKey(offset uint) ([]byte, uint, error) {
 		if err != nil {
 			return nil, 0, err
 		}
-		key, _, err := d.decodeKey(pointer)
+		// the target is the key itself: pointers to pointers are not valid
+		typeNum, size, dataOffset, err = d.decodeCtrlData(pointer)
+		if err != nil {
+			return nil, 0, err
+		}
+		key, _, err := d.keyBytes(typeNum, size, dataOffset)
 		return key, ptrOffset, err
 	}
+	return d.keyBytes(typeNum, size, dataOffset)
+}
+
+func (d *decoder) keyBytes(typeNum dataType, size uint, dataOffset uint) ([]byte, uint, error) {
 	if typeNum != _String {
 		return nil, 0, newInvalidDatabaseError("unexpected type when decoding string: %v", typeNum)
 	}
-- 
2.43.0


From 3303d11d4cb3085d30ad54c520db9fa2e05618eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 10/48] fix: awdb skips values with a loop instead of unbounded
 recursion

---
 db/format/awdb/decoder.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 98e67d8..baca02a 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -695,26 +695,26 @@ func (d *decoder) keyBytes(typeNum dataType, size uint, dataOffset uint) ([]byte
 // the one at the offset passed in. The size bits have different meanings for
 // different data types
 func (d *decoder) nextValueOffset(offset uint, numberToSkip uint) (uint, error) {
-	if numberToSkip == 0 {
-		return offset, nil
-	}
-	typeNum, size, offset, err := d.decodeCtrlData(offset)
-	if err != nil {
-		return 0, err
-	}
-	switch typeNum {
-	case _Pointer:
-		_, offset, err = d.decodePointer(size, offset)
+	for ; numberToSkip > 0; numberToSkip-- {
+		typeNum, size, newOffset, err := d.decodeCtrlData(offset)
 		if err != nil {
 			return 0, err
 		}
-	case _Map:
-		numberToSkip += 2 * size
-	case _Slice:
-		numberToSkip += size
-	case _Bool:
-	default:
-		offset += size
+		offset = newOffset
+		switch typeNum {
+		case _Pointer:
+			_, offset, err = d.decodePointer(size, offset)
+			if err != nil {
+				return 0, err
+			}
+		case _Map:
+			numberToSkip += 2 * size
+		case _Slice:
+			numberToSkip += size
+		case _Bool:
+		default:
+			offset += size
+		}
 	}
-	return d.nextValueOffset(offset, numberToSkip-1)
+	return offset, nil
 }
-- 
2.43.0


From 489e9effd87ddbda23a6ef69e01021106fca7935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 11/48] fix: awdb bounds container sizes by the remaining data

---
 db/format/awdb/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index baca02a..81e97e4 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -116,6 +116,10 @@ func (d *decoder) decodeFromType(
 	depth int,
 ) (uint, error) {
 	result = d.indirect(result)
+	// every element of a map or slice takes at least one byte
+	if (dtype == _Map || dtype == _Slice) && size > uint(len(d.buffer))-offset {
+		return 0, newOffsetError()
+	}
 	// For these types, size has a special meaning
 	switch dtype {
 	case _Bool:
-- 
2.43.0


From 487956da4e3adf53c17f1439048b7baef5f8dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 12/48] fix: awdb lookups report absent or unexpected records
 instead of panicking

---
 db/format/awdb/dumper.go  | 31 +++++++++++++++++++++++++++----
 db/format/awdb/querier.go | 12 ++++++++----
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/db/format/awdb/dumper.go b/db/format/awdb/dumper.go
index 29bc19f..69b7e49 100644
--- a/db/format/awdb/dumper.go
+++ b/db/format/awdb/dumper.go
@@ -1,6 +1,9 @@
 package awdb
 
 import (
+	"fmt"
+
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
 	"log"
@@ -62,18 +65,38 @@ func (t *traversal) dump(exporter inf.Exporter) (*inf.IpData, error) {
 
 func (t *traversal) find(ip net.IP) (*net.IPNet, map[string]string, error) {
 	var record interface{}
-	ipNet, _, err := t.reader.LookupNetwork(ip, &record)
+	ipNet, ok, err := t.reader.LookupNetwork(ip, &record)
 	if err != nil {
 		return nil, nil, err
 	}
+	if !ok {
+		return nil, nil, db.ErrDataNotExists
+	}
 
-	data := make(map[string]string)
-	for k, v := range record.(map[string]interface{}) {
-		data[k] = string(v.([]byte))
+	data, err := recordFields(record)
+	if err != nil {
+		return nil, nil, err
 	}
 	return ipNet, data, nil
 }
 
+// recordFields turns a decoded record into column values
+func recordFields(record interface{}) (map[string]string, error) {
+	fields, ok := record.(map[string]interface{})
+	if !ok {
+		return nil, newInvalidDatabaseError("unexpected record type %T", record)
+	}
+	data := make(map[string]string, len(fields))
+	for k, v := range fields {
+		if b, ok := v.([]byte); ok {
+			data[k] = string(b)
+		} else {
+			data[k] = fmt.Sprint(v)
+		}
+	}
+	return data, nil
+}
+
 func (t *traversal) versionInfo() *inf.VersionInfo {
 	return t.reader.version()
 }
diff --git a/db/format/awdb/querier.go b/db/format/awdb/querier.go
index 5ac994b..1f4a20a 100644
--- a/db/format/awdb/querier.go
+++ b/db/format/awdb/querier.go
@@ -4,6 +4,7 @@ import (
 	"log"
 	"net"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 )
 
@@ -65,14 +66,17 @@ func (q *querier) BuildCache(ipList []string) {
 
 func (q *querier) Find(ip net.IP) (*net.IPNet, map[string]string, error) {
 	var record interface{}
-	ipNet, _, err := q.reader.LookupNetwork(ip, &record)
+	ipNet, ok, err := q.reader.LookupNetwork(ip, &record)
 	if err != nil {
 		return nil, nil, err
 	}
+	if !ok {
+		return nil, nil, db.ErrDataNotExists
+	}
 
-	data := make(map[string]string)
-	for k, v := range record.(map[string]interface{}) {
-		data[k] = string(v.([]byte))
+	data, err := recordFields(record)
+	if err != nil {
+		return nil, nil, err
 	}
 	return ipNet, data, nil
 }
-- 
2.43.0


From 5cdd3cc09a4bc3018142aa082d80c6c4b3ad3d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 13/48] fix: awdb dump reads the asn from the asnumber column

---
 db/format/awdb/fields.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/awdb/fields.go b/db/format/awdb/fields.go
index ef5bdf6..7668f20 100644
--- a/db/format/awdb/fields.go
+++ b/db/format/awdb/fields.go
@@ -124,7 +124,7 @@ var CommonFieldsMap = map[string]string{
 	field.Province:  FieldProvince,
 	field.City:      FieldCity,
 	field.ISP:       FieldISP,
-	field.Asn:       field.Asn,
+	field.Asn:       FieldASNumber,
 	field.Continent: FieldContinent,
 	field.Line:      field.Line,
 }
-- 
2.43.0


From 9e5e8183ece925d82c462697294c96d430700740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 14/48] fix: plain dump rejects missing or short headers
 instead of panicking

---
 db/format/plain/dumper.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index bc140d3..faafb23 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -9,6 +9,7 @@ import (
 	"reflect"
 	"strings"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/field"
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
@@ -28,6 +29,8 @@ func dump(data []byte, exporter inf.Exporter) (*inf.IpData, error) {
 	return i, nil
 }
 
+const headerPrefix = "#### "
+
 type traversal struct {
 	lines   []string
 	Fields  []string
@@ -44,23 +47,39 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 			// ignore title
 		} else if lineOffset == 1 {
 			//	ignore prefix "#### "
-			err := json.Unmarshal(scanner.Bytes()[5:], &t.Version)
+			b, err := headerBody(scanner.Bytes())
+			if err != nil {
+				return nil, err
+			}
+			err = json.Unmarshal(b, &t.Version)
 			if err != nil {
 				return nil, err
 			}
 		} else if lineOffset == 2 {
 			//	ignore prefix "#### "
-			b := scanner.Bytes()[5:]
+			b, err := headerBody(scanner.Bytes())
+			if err != nil {
+				return nil, err
+			}
 			t.Fields = strings.Split(string(b), ",")
-			t.lines = make([]string, 0, t.Version.Count+1)
 		} else {
 			t.lines = append(t.lines, scanner.Text())
 		}
 		lineOffset += 1
 	}
+	if t.Version == nil || t.Fields == nil {
+		return nil, db.ErrMetaNotFound
+	}
 	return t, nil
 }
 
+func headerBody(line []byte) ([]byte, error) {
+	if len(line) < len(headerPrefix) {
+		return nil, db.ErrMetaData
+	}
+	return line[len(headerPrefix):], nil
+}
+
 func fieldToPair(fields []string) []field.Pair {
 	var ret []field.Pair
 	for _, f := range fields {
@@ -108,7 +127,7 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 		ret.Fields = exporter.Fields()
 	}
 	fieldsMap = export.Select(fieldToMap(t.Fields), ret.Fields)
-	ret.Ips = make([]inf.IpRaw, 0, t.Version.Count+1)
+	ret.Ips = make([]inf.IpRaw, 0, len(t.lines))
 	var prevInfo []string
 	for _, line := range t.lines {
 		cidr, info, err := t.parseLine(line)
-- 
2.43.0


From aa5f8a6cdd5fb6144e14711fb7740073ce3f0a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 15/48] fix: plain dump reports a scan error instead of
 truncating the data

---
 db/format/plain/dumper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index faafb23..276790b 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -67,6 +67,9 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 		}
 		lineOffset += 1
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	if t.Version == nil || t.Fields == nil {
 		return nil, db.ErrMetaNotFound
 	}
-- 
2.43.0


From 09a364aace3992662feb9330031350e8af3f3b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 16/48] fix: plain dump without a rule keeps the column values

---
 db/format/plain/dumper.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index 276790b..d3915b2 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -141,6 +141,11 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 
 		if exporter != nil {
 			values = exporter.Export(fieldsMap, info)
+		} else {
+			values = make([]string, 0, len(t.Fields))
+			for _, f := range t.Fields {
+				values = append(values, info[f])
+			}
 		}
 
 		if reflect.DeepEqual(values, prevInfo) {
-- 
2.43.0


From 3de2a5ccb0e7e0d6c9613e70ae169349bb18440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 17/48] fix: memip dump reports a scan error instead of
 truncating the data

---
 db/format/memip/dumper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index f0685b5..809a274 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -52,6 +52,9 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	for scanner.Scan() {
 		t.lines = append(t.lines, scanner.Text())
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	return t, nil
 }
 
-- 
2.43.0


From 41a7505567736a229f83824f6c772a7f7360e88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 18/48] fix: memip dump rejects empty files, bad ranges and bad
 views

---
 db/format/memip/dumper.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index 809a274..d92c304 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 	"github.com/qiniu/uip/ipnet"
 )
@@ -55,6 +56,9 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	if err := scanner.Err(); err != nil {
 		return nil, err
 	}
+	if len(t.lines) == 0 {
+		return nil, db.ErrEmptyFile
+	}
 	return t, nil
 }
 
@@ -98,8 +102,15 @@ func parseLine(line string) (*ipnet.Range, []string, error) {
 		rg = parseV4Range(array[0:2])
 	}
 
-	view := array[2]
-	return rg, splitView(view), nil
+	if rg == nil {
+		return nil, nil, errors.New("bad range:" + line)
+	}
+
+	view := splitView(array[2])
+	if len(view) != len(fields) {
+		return nil, nil, errors.New("bad view:" + line)
+	}
+	return rg, view, nil
 }
 
 type row struct {
-- 
2.43.0


From 0b822d822c30ee9b1fc80fb2a194c57e3d488629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 19/48] fix: plain pack reports header write errors

---
 db/format/plain/packer.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/db/format/plain/packer.go b/db/format/plain/packer.go
index 8ebffd1..2188c40 100644
--- a/db/format/plain/packer.go
+++ b/db/format/plain/packer.go
@@ -15,9 +15,18 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(writer, "#### scan dump %s ####\n", time.Now().String())
-	fmt.Fprintf(writer, "#### %s\n", string(verStr))
-	fmt.Fprintf(writer, "#### %s\n", strings.Join(ipd.Fields, ","))
+	_, err = fmt.Fprintf(writer, "#### scan dump %s ####\n", time.Now().String())
+	if err != nil {
+		return err
+	}
+	_, err = fmt.Fprintf(writer, "#### %s\n", string(verStr))
+	if err != nil {
+		return err
+	}
+	_, err = fmt.Fprintf(writer, "#### %s\n", strings.Join(ipd.Fields, ","))
+	if err != nil {
+		return err
+	}
 	for _, v := range ipd.Ips {
 		replaceComma(&v)
 		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(v.FieldValues, ","))
-- 
2.43.0


From 3224656751e6ec6ac81048950176e4a06bcb328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 20/48] fix: plain pack no longer rewrites the caller's data

---
 db/format/plain/packer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/db/format/plain/packer.go b/db/format/plain/packer.go
index 2188c40..fe133ef 100644
--- a/db/format/plain/packer.go
+++ b/db/format/plain/packer.go
@@ -28,8 +28,7 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 		return err
 	}
 	for _, v := range ipd.Ips {
-		replaceComma(&v)
-		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(v.FieldValues, ","))
+		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(replaceComma(v.FieldValues), ","))
 		if err != nil {
 			return err
 		}
@@ -37,8 +36,10 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	return nil
 }
 
-func replaceComma(s *inf.IpRaw) {
-	for i, v := range s.FieldValues {
-		s.FieldValues[i] = strings.Replace(v, ",", "_", -1)
+func replaceComma(values []string) []string {
+	ret := make([]string, len(values))
+	for i, v := range values {
+		ret[i] = strings.Replace(v, ",", "_", -1)
 	}
+	return ret
 }
-- 
2.43.0


From c1c6a57389068b3940266a2646f824df0616107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 21/48] fix: plain pack replaces every separator inside values

---
 db/format/plain/packer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/db/format/plain/packer.go b/db/format/plain/packer.go
index fe133ef..f60187d 100644
--- a/db/format/plain/packer.go
+++ b/db/format/plain/packer.go
@@ -36,10 +36,13 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	return nil
 }
 
+// separators are the bytes that end a column, a field list or a line
+var separators = strings.NewReplacer(",", "_", "\t", "_", "\n", "_", "\r", "_")
+
 func replaceComma(values []string) []string {
 	ret := make([]string, len(values))
 	for i, v := range values {
-		ret[i] = strings.Replace(v, ",", "_", -1)
+		ret[i] = separators.Replace(v)
 	}
 	return ret
 }
-- 
2.43.0


From 3e380d12efb5fabceaaeb5569b4135779f15410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 22/48] fix: memip pack reports write errors

---
 db/format/memip/packer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index f9e0330..77336d8 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -39,9 +39,15 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	for _, rf := range ipRanges {
 		view := strings.Join(rf.f, "-")
 		if ipd.Version.IsIpV4() {
-			fmt.Fprintf(writer, "%d %d %s\n", ipnet.IPv4ToUint32(rf.r.Start), ipnet.IPv4ToUint32(rf.r.End), view)
+			_, err := fmt.Fprintf(writer, "%d %d %s\n", ipnet.IPv4ToUint32(rf.r.Start), ipnet.IPv4ToUint32(rf.r.End), view)
+			if err != nil {
+				return err
+			}
 		} else {
-			fmt.Fprintf(writer, "%s %s %s\n", rf.r.Start.String(), rf.r.End.String(), view)
+			_, err := fmt.Fprintf(writer, "%s %s %s\n", rf.r.Start.String(), rf.r.End.String(), view)
+			if err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 54fa1620b60fa1747f056bb895921501c52b781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 23/48] fix: memip pack handles empty data and IPv6 networks in
 IPv4 data

---
 db/format/memip/packer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index 77336d8..4e6dd01 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 	"strings"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 	"github.com/qiniu/uip/ipnet"
 )
@@ -35,11 +36,17 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 			prev.f = values
 		}
 	}
-	ipRanges = append(ipRanges, prev)
+	if prev.r != nil {
+		ipRanges = append(ipRanges, prev)
+	}
 	for _, rf := range ipRanges {
 		view := strings.Join(rf.f, "-")
 		if ipd.Version.IsIpV4() {
-			_, err := fmt.Fprintf(writer, "%d %d %s\n", ipnet.IPv4ToUint32(rf.r.Start), ipnet.IPv4ToUint32(rf.r.End), view)
+			start, end := rf.r.Start.To4(), rf.r.End.To4()
+			if start == nil || end == nil {
+				return db.ErrInvalidCIDR
+			}
+			_, err := fmt.Fprintf(writer, "%d %d %s\n", ipnet.IPv4ToUint32(start), ipnet.IPv4ToUint32(end), view)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From f39f8f2fc559f00ee4ca7b592e0ad067b9ed6a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 24/48] fix: memip pack replaces separators inside values

---
 db/format/memip/packer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index 4e6dd01..17d624b 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -111,6 +111,7 @@ func covertValues(fieldsOff []int, values []string) []string {
 			}
 			newValues[i] = nv
 		}
+		newValues[i] = separators.Replace(newValues[i])
 		pv := newValues[1]
 		if pv == "香港" || pv == "澳门" || pv == "台湾" {
 			newValues[2] = "默认"
@@ -120,6 +121,9 @@ func covertValues(fieldsOff []int, values []string) []string {
 	return newValues
 }
 
+// separators are the bytes that end a view column, a view or a line
+var separators = strings.NewReplacer("-", "_", " ", "_", "\n", "_", "\r", "_")
+
 type RangeFields struct {
 	r *ipnet.Range
 	f []string
-- 
2.43.0


From 66115574a39c468f4d8e94df60089f43377256ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 25/48] fix: ipnet ranges that end at the last address contain
 and join correctly

---
 ipnet/ipnet.go |  2 +-
 ipnet/range.go | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ipnet/ipnet.go b/ipnet/ipnet.go
index c42686d..defe753 100644
--- a/ipnet/ipnet.go
+++ b/ipnet/ipnet.go
@@ -34,5 +34,5 @@ func LastIP(ipNet *net.IPNet) net.IP {
 
 // Contains 检查IP区间内是否包含IP
 func Contains(start, end, ip net.IP) bool {
-	return !IPLess(ip, start) && IPLess(ip, NextIP(end))
+	return !IPLess(ip, start) && !IPLess(end, ip)
 }
diff --git a/ipnet/range.go b/ipnet/range.go
index aab6d33..47daf87 100644
--- a/ipnet/range.go
+++ b/ipnet/range.go
@@ -36,10 +36,16 @@ func NewRange(ipNet *net.IPNet) *Range {
 	}
 }
 
+// beyond 检查 ip 是否在 end 之后且与 end 不相邻
+// end 可能是最后一个IP，此时没有下一个IP
+func beyond(end, ip net.IP) bool {
+	return IPLess(end, ip) && IPLess(NextIP(end), ip)
+}
+
 // Join 合并网段
 func (r *Range) Join(r2 *Range) bool {
 	// 禁止 起始IP小于原IP区间 或 IP区间不相邻 的IP区间合入
-	if IPLess(r2.Start, r.Start) || IPLess(NextIP(r.End), r2.Start) {
+	if IPLess(r2.Start, r.Start) || beyond(r.End, r2.Start) {
 		return false
 	}
 
@@ -51,7 +57,7 @@ func (r *Range) Join(r2 *Range) bool {
 
 // CommonRange 求共同网段
 func (r *Range) CommonRange(ip net.IP, r2 *Range) bool {
-	if IPLess(r2.End, r.Start) || IPLess(NextIP(r.End), r2.Start) {
+	if IPLess(r2.End, r.Start) || beyond(r.End, r2.Start) {
 		return false
 	}
 	start := r.Start
@@ -77,7 +83,7 @@ func (r *Range) Contains(ip net.IP) bool {
 // JoinIPNet 合并网段
 func (r *Range) JoinIPNet(ipNet *net.IPNet) bool {
 	// 禁止 起始IP小于原IP区间 或 IP区间不相邻 的IP区间合入
-	if IPLess(ipNet.IP.To16(), r.Start) || IPLess(NextIP(r.End), ipNet.IP.To16()) {
+	if IPLess(ipNet.IP.To16(), r.Start) || beyond(r.End, ipNet.IP.To16()) {
 		return false
 	}
 
-- 
2.43.0


From fa9d52a3dffbd27776d06a6aa89161103380878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 26/48] fix: ipdb pack reports networks it could not insert

---
 db/format/ipdb/packer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/format/ipdb/packer.go b/db/format/ipdb/packer.go
index fb7d47b..39122ff 100644
--- a/db/format/ipdb/packer.go
+++ b/db/format/ipdb/packer.go
@@ -11,7 +11,9 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	w := NewWriter(*meta, nil)
 	// writer insert ipraw from ipd
 	for _, v := range ipd.Ips {
-		w.insert(v.Cidr, v.FieldValues)
+		if err := w.insert(v.Cidr, v.FieldValues); err != nil {
+			return err
+		}
 	}
 	return w.Save(writer)
 }
-- 
2.43.0


From ac72412a593a21aae5cefcd996925453b2b9332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 27/48] fix: ipdb pack rejects rows that do not fit a record

---
 db/format/ipdb/packer.go |  4 ++++
 db/format/ipdb/writer.go | 13 ++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/db/format/ipdb/packer.go b/db/format/ipdb/packer.go
index 39122ff..ceecfc0 100644
--- a/db/format/ipdb/packer.go
+++ b/db/format/ipdb/packer.go
@@ -1,6 +1,7 @@
 package ipdb
 
 import (
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 	"io"
 )
@@ -11,6 +12,9 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	w := NewWriter(*meta, nil)
 	// writer insert ipraw from ipd
 	for _, v := range ipd.Ips {
+		if len(v.FieldValues) != len(ipd.Fields) {
+			return db.ErrInvalidFieldsLength
+		}
 		if err := w.insert(v.Cidr, v.FieldValues); err != nil {
 			return err
 		}
diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index 9f64ac8..60594d1 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -23,6 +23,7 @@ import (
 	"github.com/qiniu/uip/db"
 	"io"
 	"log"
+	"math"
 	"net"
 	"strings"
 )
@@ -138,7 +139,10 @@ func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 			values[p.continentOffset] = "AN"
 		}
 	}
-	offset := p.Fields(values)
+	offset, err := p.Fields(values)
+	if err != nil {
+		return err
+	}
 	p.node[node][index] = -offset
 	return nil
 }
@@ -185,8 +189,11 @@ func (p *Writer) Nodes(ip net.IP, mask int) (node, indexBit int, ok bool) {
 // Fields 保存数据并返回数据的偏移量
 // 相同的数据仅保存一份
 // 数据格式 2 byte length + n byte data
-func (p *Writer) Fields(fields []string) int {
+func (p *Writer) Fields(fields []string) (int, error) {
 	data := strings.Join(fields, FieldsSep)
+	if len(data) > math.MaxUint16 {
+		return 0, db.ErrInvalidFieldsLength
+	}
 	if _, ok := p.dataHash[data]; !ok {
 		_data := []byte(data)
 		// +8 是由于 loopBack node 占用了8byte
@@ -194,7 +201,7 @@ func (p *Writer) Fields(fields []string) int {
 		p.dataChunk.Write(IntToBinaryBE(len(_data), 16))
 		p.dataChunk.Write(_data)
 	}
-	return p.dataHash[data]
+	return p.dataHash[data], nil
 }
 
 // IntToBinaryBE 将int转换为 binary big endian
-- 
2.43.0


From 6f8119752e0b71b9f8dcd7749f677042f4412043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 28/48] fix: ipdb pack stores continent codes without touching
 the caller's data

---
 db/format/ipdb/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index 60594d1..f7475f7 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -50,7 +50,7 @@ func NewWriter(meta MetaData, languages map[string]int) *Writer {
 	}
 	contitnentOffset := -1
 	for i, field := range meta.Fields {
-		if strings.ToLower(field) == "continent" {
+		if field == FieldContinentCode {
 			contitnentOffset = i
 		}
 	}
@@ -121,6 +121,7 @@ func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 		log.Printf("cidr conflict %s %s\n", ipNet, values)
 		return db.ErrCIDRConflict
 	}
+	values = append([]string(nil), values...)
 	if p.continentOffset >= 0 {
 		switch values[p.continentOffset] {
 		case "亚洲":
-- 
2.43.0


From 218e903c1f159c135bfb79653883d70a37b7ff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 29/48] fix: ipdb pack replaces field separators inside values

---
 db/format/ipdb/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index f7475f7..f949284 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -122,6 +122,9 @@ func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 		return db.ErrCIDRConflict
 	}
 	values = append([]string(nil), values...)
+	for i, v := range values {
+		values[i] = strings.Replace(v, FieldsSep, "_", -1)
+	}
 	if p.continentOffset >= 0 {
 		switch values[p.continentOffset] {
 		case "亚洲":
-- 
2.43.0


From 90e8a8199e73e2e8a8dee58a98522d7bcaf6a13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 30/48] fix: ipdb pack stores ::/0 instead of panicking

---
 db/format/ipdb/writer.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index f949284..ad352e0 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -111,7 +111,21 @@ func (p *Writer) Save(w io.Writer) error {
 
 // insert 插入数据
 func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
-	mask, _ := ipNet.Mask.Size()
+	mask, bits := ipNet.Mask.Size()
+	if bits == 0 {
+		return db.ErrInvalidCIDR
+	}
+	if mask == 0 && ipNet.IP.To4() == nil {
+		// ::/0 is the root itself, which holds no record: store its halves
+		for _, b := range []byte{0, 0x80} {
+			half := &net.IPNet{IP: make(net.IP, net.IPv6len), Mask: net.CIDRMask(1, 8*net.IPv6len)}
+			half.IP[0] = b
+			if err := p.insert(half, values); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
 	node, index, ok := p.Nodes(ipNet.IP, mask)
 	if !ok {
 		log.Printf("load cidr failed cidr(%s) data(%s) node(%d) index(%d) preview data(%s)\n", ipNet, values, node, index, p.resolve(-p.node[node][index]))
-- 
2.43.0


From c6aacb3edafb7f20f7fcfde88a704c7f5e151634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 31/48] fix: PackFile keeps the target of an unsupported format
 and reports close errors

---
 db/convert/packer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/db/convert/packer.go b/db/convert/packer.go
index c676d96..ce2222f 100644
--- a/db/convert/packer.go
+++ b/db/convert/packer.go
@@ -13,13 +13,20 @@ import (
 )
 
 func PackFile(ipFile string, ipData *inf.IpData) error {
+	extend := path.Ext(ipFile)
+	if format.GetPackFormat(extend) == nil {
+		log.Println("Unsupported ip file format ", ipFile, extend)
+		return db.ErrUnsupportedFormat
+	}
 	file, err := os.Create(ipFile)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
-	extend := path.Ext(ipFile)
-	return PackWriter(extend, ipData, file)
+	err = PackWriter(extend, ipData, file)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func PackBytes(kind string, ipData *inf.IpData) ([]byte, error) {
-- 
2.43.0


From 914c4d68ee8719e42512df26ba34d7a38a8ece41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 32/48] fix: MergeNearNetwork accepts data without networks

---
 db/field/operate/replace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index c4944ed..0b99d57 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -118,7 +118,9 @@ func MergeNearNetwork(ipd *inf.IpData) {
 			prev.f = ip.FieldValues
 		}
 	}
-	ipRanges = append(ipRanges, prev)
+	if prev.r != nil {
+		ipRanges = append(ipRanges, prev)
+	}
 	ipd.Ips = make([]inf.IpRaw, 0, len(ipd.Ips))
 	for _, ipRange := range ipRanges {
 		subs := ipRange.r.IPNets()
-- 
2.43.0


From 2a6ba7562935b4234e3043aa0d2699fa0203c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 33/48] fix: attaching a column gives every row a value for it

---
 db/field/operate/district.go | 10 +++++-----
 db/field/operate/line.go     | 21 ++++++++++-----------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/db/field/operate/district.go b/db/field/operate/district.go
index 682ade0..0fc2cea 100644
--- a/db/field/operate/district.go
+++ b/db/field/operate/district.go
@@ -52,16 +52,16 @@ var provinceDistrict = map[string]string{
 }
 
 func AttachDistrict(data *inf.IpData) {
-	districtOffset := field.Offset(field.District, data.Fields)
-	if districtOffset == -1 {
-		data.Fields = append(data.Fields, field.District)
-	}
-
 	provinceOffset := field.Offset(field.Province, data.Fields)
 	if provinceOffset == -1 {
 		return
 	}
 
+	districtOffset := field.Offset(field.District, data.Fields)
+	if districtOffset == -1 {
+		data.Fields = append(data.Fields, field.District)
+	}
+
 	for k, row := range data.Ips {
 		var district string
 		if p := row.FieldValues[provinceOffset]; p != "" {
diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index 8d8291d..1b36313 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -13,14 +13,14 @@ import (
 func AttachLineByCidr(data *inf.IpData, line inf.Query) {
 	lineVer := fmt.Sprintf("%s-%d", line.VersionInfo().Version, line.VersionInfo().Build)
 	data.Version.ExtraInfo = append(data.Version.ExtraInfo, lineVer)
-	var lineOffset int
-	if lineOffset = field.Offset(field.Line, data.Fields); lineOffset == -1 {
-		data.Fields = append(data.Fields, field.Line)
-	}
 	countryOffset := field.Offset(field.Country, data.Fields)
 	if countryOffset == -1 {
 		return
 	}
+	var lineOffset int
+	if lineOffset = field.Offset(field.Line, data.Fields); lineOffset == -1 {
+		data.Fields = append(data.Fields, field.Line)
+	}
 
 	for k, row := range data.Ips {
 		var ispline string
@@ -60,14 +60,13 @@ func AttachLineByAsn(data *inf.IpData, asnLine map[string]string, asnLineVer str
 	}
 	for k, row := range data.Ips {
 		asn := row.FieldValues[asnOffset]
-		if line, ok := asnLine[asn]; ok {
-			if hasLine {
-				row.FieldValues = append(row.FieldValues, line)
-			} else if line == "" {
-				row.FieldValues[lineOffset] = line
-			}
-			data.Ips[k] = row
+		line, ok := asnLine[asn]
+		if hasLine {
+			row.FieldValues = append(row.FieldValues, line)
+		} else if ok && line == "" {
+			row.FieldValues[lineOffset] = line
 		}
+		data.Ips[k] = row
 	}
 }
 
-- 
2.43.0


From 2933107411431aa46cbc6b97e5e4b061ddd40b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 34/48] fix: AttachLineByAsn looks the line up by the asn
 column

---
 db/field/operate/line.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index 1b36313..89ae691 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -40,9 +40,9 @@ func AttachLineByAsn(data *inf.IpData, asnLine map[string]string, asnLineVer str
 	data.Version.ExtraInfo = append(data.Version.ExtraInfo, asnLineVer)
 	var hasLine bool
 	var lineOffset int
-	var asnOffset int
 	// if there is no asn field, return
-	if !field.InArray(field.Asn, data.Fields) {
+	asnOffset := field.Offset(field.Asn, data.Fields)
+	if asnOffset == -1 {
 		return
 	}
 	if !field.InArray(field.Line, data.Fields) {
@@ -53,8 +53,6 @@ func AttachLineByAsn(data *inf.IpData, asnLine map[string]string, asnLineVer str
 		for i, f := range data.Fields {
 			if f == field.Line {
 				lineOffset = i
-			} else if f == field.Asn {
-				asnOffset = i
 			}
 		}
 	}
-- 
2.43.0


From a17a8f701afb74de9be5855723cfdbb2a2c40056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 35/48] fix: line operations no longer leak a network's line
 into rows sharing its values

---
 db/field/operate/line.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index 89ae691..5b78d12 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -27,6 +27,8 @@ func AttachLineByCidr(data *inf.IpData, line inf.Query) {
 		if row.FieldValues[countryOffset] == "中国" {
 			ispline = queryLine(row.Cidr, line)
 		}
+		// rows may share their values, the line belongs to this network only
+		row.FieldValues = append([]string(nil), row.FieldValues...)
 		if lineOffset == -1 {
 			row.FieldValues = append(row.FieldValues, ispline)
 		} else {
@@ -107,6 +109,8 @@ func ReplaceLineByCidr(data *inf.IpData, line inf.Query) {
 			ispline = queryLine(row.Cidr, line)
 		}
 		if ispline != "" {
+			// rows may share their values, the line belongs to this network only
+			row.FieldValues = append([]string(nil), row.FieldValues...)
 			row.FieldValues[ispOffset] = ispline
 			data.Ips[k] = row
 		}
-- 
2.43.0


From 5b29cda3e558dda3ba4fb9942c1d67b4018bf8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 36/48] fix: TrimAsnIspDup accepts isp or asn as the first
 column

---
 db/field/operate/replace.go | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index 0b99d57..0abcdbd 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -23,24 +23,14 @@ func asnMatchIsp(s string, set map[string]map[string]bool) string {
 
 // TrimAsnIspDup some small isp use main isp bonenet whose asn is same as main isp
 func TrimAsnIspDup(data *inf.IpData) {
-	var ispOffset int
-	var asnOffset int
-	for i, f := range data.Fields {
-		if f == field.ISP {
-			ispOffset = i
-		} else if f == field.Asn {
-			asnOffset = i
-		}
-	}
-	if ispOffset == 0 {
+	ispOffset := field.Offset(field.ISP, data.Fields)
+	asnOffset := field.Offset(field.Asn, data.Fields)
+	if ispOffset == -1 || asnOffset == -1 {
 		return
 	}
 	var mainIspAsnMap = make(map[string]map[string]bool)
 	for _, row := range data.Ips {
 		isp := row.FieldValues[ispOffset]
-		if asnOffset == 0 {
-			continue
-		}
 		asn := row.FieldValues[asnOffset]
 		if field.InArray(isp, mainIsp) {
 			if _, ok := mainIspAsnMap[isp]; !ok {
@@ -53,10 +43,6 @@ func TrimAsnIspDup(data *inf.IpData) {
 		}
 	}
 
-	if asnOffset == 0 {
-		return
-	}
-
 	// replace some isp that asn appear in main isp
 	for k, row := range data.Ips {
 		isp := row.FieldValues[ispOffset]
-- 
2.43.0


From e9eeef7e1591003e7d1b7b7e7854d7b75a1114d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 37/48] fix: TrimAsnIspDup picks the main isp in a fixed order
 and ignores unknown asns

---
 db/field/operate/replace.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index 0abcdbd..54eb1a7 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -13,8 +13,11 @@ import (
 var mainIsp = []string{"电信", "联通", "移动", "铁通"}
 
 func asnMatchIsp(s string, set map[string]map[string]bool) string {
-	for k, v := range set {
-		if _, ok := v[s]; ok {
+	if s == "" {
+		return ""
+	}
+	for _, k := range mainIsp {
+		if _, ok := set[k][s]; ok {
 			return k
 		}
 	}
-- 
2.43.0


From 9939040313370d1fa1a1632d1dc03b3d07a3ff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 38/48] fix: commands exit with a failure status when they fail

---
 cmd/converter/main.go | 7 ++++---
 cmd/server/main.go    | 4 ++--
 cmd/simple/main.go    | 4 ++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/cmd/converter/main.go b/cmd/converter/main.go
index 126f5c8..c2c49f6 100644
--- a/cmd/converter/main.go
+++ b/cmd/converter/main.go
@@ -5,6 +5,7 @@ import (
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
 	"log"
+	"os"
 	"strings"
 	"time"
 
@@ -30,7 +31,7 @@ func main() {
 		if err != nil {
 			log.Println(err)
 			flag.PrintDefaults()
-			return
+			os.Exit(1)
 		}
 		log.Println("line", lineQ.VersionInfo())
 		f := operate.AttachLineByCidr
@@ -51,7 +52,7 @@ func main() {
 	if err != nil {
 		log.Println(err)
 		flag.PrintDefaults()
-		return
+		os.Exit(1)
 	}
 	log.Println(len(ipData.Ips), ipData.Version, err, time.Since(t0))
 	outputs := strings.Split(*output, ",")
@@ -60,7 +61,7 @@ func main() {
 		if err != nil {
 			log.Println(err)
 			flag.PrintDefaults()
-			return
+			os.Exit(1)
 		}
 	}
 }
diff --git a/cmd/server/main.go b/cmd/server/main.go
index 973fde5..25337ba 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -16,12 +16,12 @@ func main() {
 	q, err := query.NewDb(f)
 	if err != nil {
 		log.Println(err)
-		return
+		os.Exit(1)
 	}
 	s := server{q}
 	err = s.ListenAndServe(addr)
 	if err != nil {
 		log.Println(err)
-		return
+		os.Exit(1)
 	}
 }
diff --git a/cmd/simple/main.go b/cmd/simple/main.go
index 82eeb67..ce257ec 100644
--- a/cmd/simple/main.go
+++ b/cmd/simple/main.go
@@ -18,7 +18,7 @@ func main() {
 	q, err := query.NewDb(f)
 	if err != nil {
 		log.Println(err)
-		return
+		os.Exit(1)
 	}
 	if strings.HasPrefix(ip, "v") {
 		fmt.Println(q.VersionInfo())
@@ -27,7 +27,7 @@ func main() {
 	i, _, err := q.QueryStr(ip)
 	if err != nil {
 		log.Println(err)
-		return
+		os.Exit(1)
 	}
 	fmt.Printf("%+v\n", i)
 }
-- 
2.43.0


From 25b3b12d4f50c5d38243e8c21318a32acdf3bb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 39/48] fix: java reader keeps the asn out of the line column

---
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 4c2e854..7981e9b 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -132,6 +132,7 @@ final class Reader {
                     break;
                 case "asn":
                     info.asn = parts[i];
+                    break;
                 case "line":
                     info.line = parts[i];
                     break;
-- 
2.43.0


From 842e20c622dae48929c73fd089f1ce609ec52e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 40/48] fix: java reader reports addresses that have no record

---
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 7981e9b..4281e01 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -209,7 +209,7 @@ final class Reader {
         try {
             node = this.findNode(ip);
         } catch (NotFoundException nfe) {
-            return 0;
+            throw new IPFormatException(nfe.getMessage());
         }
 
         return node;
@@ -273,13 +273,13 @@ final class Reader {
         if (ipv4BitsCache != null && bit == 32) {
             int index = bytesToIndex(binary);
             node = ipv4BitsCache[index];
-            if (node >= this.nodeCount) {
+            if (node > this.nodeCount) {
                 return node;
             }
             i = cacheDepth;
         }
         node = readDepth(node, bit, i, binary);
-        if (node >= this.nodeCount) {
+        if (node > this.nodeCount) {
             return node;
         }
 
-- 
2.43.0


From fa2e9bbaaaf7a5fff8611357b6a1fd57b243d5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 41/48] fix: rust reader reports addresses that have no record

---
 rust/src/formats/ipdb/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index ad9b3ff..8b981a2 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -224,13 +224,13 @@ impl Reader{
         if self.ipv4_bits_cache.len()>0 && bit == 32 {
             let index = Self::bytes_to_index(b);
             node = self.ipv4_bits_cache[index as usize];
-            if node >= self.node_count {
+            if node > self.node_count {
                 return Ok(node);
             }
             i = CACHE_DEPTH;
         }
         node = self.read_depth(node, bit as i32, i, b);
-        if node >= self.node_count {
+        if node > self.node_count {
             return Ok(node);
         }
 
-- 
2.43.0


From 7d1913997701665b17f5f1c370619451b0babcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 42/48] fix: rust reader keeps continents that are not a code

---
 rust/src/formats/ipdb/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index 8b981a2..cdc0f4f 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -165,7 +165,7 @@ impl Reader{
                         "AF" => info.continent = "非洲".to_string(),
                         "OC" => info.continent = "大洋洲".to_string(),
                         "AN" => info.continent = "南极洲".to_string(),
-                        _ => {}
+                        _ => info.continent = val[i].to_string(),
                     }
                 },
                 _ => {}
-- 
2.43.0


From eb35d998213594a6e7293b3975c2dee05fa6e38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 43/48] fix: rust reader selects the language columns and
 rejects short records

---
 rust/src/formats/ipdb/reader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index cdc0f4f..2ccebf5 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -193,7 +193,7 @@ impl Reader{
         let off = self.meta.languages.get(lang);
         match off {
             None => return Err(Error::new(ErrorKind::InvalidData, "invalid language")),
-            Some(_) => {
+            Some(off) => {
                 let resolved = node - self.node_count + self.node_count * 8;
                 if resolved >= self.file_size {
                     return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
@@ -208,7 +208,11 @@ impl Reader{
                 }
                 let str = String::from_utf8_lossy(&self.data[resolved  + 2..resolved  + 2 + size ]);
                 let a = str.split("\t");
-                let r = a.map(|i| i.to_string()).collect();
+                let r: Vec<String> = a.map(|i| i.to_string())
+                    .skip(*off as usize).take(self.meta.fields.len()).collect();
+                if *off < 0 || r.len() != self.meta.fields.len() {
+                    return Err(Error::new(ErrorKind::InvalidData, "database record error"));
+                }
                 Ok(r)
             }
         }
-- 
2.43.0


From c6350c27a558a2b774b2d82caf11812fbeb64be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 44/48] fix: rust reader bounds the record offset by the data

---
 rust/src/formats/ipdb/reader.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index 2ccebf5..bf9092c 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -50,7 +50,6 @@ const CACHE_DEPTH: i32 = 12;
 
 pub struct Reader {
     pub meta: MetaData,
-    file_size: i32,
     node_count: i32,
     data: Vec<u8>,
     v4_offset: i32,
@@ -67,7 +66,6 @@ impl Reader{
         let data = (&bytes[m.meta_size + 4..]).to_vec();
 
         let mut reader = Reader {
-            file_size: bytes.len() as i32,
             node_count: m.node_count,
             v4_offset: 0,
             ipv4_bits_cache: Vec::with_capacity(1<<CACHE_DEPTH),
@@ -195,7 +193,7 @@ impl Reader{
             None => return Err(Error::new(ErrorKind::InvalidData, "invalid language")),
             Some(off) => {
                 let resolved = node - self.node_count + self.node_count * 8;
-                if resolved >= self.file_size {
+                if resolved as usize + 2 > self.data.len() {
                     return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
                 }
 
-- 
2.43.0


From 931c4fcf697c3465cc02b6dee10fd3baea69aedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:12 +0000
Subject: [PATCH 45/48] fix: awdb pointers with size bits of 29 and above are
 pointers

---
 db/format/awdb/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 81e97e4..c651cf8 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -79,7 +79,8 @@ func (d *decoder) decodeCtrlData(offset uint) (dataType, uint, uint, error) {
 
 func (d *decoder) sizeFromCtrlByte(ctrlByte byte, offset uint, typeNum dataType) (uint, uint, error) {
 	size := uint(ctrlByte & 0x1f)
-	if typeNum == _Extended {
+	// the size bits of a pointer are no length: 29 and above are pointers too
+	if typeNum == _Extended || typeNum == _Pointer {
 		return size, offset, nil
 	}
 
-- 
2.43.0


From e1b9d8912801bd387d727005793167f5e7a1bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:28 +0000
Subject: [PATCH 46/48] fix: scan and memip dumps dropped the rows after one
 that ends at the last address

---
 db/format/memip/dumper.go | 3 ---
 db/format/plain/dumper.go | 5 -----
 2 files changed, 8 deletions(-)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index d92c304..5df8a4f 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -139,9 +139,6 @@ func (t *traversal) Dump(_ inf.Exporter) (*inf.IpData, error) {
 			values = prevInfo
 		}
 		rows = append(rows, row{rg: cidr, view: values})
-		if ipnet.IsAllMask(cidr.End) {
-			break
-		}
 		prevInfo = values
 	}
 	var ipd = inf.IpData{
diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index d3915b2..e2a7745 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -13,7 +13,6 @@ import (
 	"github.com/qiniu/uip/db/field"
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
-	"github.com/qiniu/uip/ipnet"
 )
 
 func dump(data []byte, exporter inf.Exporter) (*inf.IpData, error) {
@@ -153,10 +152,6 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 		}
 
 		ret.Ips = append(ret.Ips, inf.IpRaw{Cidr: cidr, FieldValues: values})
-		last := ipnet.LastIP(cidr)
-		if ipnet.IsAllMask(last) {
-			break
-		}
 		prevInfo = values
 	}
 
-- 
2.43.0


From a47d76df338f424cd70850e34978af23bfb90bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:28 +0000
Subject: [PATCH 47/48] fix: a colon in the first value of a memip file made
 its version IPv6

---
 db/format/memip/dumper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index 5df8a4f..eda0dcc 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -119,7 +119,7 @@ type row struct {
 }
 
 func (t *traversal) ipVer() inf.IpType {
-	if strings.Contains(t.lines[0], ":") {
+	if strings.Contains(strings.Split(t.lines[0], " ")[0], ":") {
 		return inf.IpV6
 	}
 	return inf.IpV4
-- 
2.43.0


From 18afbbc9f753139fda5f188acf59ec989914e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:25 +0000
Subject: [PATCH 48/48] fix: IPv6 dumps ended after the networks in
 ::ffff:0:0/96

---
 db/field/export/export.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/db/field/export/export.go b/db/field/export/export.go
index d14f448..df7d0e4 100644
--- a/db/field/export/export.go
+++ b/db/field/export/export.go
@@ -231,10 +231,14 @@ func BuildIPData(fieldMap map[string]string, fields []string, ept inf.Exporter,
 
 		ret.Ips = append(ret.Ips, inf.IpRaw{Cidr: cidr, FieldValues: values})
 		last := ipnet.LastIP(cidr)
+		if version.IsIpV6() {
+			// a network in ::ffff:0:0/96 comes back as an IPv4 one
+			last = last.To16()
+		}
 		if ipnet.IsAllMask(last) {
 			break
 		}
-		marker = ipnet.NextStart(cidr)
+		marker = ipnet.NextIP(last)
 
 		prevInfo = values
 	}
-- 
2.43.0

