From 2aa79c78a7863327a0d3a80fe9e3434ab15b3e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 01/53] fix: ipdb query of an address without data returned a
 record or the wrong error

---
 db/format/ipdb/querier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/ipdb/querier.go b/db/format/ipdb/querier.go
index 3034a01..479e596 100644
--- a/db/format/ipdb/querier.go
+++ b/db/format/ipdb/querier.go
@@ -40,6 +40,9 @@ func (q *querier) Query(ip net.IP) (*inf.IpInfo, int, error) {
 
 func (q *querier) QueryInternal(ip net.IP, cache bool) (int, *inf.IpInfo, int, error) {
 	node, body, mask, err := q.r.find0(ip)
+	if err != nil {
+		return 0, nil, 0, err
+	}
 	if cache {
 		if v, ok := q.queryCache[node]; ok {
 			return node, v, mask, nil
-- 
2.43.0


From 4fcdf1db8116e716ac8eed9f85918e08150652f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 02/53] fix: opening an ipdb file of less than 4 bytes panicked

---
 db/format/ipdb/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index cff845a..8ecff8e 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -47,6 +47,9 @@ const iOff = 5
 
 func newReaderFromBytes(data []byte) (*reader, error) {
 	var meta MetaData
+	if len(data) < 4 {
+		return nil, db2.ErrFileSize
+	}
 	metaLength := int(binary.BigEndian.Uint32(data[0:4]))
 	if len(data) < (4 + metaLength) {
 		return nil, db2.ErrFileSize
-- 
2.43.0


From e558edd6f32fbefbbcc646922e7d23526ff87e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 03/53] fix: opening an awdb file of less than 2000 bytes
 panicked

---
 db/format/awdb/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 5592167..2a6fc0e 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -43,6 +43,9 @@ const metaDetectStart = 2000
 // a Reader structure or an error.
 func FromBytes(buffer []byte) (*Reader, error) {
 	detectOffset := len(buffer) - metaDetectStart
+	if detectOffset < 0 {
+		detectOffset = 0
+	}
 	metaIn := buffer[detectOffset:]
 	metadataStart := bytes.LastIndex(metaIn, metadataStartMarker)
 
-- 
2.43.0


From 6237f3787bb701b079135d80f8cc63e9ce012c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 04/53] fix: awdb query or dump of an address without data
 panicked

---
 db/format/awdb/dumper.go  | 6 +++++-
 db/format/awdb/querier.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/db/format/awdb/dumper.go b/db/format/awdb/dumper.go
index 29bc19f..8df88fb 100644
--- a/db/format/awdb/dumper.go
+++ b/db/format/awdb/dumper.go
@@ -1,6 +1,7 @@
 package awdb
 
 import (
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
 	"log"
@@ -62,10 +63,13 @@ func (t *traversal) dump(exporter inf.Exporter) (*inf.IpData, error) {
 
 func (t *traversal) find(ip net.IP) (*net.IPNet, map[string]string, error) {
 	var record interface{}
-	ipNet, _, err := t.reader.LookupNetwork(ip, &record)
+	ipNet, ok, err := t.reader.LookupNetwork(ip, &record)
 	if err != nil {
 		return nil, nil, err
 	}
+	if !ok {
+		return nil, nil, db.ErrDataNotExists
+	}
 
 	data := make(map[string]string)
 	for k, v := range record.(map[string]interface{}) {
diff --git a/db/format/awdb/querier.go b/db/format/awdb/querier.go
index 5ac994b..8ea962e 100644
--- a/db/format/awdb/querier.go
+++ b/db/format/awdb/querier.go
@@ -4,6 +4,7 @@ import (
 	"log"
 	"net"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 )
 
@@ -65,10 +66,13 @@ func (q *querier) BuildCache(ipList []string) {
 
 func (q *querier) Find(ip net.IP) (*net.IPNet, map[string]string, error) {
 	var record interface{}
-	ipNet, _, err := q.reader.LookupNetwork(ip, &record)
+	ipNet, ok, err := q.reader.LookupNetwork(ip, &record)
 	if err != nil {
 		return nil, nil, err
 	}
+	if !ok {
+		return nil, nil, db.ErrDataNotExists
+	}
 
 	data := make(map[string]string)
 	for k, v := range record.(map[string]interface{}) {
-- 
2.43.0


From b989d57f04bfa3848dac197846fe40ea78ada944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 05/53] fix: awdb dump lost the AS number a query reports

---
 db/format/awdb/fields.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/awdb/fields.go b/db/format/awdb/fields.go
index ef5bdf6..7668f20 100644
--- a/db/format/awdb/fields.go
+++ b/db/format/awdb/fields.go
@@ -124,7 +124,7 @@ var CommonFieldsMap = map[string]string{
 	field.Province:  FieldProvince,
 	field.City:      FieldCity,
 	field.ISP:       FieldISP,
-	field.Asn:       field.Asn,
+	field.Asn:       FieldASNumber,
 	field.Continent: FieldContinent,
 	field.Line:      field.Line,
 }
-- 
2.43.0


From 194e0a0dfb76e7872c42134cf3ddbd4ba0b0228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 06/53] fix: ISP correction depended on map order and field
 order, and took an empty AS number as evidence

---
 db/field/operate/replace.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index c4944ed..920ff21 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -13,9 +13,12 @@ import (
 var mainIsp = []string{"电信", "联通", "移动", "铁通"}
 
 func asnMatchIsp(s string, set map[string]map[string]bool) string {
-	for k, v := range set {
-		if _, ok := v[s]; ok {
-			return k
+	if s == "" {
+		return ""
+	}
+	for _, isp := range mainIsp {
+		if set[isp][s] {
+			return isp
 		}
 	}
 	return ""
@@ -23,8 +26,8 @@ func asnMatchIsp(s string, set map[string]map[string]bool) string {
 
 // TrimAsnIspDup some small isp use main isp bonenet whose asn is same as main isp
 func TrimAsnIspDup(data *inf.IpData) {
-	var ispOffset int
-	var asnOffset int
+	var ispOffset = -1
+	var asnOffset = -1
 	for i, f := range data.Fields {
 		if f == field.ISP {
 			ispOffset = i
@@ -32,15 +35,12 @@ func TrimAsnIspDup(data *inf.IpData) {
 			asnOffset = i
 		}
 	}
-	if ispOffset == 0 {
+	if ispOffset == -1 || asnOffset == -1 {
 		return
 	}
 	var mainIspAsnMap = make(map[string]map[string]bool)
 	for _, row := range data.Ips {
 		isp := row.FieldValues[ispOffset]
-		if asnOffset == 0 {
-			continue
-		}
 		asn := row.FieldValues[asnOffset]
 		if field.InArray(isp, mainIsp) {
 			if _, ok := mainIspAsnMap[isp]; !ok {
@@ -53,10 +53,6 @@ func TrimAsnIspDup(data *inf.IpData) {
 		}
 	}
 
-	if asnOffset == 0 {
-		return
-	}
-
 	// replace some isp that asn appear in main isp
 	for k, row := range data.Ips {
 		isp := row.FieldValues[ispOffset]
-- 
2.43.0


From b5a0442e23a41b6d58975c9c1f25a7569da11e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 07/53] fix: attaching the district left rows short without a
 province column and wrote into shared rows

---
 db/field/operate/district.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/db/field/operate/district.go b/db/field/operate/district.go
index 682ade0..106c4bb 100644
--- a/db/field/operate/district.go
+++ b/db/field/operate/district.go
@@ -58,15 +58,16 @@ func AttachDistrict(data *inf.IpData) {
 	}
 
 	provinceOffset := field.Offset(field.Province, data.Fields)
-	if provinceOffset == -1 {
+	if provinceOffset == -1 && districtOffset != -1 {
 		return
 	}
 
 	for k, row := range data.Ips {
 		var district string
-		if p := row.FieldValues[provinceOffset]; p != "" {
-			district = provinceDistrict[p]
+		if provinceOffset != -1 {
+			district = provinceDistrict[row.FieldValues[provinceOffset]]
 		}
+		row.FieldValues = append([]string(nil), row.FieldValues...)
 		if districtOffset == -1 {
 			row.FieldValues = append(row.FieldValues, district)
 		} else {
-- 
2.43.0


From 0f0603179533804e37231339e17eda2f70245058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 08/53] fix: attaching or replacing the line leaked one row's
 line into other rows, and left rows short without a country column

---
 db/field/operate/line.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index 8d8291d..e586c30 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -18,15 +18,16 @@ func AttachLineByCidr(data *inf.IpData, line inf.Query) {
 		data.Fields = append(data.Fields, field.Line)
 	}
 	countryOffset := field.Offset(field.Country, data.Fields)
-	if countryOffset == -1 {
+	if countryOffset == -1 && lineOffset != -1 {
 		return
 	}
 
 	for k, row := range data.Ips {
 		var ispline string
-		if row.FieldValues[countryOffset] == "中国" {
+		if countryOffset != -1 && row.FieldValues[countryOffset] == "中国" {
 			ispline = queryLine(row.Cidr, line)
 		}
+		row.FieldValues = append([]string(nil), row.FieldValues...)
 		if lineOffset == -1 {
 			row.FieldValues = append(row.FieldValues, ispline)
 		} else {
@@ -110,6 +111,7 @@ func ReplaceLineByCidr(data *inf.IpData, line inf.Query) {
 			ispline = queryLine(row.Cidr, line)
 		}
 		if ispline != "" {
+			row.FieldValues = append([]string(nil), row.FieldValues...)
 			row.FieldValues[ispOffset] = ispline
 			data.Ips[k] = row
 		}
-- 
2.43.0


From bc118425975dc78a5e59e01266c9bdd964594ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 09/53] fix: attaching the line by AS number read the wrong
 column and left rows without a match short

---
 db/field/operate/line.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index e586c30..4c2c438 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -41,9 +41,9 @@ func AttachLineByAsn(data *inf.IpData, asnLine map[string]string, asnLineVer str
 	data.Version.ExtraInfo = append(data.Version.ExtraInfo, asnLineVer)
 	var hasLine bool
 	var lineOffset int
-	var asnOffset int
 	// if there is no asn field, return
-	if !field.InArray(field.Asn, data.Fields) {
+	asnOffset := field.Offset(field.Asn, data.Fields)
+	if asnOffset == -1 {
 		return
 	}
 	if !field.InArray(field.Line, data.Fields) {
@@ -54,21 +54,19 @@ func AttachLineByAsn(data *inf.IpData, asnLine map[string]string, asnLineVer str
 		for i, f := range data.Fields {
 			if f == field.Line {
 				lineOffset = i
-			} else if f == field.Asn {
-				asnOffset = i
 			}
 		}
 	}
 	for k, row := range data.Ips {
 		asn := row.FieldValues[asnOffset]
-		if line, ok := asnLine[asn]; ok {
-			if hasLine {
-				row.FieldValues = append(row.FieldValues, line)
-			} else if line == "" {
-				row.FieldValues[lineOffset] = line
-			}
-			data.Ips[k] = row
+		line, ok := asnLine[asn]
+		row.FieldValues = append([]string(nil), row.FieldValues...)
+		if hasLine {
+			row.FieldValues = append(row.FieldValues, line)
+		} else if ok && line == "" {
+			row.FieldValues[lineOffset] = line
 		}
+		data.Ips[k] = row
 	}
 }
 
-- 
2.43.0


From 69699899ca20dc9856d3e66bba4a3e7c2f403f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 10/53] fix: normalisation translated a value shared by several
 rows more than once

---
 db/field/operate/replace.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index 920ff21..ce033a3 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -76,6 +76,8 @@ func ReplaceShortage(ipdata *inf.IpData) {
 		}
 	}
 	for k, row := range ipdata.Ips {
+		// consecutive rows may share one slice of values
+		ipdata.Ips[k].FieldValues = append([]string(nil), row.FieldValues...)
 		for i, v := range row.FieldValues {
 			if m, ok := offsets[i]; ok {
 				if v, ok := m[v]; ok {
-- 
2.43.0


From f000f8d3c3f1704786213ea8dd0282395cc3dab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 11/53] fix: packing changed the values of the table being
 packed

---
 db/format/ipdb/writer.go  |  1 +
 db/format/plain/packer.go | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index 9f64ac8..f6e2730 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -121,6 +121,7 @@ func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 		return db.ErrCIDRConflict
 	}
 	if p.continentOffset >= 0 {
+		values = append([]string(nil), values...)
 		switch values[p.continentOffset] {
 		case "亚洲":
 			values[p.continentOffset] = "AS"
diff --git a/db/format/plain/packer.go b/db/format/plain/packer.go
index 8ebffd1..3f0e77f 100644
--- a/db/format/plain/packer.go
+++ b/db/format/plain/packer.go
@@ -19,8 +19,7 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	fmt.Fprintf(writer, "#### %s\n", string(verStr))
 	fmt.Fprintf(writer, "#### %s\n", strings.Join(ipd.Fields, ","))
 	for _, v := range ipd.Ips {
-		replaceComma(&v)
-		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(v.FieldValues, ","))
+		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(replaceComma(v.FieldValues), ","))
 		if err != nil {
 			return err
 		}
@@ -28,8 +27,10 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	return nil
 }
 
-func replaceComma(s *inf.IpRaw) {
-	for i, v := range s.FieldValues {
-		s.FieldValues[i] = strings.Replace(v, ",", "_", -1)
+func replaceComma(values []string) []string {
+	ret := make([]string, len(values))
+	for i, v := range values {
+		ret[i] = strings.Replace(v, ",", "_", -1)
 	}
+	return ret
 }
-- 
2.43.0


From 14d077d8c69667b79296142d68b4521f92fad305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 12/53] fix: scan dump without a rule lost all values, lost the
 rows after a long line, and panicked on a short header

---
 db/format/plain/dumper.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index bc140d3..f6d3aef 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -38,19 +38,22 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	t := &traversal{}
 	bio := bytes.NewReader(data)
 	scanner := bufio.NewScanner(bio)
+	scanner.Buffer(nil, len(data)+1)
 	lineOffset := 0
 	for scanner.Scan() {
 		if lineOffset == 0 {
 			// ignore title
 		} else if lineOffset == 1 {
 			//	ignore prefix "#### "
-			err := json.Unmarshal(scanner.Bytes()[5:], &t.Version)
-			if err != nil {
+			if err := json.Unmarshal(trimPrefix(scanner.Bytes()), &t.Version); err != nil {
 				return nil, err
 			}
+			if t.Version == nil {
+				return nil, errors.New("invalid version line: " + scanner.Text())
+			}
 		} else if lineOffset == 2 {
 			//	ignore prefix "#### "
-			b := scanner.Bytes()[5:]
+			b := trimPrefix(scanner.Bytes())
 			t.Fields = strings.Split(string(b), ",")
 			t.lines = make([]string, 0, t.Version.Count+1)
 		} else {
@@ -58,9 +61,19 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 		}
 		lineOffset += 1
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+	if lineOffset < 3 {
+		return nil, errors.New("incomplete header")
+	}
 	return t, nil
 }
 
+func trimPrefix(line []byte) []byte {
+	return bytes.TrimPrefix(line, []byte("#### "))
+}
+
 func fieldToPair(fields []string) []field.Pair {
 	var ret []field.Pair
 	for _, f := range fields {
@@ -119,6 +132,10 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 
 		if exporter != nil {
 			values = exporter.Export(fieldsMap, info)
+		} else {
+			for _, f := range t.Fields {
+				values = append(values, info[f])
+			}
 		}
 
 		if reflect.DeepEqual(values, prevInfo) {
-- 
2.43.0


From e9078b9a60b96861603ffede93e0af66bd418e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 13/53] fix: scan dump dropped the rows after 255.255.255.255,
 which an IPv6 table can have

---
 db/format/plain/dumper.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index f6d3aef..e027385 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -12,7 +12,6 @@ import (
 	"github.com/qiniu/uip/db/field"
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
-	"github.com/qiniu/uip/ipnet"
 )
 
 func dump(data []byte, exporter inf.Exporter) (*inf.IpData, error) {
@@ -143,10 +142,6 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 		}
 
 		ret.Ips = append(ret.Ips, inf.IpRaw{Cidr: cidr, FieldValues: values})
-		last := ipnet.LastIP(cidr)
-		if ipnet.IsAllMask(last) {
-			break
-		}
 		prevInfo = values
 	}
 
-- 
2.43.0


From d3b78e7e9e7c6683ce78babee0fdfdf43e7a67b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 14/53] fix: memip dump panicked on a malformed range or an
 empty file

---
 db/format/memip/dumper.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index f0685b5..ba5aaf5 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -49,9 +49,13 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	}
 	bio := bytes.NewReader(data)
 	scanner := bufio.NewScanner(bio)
+	scanner.Buffer(nil, len(data)+1)
 	for scanner.Scan() {
 		t.lines = append(t.lines, scanner.Text())
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	return t, nil
 }
 
@@ -94,6 +98,9 @@ func parseLine(line string) (*ipnet.Range, []string, error) {
 	} else {
 		rg = parseV4Range(array[0:2])
 	}
+	if rg == nil || ipnet.IPLess(rg.End, rg.Start) {
+		return nil, nil, errors.New("bad range:" + line)
+	}
 
 	view := array[2]
 	return rg, splitView(view), nil
@@ -105,7 +112,7 @@ type row struct {
 }
 
 func (t *traversal) ipVer() inf.IpType {
-	if strings.Contains(t.lines[0], ":") {
+	if len(t.lines) > 0 && strings.Contains(t.lines[0], ":") {
 		return inf.IpV6
 	}
 	return inf.IpV4
-- 
2.43.0


From 820d8d9cc5fbae86126b19dea40175b0010e3a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 15/53] fix: range join, intersection and membership were wrong
 at the highest address

---
 ipnet/ipnet.go |  2 +-
 ipnet/range.go | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ipnet/ipnet.go b/ipnet/ipnet.go
index c42686d..defe753 100644
--- a/ipnet/ipnet.go
+++ b/ipnet/ipnet.go
@@ -34,5 +34,5 @@ func LastIP(ipNet *net.IPNet) net.IP {
 
 // Contains 检查IP区间内是否包含IP
 func Contains(start, end, ip net.IP) bool {
-	return !IPLess(ip, start) && IPLess(ip, NextIP(end))
+	return !IPLess(ip, start) && !IPLess(end, ip)
 }
diff --git a/ipnet/range.go b/ipnet/range.go
index aab6d33..26c71f7 100644
--- a/ipnet/range.go
+++ b/ipnet/range.go
@@ -39,7 +39,7 @@ func NewRange(ipNet *net.IPNet) *Range {
 // Join 合并网段
 func (r *Range) Join(r2 *Range) bool {
 	// 禁止 起始IP小于原IP区间 或 IP区间不相邻 的IP区间合入
-	if IPLess(r2.Start, r.Start) || IPLess(NextIP(r.End), r2.Start) {
+	if IPLess(r2.Start, r.Start) || gapBefore(r.End, r2.Start) {
 		return false
 	}
 
@@ -49,9 +49,14 @@ func (r *Range) Join(r2 *Range) bool {
 	return true
 }
 
+// gapBefore 检查 end 和 start 之间是否有空隙, end 可以是最大的IP
+func gapBefore(end, start net.IP) bool {
+	return IPLess(end, start) && IPLess(NextIP(end), start)
+}
+
 // CommonRange 求共同网段
 func (r *Range) CommonRange(ip net.IP, r2 *Range) bool {
-	if IPLess(r2.End, r.Start) || IPLess(NextIP(r.End), r2.Start) {
+	if IPLess(r2.End, r.Start) || IPLess(r.End, r2.Start) {
 		return false
 	}
 	start := r.Start
@@ -77,7 +82,7 @@ func (r *Range) Contains(ip net.IP) bool {
 // JoinIPNet 合并网段
 func (r *Range) JoinIPNet(ipNet *net.IPNet) bool {
 	// 禁止 起始IP小于原IP区间 或 IP区间不相邻 的IP区间合入
-	if IPLess(ipNet.IP.To16(), r.Start) || IPLess(NextIP(r.End), ipNet.IP.To16()) {
+	if IPLess(ipNet.IP.To16(), r.Start) || gapBefore(r.End, ipNet.IP.To16()) {
 		return false
 	}
 
-- 
2.43.0


From a035de7b6027b1dae8e45f8e1398ff60d5347e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 16/53] fix: packing ::/0 as ipdb panicked

---
 db/format/ipdb/writer.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index f6e2730..9c2abb0 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -38,6 +38,7 @@ type Writer struct {
 	dataHash        map[string]int
 	dataChunk       *bytes.Buffer
 	continentOffset int
+	whole           bool
 }
 
 // NewWriter 初始化 IPDB 写入实例
@@ -111,6 +112,15 @@ func (p *Writer) Save(w io.Writer) error {
 // insert 插入数据
 func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 	mask, _ := ipNet.Mask.Size()
+	// ::/0 保存为根节点的两个分支，和其他网段互斥
+	whole := mask == 0 && ipNet.IP.To4() == nil
+	if whole != p.whole && p.node[0] != [2]int{} {
+		log.Printf("cidr conflict %s %s\n", ipNet, values)
+		return db.ErrCIDRConflict
+	}
+	if whole {
+		mask = 1
+	}
 	node, index, ok := p.Nodes(ipNet.IP, mask)
 	if !ok {
 		log.Printf("load cidr failed cidr(%s) data(%s) node(%d) index(%d) preview data(%s)\n", ipNet, values, node, index, p.resolve(-p.node[node][index]))
@@ -141,6 +151,10 @@ func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 	}
 	offset := p.Fields(values)
 	p.node[node][index] = -offset
+	if whole {
+		p.node[node][1-index] = -offset
+	}
+	p.whole = whole
 	return nil
 }
 
-- 
2.43.0


From 26d88bcdbd6c3b7bbabbfcef89151d11ca907b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 17/53] fix: opening a database file that does not exist
 panicked

---
 db/query/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/query/query.go b/db/query/query.go
index b7f5b7c..3311c3e 100644
--- a/db/query/query.go
+++ b/db/query/query.go
@@ -20,7 +20,7 @@ type Db struct {
 func NewDb(file string) (*Db, error) {
 	b, err := os.ReadFile(file)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	extend := path.Ext(file)
 	return NewDbFromBytes(extend, b)
-- 
2.43.0


From 3e3b31645aa5d1ded0c96fcc735edbfec8ef62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 18/53] fix: packing to an unsupported format emptied an
 existing file of that name

---
 db/convert/packer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/db/convert/packer.go b/db/convert/packer.go
index c676d96..0603a2d 100644
--- a/db/convert/packer.go
+++ b/db/convert/packer.go
@@ -13,12 +13,16 @@ import (
 )
 
 func PackFile(ipFile string, ipData *inf.IpData) error {
+	extend := path.Ext(ipFile)
+	if format.GetPackFormat(extend) == nil {
+		log.Println("Unsupported ip file format ", extend)
+		return db.ErrUnsupportedFormat
+	}
 	file, err := os.Create(ipFile)
 	if err != nil {
 		return err
 	}
 	defer file.Close()
-	extend := path.Ext(ipFile)
 	return PackWriter(extend, ipData, file)
 }
 
-- 
2.43.0


From ac08de588e19ff141d46eac65a3afac510876947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 19/53] fix: packing to memip or scan text ignored write errors

---
 db/format/memip/packer.go | 8 ++++++--
 db/format/plain/packer.go | 8 +++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index f9e0330..c2aadc0 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -38,10 +38,14 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	ipRanges = append(ipRanges, prev)
 	for _, rf := range ipRanges {
 		view := strings.Join(rf.f, "-")
+		var err error
 		if ipd.Version.IsIpV4() {
-			fmt.Fprintf(writer, "%d %d %s\n", ipnet.IPv4ToUint32(rf.r.Start), ipnet.IPv4ToUint32(rf.r.End), view)
+			_, err = fmt.Fprintf(writer, "%d %d %s\n", ipnet.IPv4ToUint32(rf.r.Start), ipnet.IPv4ToUint32(rf.r.End), view)
 		} else {
-			fmt.Fprintf(writer, "%s %s %s\n", rf.r.Start.String(), rf.r.End.String(), view)
+			_, err = fmt.Fprintf(writer, "%s %s %s\n", rf.r.Start.String(), rf.r.End.String(), view)
+		}
+		if err != nil {
+			return err
 		}
 	}
 	return nil
diff --git a/db/format/plain/packer.go b/db/format/plain/packer.go
index 3f0e77f..b19d9d1 100644
--- a/db/format/plain/packer.go
+++ b/db/format/plain/packer.go
@@ -15,9 +15,11 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(writer, "#### scan dump %s ####\n", time.Now().String())
-	fmt.Fprintf(writer, "#### %s\n", string(verStr))
-	fmt.Fprintf(writer, "#### %s\n", strings.Join(ipd.Fields, ","))
+	_, err = fmt.Fprintf(writer, "#### scan dump %s ####\n#### %s\n#### %s\n",
+		time.Now().String(), string(verStr), strings.Join(ipd.Fields, ","))
+	if err != nil {
+		return err
+	}
 	for _, v := range ipd.Ips {
 		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(replaceComma(v.FieldValues), ","))
 		if err != nil {
-- 
2.43.0


From 9418df637f6c0585b1d4a2514490d16b838d7142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 20/53] fix: ipdb pack silently corrupted records longer than
 65535 bytes

---
 db/format/ipdb/packer.go | 5 ++++-
 db/format/ipdb/writer.go | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/db/format/ipdb/packer.go b/db/format/ipdb/packer.go
index fb7d47b..028af7f 100644
--- a/db/format/ipdb/packer.go
+++ b/db/format/ipdb/packer.go
@@ -1,6 +1,7 @@
 package ipdb
 
 import (
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 	"io"
 )
@@ -11,7 +12,9 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	w := NewWriter(*meta, nil)
 	// writer insert ipraw from ipd
 	for _, v := range ipd.Ips {
-		w.insert(v.Cidr, v.FieldValues)
+		if err := w.insert(v.Cidr, v.FieldValues); err == db.ErrInvalidFieldsLength {
+			return err
+		}
 	}
 	return w.Save(writer)
 }
diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index 9c2abb0..e6d5778 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -23,6 +23,7 @@ import (
 	"github.com/qiniu/uip/db"
 	"io"
 	"log"
+	"math"
 	"net"
 	"strings"
 )
@@ -149,6 +150,9 @@ func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 			values[p.continentOffset] = "AN"
 		}
 	}
+	if len(strings.Join(values, FieldsSep)) > math.MaxUint16 {
+		return db.ErrInvalidFieldsLength
+	}
 	offset := p.Fields(values)
 	p.node[node][index] = -offset
 	if whole {
-- 
2.43.0


From 910c0c8b6884b5588375777f93e49ee36eaac913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 21/53] fix: merging or memip packing an empty table panicked

---
 db/field/operate/replace.go | 4 +++-
 db/format/memip/packer.go   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index ce033a3..ccce953 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -116,7 +116,9 @@ func MergeNearNetwork(ipd *inf.IpData) {
 			prev.f = ip.FieldValues
 		}
 	}
-	ipRanges = append(ipRanges, prev)
+	if prev.r != nil {
+		ipRanges = append(ipRanges, prev)
+	}
 	ipd.Ips = make([]inf.IpRaw, 0, len(ipd.Ips))
 	for _, ipRange := range ipRanges {
 		subs := ipRange.r.IPNets()
diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index c2aadc0..b1ca459 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -35,7 +35,9 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 			prev.f = values
 		}
 	}
-	ipRanges = append(ipRanges, prev)
+	if prev.r != nil {
+		ipRanges = append(ipRanges, prev)
+	}
 	for _, rf := range ipRanges {
 		view := strings.Join(rf.f, "-")
 		var err error
-- 
2.43.0


From f541813d0904918d43527c86f46e359c1aa3230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 22/53] fix: changing a record a query returned changed the
 answers of later queries

---
 db/format/ipdb/querier.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/format/ipdb/querier.go b/db/format/ipdb/querier.go
index 479e596..9c05216 100644
--- a/db/format/ipdb/querier.go
+++ b/db/format/ipdb/querier.go
@@ -45,7 +45,8 @@ func (q *querier) QueryInternal(ip net.IP, cache bool) (int, *inf.IpInfo, int, e
 	}
 	if cache {
 		if v, ok := q.queryCache[node]; ok {
-			return node, v, mask, nil
+			info := *v
+			return node, &info, mask, nil
 		}
 	}
 
-- 
2.43.0


From 14d3358671d8708d8b316bee7e03666a12204c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 23/53] fix: memip wrote IPv4-mapped ranges of an IPv6 table in
 a form its dump rejects

---
 db/format/memip/packer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index b1ca459..965b7a2 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -3,6 +3,7 @@ package memip
 import (
 	"fmt"
 	"io"
+	"net"
 	"reflect"
 	"strings"
 
@@ -44,7 +45,7 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 		if ipd.Version.IsIpV4() {
 			_, err = fmt.Fprintf(writer, "%d %d %s\n", ipnet.IPv4ToUint32(rf.r.Start), ipnet.IPv4ToUint32(rf.r.End), view)
 		} else {
-			_, err = fmt.Fprintf(writer, "%s %s %s\n", rf.r.Start.String(), rf.r.End.String(), view)
+			_, err = fmt.Fprintf(writer, "%s %s %s\n", ipv6String(rf.r.Start), ipv6String(rf.r.End), view)
 		}
 		if err != nil {
 			return err
@@ -53,6 +54,13 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	return nil
 }
 
+func ipv6String(ip net.IP) string {
+	if ip.To4() != nil {
+		return "::ffff:" + ip.String()
+	}
+	return ip.String()
+}
+
 func fieldOffsets(fs []string) []int {
 	ret := make([]int, len(fields))
 	for i, f := range fields {
-- 
2.43.0


From 7ebfb27887a709e282947fabc5ad1da1552a02d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 24/53] fix: an awdb map key that points to itself overflowed
 the stack

---
 db/format/awdb/decoder.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 98addb8..66f4ccb 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -467,7 +467,7 @@ func (d *decoder) decodeMap(
 	for i := uint(0); i < size; i++ {
 		var key []byte
 		var err error
-		key, offset, err = d.decodeKey(offset)
+		key, offset, err = d.decodeKey(offset, depth)
 
 		if err != nil {
 			return 0, err
@@ -567,7 +567,7 @@ func (d *decoder) decodeStruct(
 			err error
 			key []byte
 		)
-		key, offset, err = d.decodeKey(offset)
+		key, offset, err = d.decodeKey(offset, depth)
 		if err != nil {
 			return 0, err
 		}
@@ -659,7 +659,10 @@ func uintFromBytes(prefix uint, uintBytes []byte) uint {
 // can take advantage of https://github.com/golang/go/issues/3512 to avoid
 // copying the bytes when decoding a struct. Previously, we achieved this by
 // using unsafe.
-func (d *decoder) decodeKey(offset uint) ([]byte, uint, error) {
+func (d *decoder) decodeKey(offset uint, depth int) ([]byte, uint, error) {
+	if depth > maximumDataStructureDepth {
+		return nil, 0, newInvalidDatabaseError("exceeded maximum data structure depth; database is likely corrupt")
+	}
 	typeNum, size, dataOffset, err := d.decodeCtrlData(offset)
 	if err != nil {
 		return nil, 0, err
@@ -669,7 +672,7 @@ func (d *decoder) decodeKey(offset uint) ([]byte, uint, error) {
 		if err != nil {
 			return nil, 0, err
 		}
-		key, _, err := d.decodeKey(pointer)
+		key, _, err := d.decodeKey(pointer, depth+1)
 		return key, ptrOffset, err
 	}
 	if typeNum != _String {
-- 
2.43.0


From a67fb43cd3f07617e15253555da21ebc950d98ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 25/53] fix: awdb decoding into a map of structs, maps or
 pointers mixed up the elements

---
 db/format/awdb/decoder.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 66f4ccb..d55c2c8 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -462,8 +462,6 @@ func (d *decoder) decodeMap(
 	mapType := result.Type()
 	keyValue := reflect.New(mapType.Key()).Elem()
 	elemType := mapType.Elem()
-	elemKind := elemType.Kind()
-	var elemValue reflect.Value
 	for i := uint(0); i < size; i++ {
 		var key []byte
 		var err error
@@ -473,10 +471,7 @@ func (d *decoder) decodeMap(
 			return 0, err
 		}
 
-		if !elemValue.IsValid() || elemKind == reflect.Interface {
-			elemValue = reflect.New(elemType).Elem()
-		}
-
+		elemValue := reflect.New(elemType).Elem()
 		offset, err = d.decode(offset, elemValue, depth)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From f5a3e568ee5ce900100f753153a5ba007653984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 26/53] fix: awdb decoding a number into a field that cannot
 hold its sign changed the number

---
 db/format/awdb/decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index d55c2c8..090744f 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -280,7 +280,7 @@ func (d *decoder) unmarshalInt32(size uint, offset uint, result reflect.Value) (
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		n := uint64(value)
-		if !result.OverflowUint(n) {
+		if value >= 0 && !result.OverflowUint(n) {
 			result.SetUint(n)
 			return newOffset, nil
 		}
@@ -376,7 +376,7 @@ func (d *decoder) unmarshalUint(size uint, offset uint, result reflect.Value, ui
 	switch result.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		n := int64(value)
-		if !result.OverflowInt(n) {
+		if n >= 0 && !result.OverflowInt(n) {
 			result.SetInt(n)
 			return newOffset, nil
 		}
-- 
2.43.0


From 06d6a13cb1f2ecdca9028d6b83d159d4cb68f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 27/53] fix: Java reader took the AS number for the line,
 answered for addresses without data, and rejected ::1

---
 java/src/main/java/qiniu/uip/db/Query.java              | 2 +-
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/Query.java b/java/src/main/java/qiniu/uip/db/Query.java
index fec5376..1dc4cf7 100644
--- a/java/src/main/java/qiniu/uip/db/Query.java
+++ b/java/src/main/java/qiniu/uip/db/Query.java
@@ -51,7 +51,7 @@ public final class Query {
             throw new IPFormatException("ip is empty");
         }
 
-        if (addr.indexOf(":") > 0) {
+        if (addr.indexOf(":") >= 0) {
             ipv = IPAddress.textToNumericFormatV6(addr);
             if (ipv == null) {
                 throw new IPFormatException("ipv6 format error");
diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 4c2e854..9add858 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -132,6 +132,7 @@ final class Reader {
                     break;
                 case "asn":
                     info.asn = parts[i];
+                    break;
                 case "line":
                     info.line = parts[i];
                     break;
@@ -221,6 +222,10 @@ final class Reader {
     }
 
     private String[] resolveNode(int node, String language) throws InvalidDatabaseException {
+        // node 0 .. nodeCount are not data
+        if (node <= this.nodeCount) {
+            return null;
+        }
         int off;
         try {
             off = this.meta.languages.get(language);
-- 
2.43.0


From f119966ef6e9182cacba5a64e15fd68643f496d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 28/53] fix: Rust reader dropped unlisted continents, ignored
 the language offset, and answered for addresses without data

---
 rust/src/formats/ipdb/reader.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index ad9b3ff..1aee267 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -165,7 +165,7 @@ impl Reader{
                         "AF" => info.continent = "非洲".to_string(),
                         "OC" => info.continent = "大洋洲".to_string(),
                         "AN" => info.continent = "南极洲".to_string(),
-                        _ => {}
+                        v => info.continent = v.to_string(),
                     }
                 },
                 _ => {}
@@ -193,7 +193,10 @@ impl Reader{
         let off = self.meta.languages.get(lang);
         match off {
             None => return Err(Error::new(ErrorKind::InvalidData, "invalid language")),
-            Some(_) => {
+            Some(off) => {
+                if node <= self.node_count {
+                    return Err(io::ErrorKind::NotFound.into());
+                }
                 let resolved = node - self.node_count + self.node_count * 8;
                 if resolved >= self.file_size {
                     return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
@@ -208,7 +211,10 @@ impl Reader{
                 }
                 let str = String::from_utf8_lossy(&self.data[resolved  + 2..resolved  + 2 + size ]);
                 let a = str.split("\t");
-                let r = a.map(|i| i.to_string()).collect();
+                let r: Vec<String> = a.skip(*off as usize).map(|i| i.to_string()).collect();
+                if r.len() < self.meta.fields.len() {
+                    return Err(Error::new(ErrorKind::InvalidData, "database error"));
+                }
                 Ok(r)
             }
         }
-- 
2.43.0


From a9dbc5f86d635f67d8cd630917c1dd3cd7af5daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 29/53] fix: dump of an IPv6 database with a network boundary
 in ::ffff:0:0/96 failed or was cut short

---
 db/format/awdb/dumper.go | 19 ++++++++++++++++++-
 db/format/ipdb/reader.go | 25 +++++++++++++------------
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/db/format/awdb/dumper.go b/db/format/awdb/dumper.go
index 8df88fb..b8b2042 100644
--- a/db/format/awdb/dumper.go
+++ b/db/format/awdb/dumper.go
@@ -63,7 +63,7 @@ func (t *traversal) dump(exporter inf.Exporter) (*inf.IpData, error) {
 
 func (t *traversal) find(ip net.IP) (*net.IPNet, map[string]string, error) {
 	var record interface{}
-	ipNet, ok, err := t.reader.LookupNetwork(ip, &record)
+	ipNet, ok, err := t.lookup(ip, &record)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -78,6 +78,23 @@ func (t *traversal) find(ip net.IP) (*net.IPNet, map[string]string, error) {
 	return ipNet, data, nil
 }
 
+func (t *traversal) lookup(ip net.IP, record interface{}) (*net.IPNet, bool, error) {
+	r := t.reader
+	if ip.To4() == nil || r.Metadata.IPVersion != 6 {
+		return r.LookupNetwork(ip, record)
+	}
+	// an IPv6 database holds ::ffff:0:0/96 like any other network
+	ip = ip.To16()
+	node, prefixLength := r.traverseTree(ip, 0, 128)
+	network := r.cidr(ip, prefixLength)
+	if node == r.Metadata.NodeCount {
+		return network, false, nil
+	} else if node < r.Metadata.NodeCount {
+		return network, false, newInvalidDatabaseError("invalid node in search tree")
+	}
+	return network, true, r.retrieveData(node, record)
+}
+
 func (t *traversal) versionInfo() *inf.VersionInfo {
 	return t.reader.version()
 }
diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index 8ecff8e..d343c64 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -125,7 +125,12 @@ func (db *reader) initBitsCache() {
 }
 
 func (db *reader) findMap(addr net.IP, language string) (*net.IPNet, map[string]string, error) {
-	ret, mask, err := db.find1(addr, language)
+	var ip = addr.To4()
+	if ip == nil || db.meta.IpType() == inf.IpV6 {
+		// an IPv6 database holds ::ffff:0:0/96 like any other network
+		ip = addr.To16()
+	}
+	ret, mask, err := db.find1(ip, language)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -134,12 +139,8 @@ func (db *reader) findMap(addr net.IP, language string) (*net.IPNet, map[string]
 	for i, v := range db.meta.Fields {
 		m[v] = ret[i]
 	}
-	var ip = addr.To4()
-	if ip == nil {
-		ip = addr.To16()
-	}
 	cidrMask := net.CIDRMask(mask, len(ip)*8)
-	ipNet := &net.IPNet{IP: addr.Mask(cidrMask), Mask: cidrMask}
+	ipNet := &net.IPNet{IP: ip.Mask(cidrMask), Mask: cidrMask}
 
 	return ipNet, m, nil
 }
@@ -173,12 +174,12 @@ func (db *reader) decodeInfo(body []byte, off int) ([]string, error) {
 	return ret, nil
 }
 
-func (db *reader) find1(addr net.IP, language string) ([]string, int, error) {
+func (db *reader) find1(ip net.IP, language string) ([]string, int, error) {
 	off, ok := db.meta.Languages[language]
 	if !ok {
 		return nil, 0, db2.ErrNoSupportLanguage
 	}
-	_, body, mask, err := db.find0(addr)
+	_, body, mask, err := db.find(ip)
 	if err != nil {
 		return nil, 0, err
 	}
@@ -187,23 +188,23 @@ func (db *reader) find1(addr net.IP, language string) ([]string, int, error) {
 }
 
 func (db *reader) find0(ipv net.IP) (int, []byte, int, error) {
-	var bitCount int
 	var ip net.IP
 	if ip = ipv.To4(); ip != nil {
 		if !db.HasIPv4() {
 			return 0, nil, 0, db2.ErrNoSupportIPv4
 		}
-		bitCount = 32
 	} else if ip = ipv.To16(); ip != nil {
 		if !db.HasIPv6() {
 			return 0, nil, 0, db2.ErrNoSupportIPv6
 		}
-		bitCount = 128
 	} else {
 		return 0, nil, 0, db2.ErrIPFormat
 	}
+	return db.find(ip)
+}
 
-	node, mask, err := db.search(ip, bitCount)
+func (db *reader) find(ip net.IP) (int, []byte, int, error) {
+	node, mask, err := db.search(ip, len(ip)*8)
 	if err != nil || node < 0 {
 		return 0, nil, 0, err
 	}
-- 
2.43.0


From b7924cc0ddb0faee482802fe3089bb36241970ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 30/53] fix: iterating awdb within a network returned host bits
 of that network

---
 db/format/awdb/traverse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index 889ba3d..8b384aa 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -62,7 +62,7 @@ func (r *Reader) NetworksWithin(network *net.IPNet) *Networks {
 		reader: r,
 		nodes: []netNode{
 			{
-				ip:      ip,
+				ip:      ip.Mask(net.CIDRMask(bit, len(ip)*8)),
 				bit:     uint(bit),
 				pointer: pointer,
 			},
-- 
2.43.0


From 25bedaec7768e3faab924294aca3cb08a1e90362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 31/53] fix: awdb answered for byte strings that are not IP
 addresses

---
 db/format/awdb/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 2a6fc0e..35395b9 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -7,6 +7,7 @@ import (
 	"net"
 	"reflect"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 )
 
@@ -232,6 +233,9 @@ func (r *Reader) lookupPointer(ip net.IP) (uint, int, net.IP, error) {
 	if ipV4Address != nil {
 		ip = ipV4Address
 	}
+	if len(ip) != net.IPv4len && len(ip) != net.IPv6len {
+		return 0, 0, ip, db.ErrIPFormat
+	}
 	if len(ip) == 16 && r.Metadata.IPVersion == 4 {
 		return 0, 0, ip, fmt.Errorf("error looking up '%s': you attempted to look up an IPv6 address in an IPv4-only database", ip.String())
 	}
-- 
2.43.0


From 1530d91c2bfd331326f5882aa1f9e61960bd4809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 32/53] fix: memip dump dropped the lines after one that ends
 at the highest address

---
 db/format/memip/dumper.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index ba5aaf5..39f63f2 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -132,9 +132,6 @@ func (t *traversal) Dump(_ inf.Exporter) (*inf.IpData, error) {
 			values = prevInfo
 		}
 		rows = append(rows, row{rg: cidr, view: values})
-		if ipnet.IsAllMask(cidr.End) {
-			break
-		}
 		prevInfo = values
 	}
 	var ipd = inf.IpData{
-- 
2.43.0


From a02bf66d2a03d798414da34cca9885bebaf8ed39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 33/53] fix: Rust reader answers an IPv4-mapped address text as
 the IPv4 address

---
 rust/src/query.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/src/query.rs b/rust/src/query.rs
index 8a730ed..4e628ba 100644
--- a/rust/src/query.rs
+++ b/rust/src/query.rs
@@ -33,7 +33,12 @@ impl QueryDb {
                         self.query.query(&ipv4.octets())
                     },
                     IpAddr::V6(ipv6) => {
-                        self.query.query(&ipv6.octets())
+                        let octets = ipv6.octets();
+                        // an IPv4-mapped address is the IPv4 address
+                        if octets[..10] == [0; 10] && octets[10..12] == [0xff, 0xff] {
+                            return self.query.query(&octets[12..]);
+                        }
+                        self.query.query(&octets)
                     },
                 }
             },
-- 
2.43.0


From 1e471ee1683c0791950c6df2f7c9a6718585448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 34/53] fix: Java reader reads the meta data as UTF-8 whatever
 the platform's charset

---
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 9add858..e4656d0 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -41,7 +41,7 @@ final class Reader {
             int end = Long.valueOf(metaLength).intValue() + 4;
             byte[] metaBytes = Arrays.copyOfRange(this.data, 4, end);
 
-            MetaData meta = Json.parseObject(new String(metaBytes), MetaData.class);
+            MetaData meta = Json.parseObject(new String(metaBytes, StandardCharsets.UTF_8), MetaData.class);
 
             this.nodeCount = meta.node_count;
             this.meta = meta;
-- 
2.43.0


From 3ceed83e084a98d5be7427e5960e843bf1fb2699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:25 +0000
Subject: [PATCH 35/53] fix: awdb: a skipped value that is cut off is an error

---
 db/format/awdb/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 090744f..e1e7b02 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -704,6 +704,9 @@ func (d *decoder) nextValueOffset(offset uint, numberToSkip uint) (uint, error)
 	case _Bool:
 	default:
 		offset += size
+		if offset > uint(len(d.buffer)) {
+			return 0, newOffsetError()
+		}
 	}
 	return d.nextValueOffset(offset, numberToSkip-1)
 }
-- 
2.43.0


From 7475b090b5d6d33250009b3d600a93918de9c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:25 +0000
Subject: [PATCH 36/53] fix: awdb: skipping a long list does not overflow the
 stack

---
 db/format/awdb/decoder.go | 40 +++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index e1e7b02..9b45c14 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -684,29 +684,29 @@ func (d *decoder) decodeKey(offset uint, depth int) ([]byte, uint, error) {
 // the one at the offset passed in. The size bits have different meanings for
 // different data types
 func (d *decoder) nextValueOffset(offset uint, numberToSkip uint) (uint, error) {
-	if numberToSkip == 0 {
-		return offset, nil
-	}
-	typeNum, size, offset, err := d.decodeCtrlData(offset)
-	if err != nil {
-		return 0, err
-	}
-	switch typeNum {
-	case _Pointer:
-		_, offset, err = d.decodePointer(size, offset)
+	for ; numberToSkip > 0; numberToSkip-- {
+		typeNum, size, next, err := d.decodeCtrlData(offset)
 		if err != nil {
 			return 0, err
 		}
-	case _Map:
-		numberToSkip += 2 * size
-	case _Slice:
-		numberToSkip += size
-	case _Bool:
-	default:
-		offset += size
-		if offset > uint(len(d.buffer)) {
-			return 0, newOffsetError()
+		offset = next
+		switch typeNum {
+		case _Pointer:
+			_, offset, err = d.decodePointer(size, offset)
+			if err != nil {
+				return 0, err
+			}
+		case _Map:
+			numberToSkip += 2 * size
+		case _Slice:
+			numberToSkip += size
+		case _Bool:
+		default:
+			offset += size
+			if offset > uint(len(d.buffer)) {
+				return 0, newOffsetError()
+			}
 		}
 	}
-	return d.nextValueOffset(offset, numberToSkip-1)
+	return offset, nil
 }
-- 
2.43.0


From 413b3507f2f2309595e3ac058f6e7b0d680d4b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:25 +0000
Subject: [PATCH 37/53] fix: java: a cached record is not shared with the
 caller

---
 .../java/qiniu/uip/db/format/ipdb/Reader.java     | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index e4656d0..6cd4c37 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -107,7 +107,7 @@ final class Reader {
         if (cache && this.resultCache != null) {
             IpInfo info = this.resultCache.get(node);
             if (info != null) {
-                return info;
+                return copy(info);
             }
         }
         String[] parts = resolveNode(node, "CN");
@@ -174,6 +174,19 @@ final class Reader {
         return info;
     }
 
+    private static IpInfo copy(IpInfo info) {
+        IpInfo ret = new IpInfo();
+        ret.country = info.country;
+        ret.district = info.district;
+        ret.province = info.province;
+        ret.city = info.city;
+        ret.asn = info.asn;
+        ret.isp = info.isp;
+        ret.continent = info.continent;
+        ret.line = info.line;
+        return ret;
+    }
+
     private int bytesToIndex(byte[] b) {
         int i1 = (0xFF & (int) (b[0])) << 8 >> (16 - cacheDepth);
         int i2 = (0xFF & (int) (b[1])) >> (16 - cacheDepth);
-- 
2.43.0


From aa95f3c95c594f8d20781425a15a587cd5b32550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:36 +0000
Subject: [PATCH 38/53] fix: scan: the count in the header does not decide what
 is allocated

---
 db/format/plain/dumper.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index e027385..e7b708e 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -54,7 +54,6 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 			//	ignore prefix "#### "
 			b := trimPrefix(scanner.Bytes())
 			t.Fields = strings.Split(string(b), ",")
-			t.lines = make([]string, 0, t.Version.Count+1)
 		} else {
 			t.lines = append(t.lines, scanner.Text())
 		}
@@ -120,7 +119,7 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 		ret.Fields = exporter.Fields()
 	}
 	fieldsMap = export.Select(fieldToMap(t.Fields), ret.Fields)
-	ret.Ips = make([]inf.IpRaw, 0, t.Version.Count+1)
+	ret.Ips = make([]inf.IpRaw, 0, len(t.lines))
 	var prevInfo []string
 	for _, line := range t.lines {
 		cidr, info, err := t.parseLine(line)
-- 
2.43.0


From 6c64a3a70c89c64dcc14b9405404ea93441df5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:36 +0000
Subject: [PATCH 39/53] fix: awdb: a map or list longer than its section is an
 error

---
 db/format/awdb/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 9b45c14..fa99036 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -116,6 +116,10 @@ func (d *decoder) decodeFromType(
 	depth int,
 ) (uint, error) {
 	result = d.indirect(result)
+	// every element takes at least one byte
+	if (dtype == _Map || dtype == _Slice) && size > uint(len(d.buffer))-offset {
+		return 0, newOffsetError()
+	}
 	// For these types, size has a special meaning
 	switch dtype {
 	case _Bool:
-- 
2.43.0


From 8ae7fd7929725fe7fd7a4068034cf0bed687744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:36 +0000
Subject: [PATCH 40/53] fix: awdb: metadata with an impossible record size or
 node count is refused

---
 db/format/awdb/reader.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 35395b9..2121655 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -65,6 +65,14 @@ func FromBytes(buffer []byte) (*Reader, error) {
 	}
 
 	metadataStart += detectOffset
+	switch metadata.RecordSize {
+	case 24, 28, 32:
+	default:
+		return nil, newInvalidDatabaseError("unknown record size: %d", metadata.RecordSize)
+	}
+	if metadata.NodeCount > uint(len(buffer)) {
+		return nil, newInvalidDatabaseError("the aw DB contains invalid metadata")
+	}
 	searchTreeSize := metadata.NodeCount * metadata.RecordSize / 4
 	dataSectionStart := searchTreeSize + dataSectionSeparatorSize
 	dataSectionEnd := uint(metadataStart)
@@ -84,8 +92,6 @@ func FromBytes(buffer []byte) (*Reader, error) {
 		nodeReader = nodeReader28{buffer: nodeBuffer}
 	case 32:
 		nodeReader = nodeReader32{buffer: nodeBuffer}
-	default:
-		return nil, newInvalidDatabaseError("unknown record size: %d", metadata.RecordSize)
 	}
 
 	reader := &Reader{
-- 
2.43.0


From ad8dc884213ff2e7ba9fd065dfcc387289d2ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:36 +0000
Subject: [PATCH 41/53] fix: awdb: a record that does not hold texts is an
 error

---
 db/format/awdb/dumper.go  |  7 ++-----
 db/format/awdb/fields.go  | 17 +++++++++++++++++
 db/format/awdb/querier.go |  7 ++-----
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/db/format/awdb/dumper.go b/db/format/awdb/dumper.go
index b8b2042..94b2696 100644
--- a/db/format/awdb/dumper.go
+++ b/db/format/awdb/dumper.go
@@ -71,11 +71,8 @@ func (t *traversal) find(ip net.IP) (*net.IPNet, map[string]string, error) {
 		return nil, nil, db.ErrDataNotExists
 	}
 
-	data := make(map[string]string)
-	for k, v := range record.(map[string]interface{}) {
-		data[k] = string(v.([]byte))
-	}
-	return ipNet, data, nil
+	data, err := recordFields(record)
+	return ipNet, data, err
 }
 
 func (t *traversal) lookup(ip net.IP, record interface{}) (*net.IPNet, bool, error) {
diff --git a/db/format/awdb/fields.go b/db/format/awdb/fields.go
index 7668f20..b4f534e 100644
--- a/db/format/awdb/fields.go
+++ b/db/format/awdb/fields.go
@@ -129,6 +129,23 @@ var CommonFieldsMap = map[string]string{
 	field.Line:      field.Line,
 }
 
+// recordFields returns the fields of a decoded record, all of which are text.
+func recordFields(record interface{}) (map[string]string, error) {
+	values, ok := record.(map[string]interface{})
+	if !ok {
+		return nil, newInvalidDatabaseError("a record is not a map but %T", record)
+	}
+	data := make(map[string]string, len(values))
+	for k, v := range values {
+		text, ok := v.([]byte)
+		if !ok {
+			return nil, newInvalidDatabaseError("field %s of a record is not text but %T", k, v)
+		}
+		data[k] = string(text)
+	}
+	return data, nil
+}
+
 func (m *Metadata) IpType() inf.IpType {
 	var ipType inf.IpType
 	if m.IPVersion == 4 {
diff --git a/db/format/awdb/querier.go b/db/format/awdb/querier.go
index 8ea962e..a4a7aee 100644
--- a/db/format/awdb/querier.go
+++ b/db/format/awdb/querier.go
@@ -74,11 +74,8 @@ func (q *querier) Find(ip net.IP) (*net.IPNet, map[string]string, error) {
 		return nil, nil, db.ErrDataNotExists
 	}
 
-	data := make(map[string]string)
-	for k, v := range record.(map[string]interface{}) {
-		data[k] = string(v.([]byte))
-	}
-	return ipNet, data, nil
+	data, err := recordFields(record)
+	return ipNet, data, err
 }
 
 func (q *querier) VersionInfo() *inf.VersionInfo {
-- 
2.43.0


From b3bcd958e955d5bd1f3c6a4d1838cd59ee481bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:36 +0000
Subject: [PATCH 42/53] fix: ipdb: damaged metadata or records are errors, not
 crashes

---
 db/format/ipdb/reader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index d343c64..07a3f24 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -63,6 +63,9 @@ func newReaderFromBytes(data []byte) (*reader, error) {
 	if len(data) != (4 + metaLength + meta.TotalSize) {
 		return nil, db2.ErrFileSize
 	}
+	if meta.NodeCount < 0 || meta.NodeCount > meta.TotalSize/8 {
+		return nil, db2.ErrMetaData
+	}
 
 	db := &reader{
 		fileSize:        len(data),
@@ -149,7 +152,7 @@ func (db *reader) decodeInfo(body []byte, off int) ([]string, error) {
 	str := (*string)(unsafe.Pointer(&body))
 	tmp := strings.Split(*str, "\t")
 
-	if (off + len(db.meta.Fields)) > len(tmp) {
+	if off < 0 || off > len(tmp)-len(db.meta.Fields) {
 		return nil, db2.ErrDatabaseError
 	}
 	ret := tmp[off : off+len(db.meta.Fields)]
@@ -258,7 +261,7 @@ func (db *reader) readNode(node, indexBit int) int {
 
 func (db *reader) resolve(node int) ([]byte, error) {
 	resolved := node - db.nodeCount + db.nodeCount*8
-	if resolved >= db.fileSize {
+	if resolved+2 > len(db.data) {
 		return nil, db2.ErrDatabaseError
 	}
 
-- 
2.43.0


From 23cf1c7175d2ce33f9497b4090e289f39d49c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:34 +0000
Subject: [PATCH 43/53] fix: packing a row with a wrong number of values is an
 error, not a crash or a shifted row

---
 db/format/ipdb/writer.go  | 3 +++
 db/format/memip/packer.go | 4 ++++
 db/format/plain/packer.go | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index e6d5778..a6ce975 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -112,6 +112,9 @@ func (p *Writer) Save(w io.Writer) error {
 
 // insert 插入数据
 func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
+	if len(values) != len(p.Meta.Fields) {
+		return db.ErrInvalidFieldsLength
+	}
 	mask, _ := ipNet.Mask.Size()
 	// ::/0 保存为根节点的两个分支，和其他网段互斥
 	whole := mask == 0 && ipNet.IP.To4() == nil
diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index 965b7a2..e991383 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"strings"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 	"github.com/qiniu/uip/ipnet"
 )
@@ -16,6 +17,9 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	var prev RangeFields
 	offsets := fieldOffsets(ipd.Fields)
 	for _, ip := range ipd.Ips {
+		if len(ip.FieldValues) != len(ipd.Fields) {
+			return db.ErrInvalidFieldsLength
+		}
 		values := covertValues(offsets, ip.FieldValues)
 		if prev.r == nil {
 			prev.r = ipnet.NewRange(ip.Cidr)
diff --git a/db/format/plain/packer.go b/db/format/plain/packer.go
index b19d9d1..3a355df 100644
--- a/db/format/plain/packer.go
+++ b/db/format/plain/packer.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 )
 
@@ -21,6 +22,9 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 		return err
 	}
 	for _, v := range ipd.Ips {
+		if len(v.FieldValues) != len(ipd.Fields) {
+			return db.ErrInvalidFieldsLength
+		}
 		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(replaceComma(v.FieldValues), ","))
 		if err != nil {
 			return err
-- 
2.43.0


From 19749ca8794b5d034b8306848b18b38fbb346bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:34 +0000
Subject: [PATCH 44/53] fix: scan: line breaks and tabs in a value are turned
 into underscores, as commas are

---
 db/format/plain/packer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/db/format/plain/packer.go b/db/format/plain/packer.go
index 3a355df..7a10fde 100644
--- a/db/format/plain/packer.go
+++ b/db/format/plain/packer.go
@@ -25,7 +25,7 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 		if len(v.FieldValues) != len(ipd.Fields) {
 			return db.ErrInvalidFieldsLength
 		}
-		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(replaceComma(v.FieldValues), ","))
+		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(replaceSeparators(v.FieldValues), ","))
 		if err != nil {
 			return err
 		}
@@ -33,10 +33,12 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	return nil
 }
 
-func replaceComma(values []string) []string {
+var separators = strings.NewReplacer(",", "_", "\t", "_", "\n", "_", "\r", "_")
+
+func replaceSeparators(values []string) []string {
 	ret := make([]string, len(values))
 	for i, v := range values {
-		ret[i] = strings.Replace(v, ",", "_", -1)
+		ret[i] = separators.Replace(v)
 	}
 	return ret
 }
-- 
2.43.0


From d8d896283a7883888fb6b86ffbecc6741c947991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:34 +0000
Subject: [PATCH 45/53] fix: memip: separators in a value are turned into
 underscores

---
 db/format/memip/packer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index e991383..fcbc59c 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -79,13 +79,16 @@ func fieldOffsets(fs []string) []int {
 	return ret
 }
 
+// separators are what a line and the view in it are split at
+var separators = strings.NewReplacer(" ", "_", "-", "_", "\n", "_", "\r", "_")
+
 func covertValues(fieldsOff []int, values []string) []string {
 	var newValues = make([]string, 6)
 	for i, v := range fieldsOff {
 		if v == -1 {
 			newValues[i] = "默认"
 		} else {
-			nv := values[v]
+			nv := separators.Replace(values[v])
 			if nv == "" || strings.HasPrefix(nv, "保留") {
 				nv = "默认"
 			}
-- 
2.43.0


From 1b9337a9ed779e4375910812bcd45d8ce087f369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:34 +0000
Subject: [PATCH 46/53] fix: ipdb: a value that holds the separator is refused
 instead of shifting the row

---
 db/format/ipdb/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index a6ce975..ce3bef7 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -115,6 +115,11 @@ func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 	if len(values) != len(p.Meta.Fields) {
 		return db.ErrInvalidFieldsLength
 	}
+	for _, v := range values {
+		if strings.Contains(v, FieldsSep) {
+			return db.ErrInvalidFieldsLength
+		}
+	}
 	mask, _ := ipNet.Mask.Size()
 	// ::/0 保存为根节点的两个分支，和其他网段互斥
 	whole := mask == 0 && ipNet.IP.To4() == nil
-- 
2.43.0


From b4b60f10a8c51e31cc13b9e26478c8ddce081dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 47/53] fix: rust: damaged ipdb files are refused instead of
 panicking

---
 rust/src/formats/ipdb/reader.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index 1aee267..1ec5fe7 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -28,11 +28,11 @@ impl MetaData {
             return Err(Error::new(ErrorKind::InvalidData, "meta data length < 4"));
         }
 
-        let meta_size = BigEndian::read_i32(&buf[0..4]) as usize;
-        let end = meta_size + 4;
-        if buf.len() < end {
+        let meta_size = BigEndian::read_u32(&buf[0..4]) as usize;
+        if buf.len() - 4 < meta_size {
             return Err(Error::new(ErrorKind::InvalidData, "meta data length < meta_size"));
         }
+        let end = meta_size + 4;
         let v:serde_json::Result<MetaData> = serde_json::from_slice(&buf[4..end]);
         return match v {
             Ok(mut m) => {
@@ -50,7 +50,6 @@ const CACHE_DEPTH: i32 = 12;
 
 pub struct Reader {
     pub meta: MetaData,
-    file_size: i32,
     node_count: i32,
     data: Vec<u8>,
     v4_offset: i32,
@@ -61,13 +60,18 @@ pub struct Reader {
 impl Reader{
     pub fn new(bytes: &[u8]) -> Result<Reader> {
         let m = MetaData::new(&bytes)?;
-        if m.total_size + m.meta_size as i32 +4 != bytes.len() as i32 {
+        if m.total_size as i64 + m.meta_size as i64 + 4 != bytes.len() as i64 {
             return Err(Error::new(ErrorKind::InvalidData, "invalid data length"));
         }
+        if m.fields.is_empty() || m.languages.is_empty() {
+            return Err(Error::new(ErrorKind::InvalidData, "invalid meta data"));
+        }
+        if m.node_count < 0 || m.node_count > m.total_size / 8 {
+            return Err(Error::new(ErrorKind::InvalidData, "invalid node count"));
+        }
         let data = (&bytes[m.meta_size + 4..]).to_vec();
 
         let mut reader = Reader {
-            file_size: bytes.len() as i32,
             node_count: m.node_count,
             v4_offset: 0,
             ipv4_bits_cache: Vec::with_capacity(1<<CACHE_DEPTH),
@@ -78,14 +82,14 @@ impl Reader{
         if reader.is_ipv4() {
             let mut node = 0;
             for i in 0..96 {
+                if node >= reader.node_count {
+                    break;
+                }
                 if i >= 80 {
                     node = reader.read_node(node, 1);
                 } else {
                     node = reader.read_node(node, 0);
                 }
-                if node >= reader.node_count {
-                    break;
-                }
             }
             reader.v4_offset = node;
             reader.init_cache()
@@ -97,7 +101,8 @@ impl Reader{
 
     fn read_node(&self, node: i32, index:i32) -> i32 {
         let off = node * 8 + index * 4;
-        BigEndian::read_i32(&self.data[off as usize..off as usize + 4])
+        // what does not fit an i32 lies behind the end of any file
+        BigEndian::read_u32(&self.data[off as usize..off as usize + 4]).min(i32::MAX as u32) as i32
     }
 
     fn init_cache(&mut self) {
@@ -197,13 +202,11 @@ impl Reader{
                 if node <= self.node_count {
                     return Err(io::ErrorKind::NotFound.into());
                 }
-                let resolved = node - self.node_count + self.node_count * 8;
-                if resolved >= self.file_size {
+                let resolved = (node - self.node_count) as usize + self.node_count as usize * 8;
+                if resolved + 2 > self.data.len() {
                     return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
                 }
 
-                let resolved: usize = resolved as usize;
-
                 let size = BigEndian::read_u16(&self.data[resolved ..resolved + 2]) as usize;
 
                 if self.data.len() < resolved + 2 + size {
-- 
2.43.0


From 87436439a515fd9e73b85fe6505c95daec106602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 48/53] fix: java: damaged ipdb files and records with too few
 or many values no longer crash or answer with missing fields

---
 .../java/qiniu/uip/db/format/ipdb/Reader.java | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 6cd4c37..dce90cd 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -37,6 +37,10 @@ final class Reader {
                 this.data[3]
         );
 
+        if (metaLength > this.fileSize - 4) {
+            throw new InvalidDatabaseException("database file size error");
+        }
+
         try {
             int end = Long.valueOf(metaLength).intValue() + 4;
             byte[] metaBytes = Arrays.copyOfRange(this.data, 4, end);
@@ -49,9 +53,16 @@ final class Reader {
             throw new InvalidDatabaseException(e.getMessage());
         }
 
-        if ((meta.total_size + Long.valueOf(metaLength).intValue() + 4) != this.data.length) {
+        if (meta.total_size + metaLength + 4 != this.data.length) {
             throw new InvalidDatabaseException("database file size error");
         }
+        if (meta.fields == null || meta.fields.length == 0 || Arrays.asList(meta.fields).contains(null)
+                || meta.languages == null || meta.languages.isEmpty()) {
+            throw new InvalidDatabaseException("database meta data error");
+        }
+        if (meta.node_count < 0 || meta.node_count > meta.total_size / 8) {
+            throw new InvalidDatabaseException("database meta data error");
+        }
 
         this.data = Arrays.copyOfRange(this.data, Long.valueOf(metaLength).intValue() + 4, this.fileSize);
 
@@ -246,10 +257,11 @@ final class Reader {
             return null;
         }
 
-        final int resolved = node - this.nodeCount + this.nodeCount * 8;
-        if (resolved >= this.fileSize) {
+        final long pos = node - this.nodeCount + this.nodeCount * 8L;
+        if (pos + 2 > this.data.length) {
             throw new InvalidDatabaseException("database resolve error");
         }
+        final int resolved = (int) pos;
 
         byte b = 0;
         int size = Long.valueOf(bytesToLong(
@@ -264,7 +276,11 @@ final class Reader {
         }
 
         final String data = new String(this.data, resolved + 2, size, StandardCharsets.UTF_8);
-        return Arrays.copyOfRange(data.split("\t", this.meta.fields.length * this.meta.languages.size()), off, off + this.meta.fields.length);
+        final String[] parts = data.split("\t", -1);
+        if (off < 0 || off > parts.length - this.meta.fields.length) {
+            throw new InvalidDatabaseException("database error");
+        }
+        return Arrays.copyOfRange(parts, off, off + this.meta.fields.length);
     }
 
     private int readDepth(int node, int depth, int i, byte[] binary) {
@@ -306,12 +322,13 @@ final class Reader {
     private int readNode(int node, int index) {
         int off = node * 8 + index * 4;
 
-        return Long.valueOf(bytesToLong(
+        // what does not fit an int lies behind the end of any file
+        return (int) Math.min(Integer.MAX_VALUE, bytesToLong(
                 this.data[off],
                 this.data[off + 1],
                 this.data[off + 2],
                 this.data[off + 3]
-        )).intValue();
+        ));
     }
 
     boolean isIPv4() {
-- 
2.43.0


From 36e91dac506bad7770628dfc741e85770ed8fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 49/53] fix: java: a file name without extension is refused
 with an error

---
 java/src/main/java/qiniu/uip/db/Query.java | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/Query.java b/java/src/main/java/qiniu/uip/db/Query.java
index 1dc4cf7..02c3930 100644
--- a/java/src/main/java/qiniu/uip/db/Query.java
+++ b/java/src/main/java/qiniu/uip/db/Query.java
@@ -23,7 +23,11 @@ public final class Query {
     }
 
     public static Query create(String filename) throws IOException {
-        String ext = filename.substring(filename.lastIndexOf("."));
+        int dot = filename.lastIndexOf(".");
+        if (dot < 0) {
+            throw new InvalidDatabaseException("not support format");
+        }
+        String ext = filename.substring(dot);
         byte[] data = File.readAll(filename);
         return create(data, ext);
     }
-- 
2.43.0


From 4cdd0b4c507a9c24702d131a9bc4c9ecedc8f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:36 +0000
Subject: [PATCH 50/53] fix: ipdb: continents were packed in Chinese instead of
 their codes

---
 db/format/ipdb/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index ce3bef7..eb0b6ca 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -51,7 +51,7 @@ func NewWriter(meta MetaData, languages map[string]int) *Writer {
 	}
 	contitnentOffset := -1
 	for i, field := range meta.Fields {
-		if strings.ToLower(field) == "continent" {
+		if name := strings.ToLower(field); name == "continent" || name == FieldContinentCode {
 			contitnentOffset = i
 		}
 	}
-- 
2.43.0


From d106b92b1584d9c3018e8760617787abbd62fb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:36 +0000
Subject: [PATCH 51/53] fix: rust: a file with an empty version is named like
 in the other readers

---
 rust/src/formats/ipdb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/formats/ipdb.rs b/rust/src/formats/ipdb.rs
index 3ac2322..82c8007 100644
--- a/rust/src/formats/ipdb.rs
+++ b/rust/src/formats/ipdb.rs
@@ -40,8 +40,8 @@ impl Query for Ipdb {
             count: self.reader.meta.node_count,
             build: self.reader.meta.build,
             version: match &self.reader.meta.version {
-                None => format!("ipip.net-{}", self.reader.meta.build),
-                Some(s) => s.to_string(),
+                Some(s) if !s.is_empty() => s.to_string(),
+                _ => format!("ipip.net-{}", self.reader.meta.build),
             },
             languages: vec!["CN".into()],
             extra_info: self.reader.meta.extra.clone(),
-- 
2.43.0


From 0f572101b50ba9146ff59f59cfd4f384c9c40cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:37 +0000
Subject: [PATCH 52/53] fix: callers may change the version information they
 got

The slices in it were those of the open database, so a change showed up
in every later answer, and raced with it.
---
 db/format/awdb/reader.go | 2 +-
 db/format/ipdb/reader.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 2121655..4282830 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -306,7 +306,7 @@ func (r *Reader) version() *inf.VersionInfo {
 		Count:     uint32(r.Metadata.NodeCount),
 		Build:     int64(r.Metadata.BuildEpoch),
 		Version:   "ipplus360" + r.Metadata.DatabaseType,
-		Languages: r.Metadata.Languages,
+		Languages: append(r.Metadata.Languages[:0:0], r.Metadata.Languages...),
 		ExtraInfo: nil,
 	}
 }
diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index 07a3f24..05ee41e 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -307,6 +307,6 @@ func (db *reader) version() *inf.VersionInfo {
 		Build:     db.meta.Build,
 		Version:   version,
 		Languages: db.Languages(),
-		ExtraInfo: db.meta.Extra,
+		ExtraInfo: append(db.meta.Extra[:0:0], db.meta.Extra...),
 	}
 }
-- 
2.43.0


From a94e208b4d152d4da713f8b81c4711a5b1bf0190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:37 +0000
Subject: [PATCH 53/53] fix: java: callers may change the version information
 they got

The array of extra information was that of the open database.
---
 java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java
index dcf8b47..bb868d9 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java
@@ -40,7 +40,7 @@ public final class Ipdb implements Query {
         versionInfo.build = reader.meta.build;
         versionInfo.version = version;
         versionInfo.languages = new String[]{"CN"};
-        versionInfo.extraInfo = reader.meta.extra;
+        versionInfo.extraInfo = reader.meta.extra == null ? null : reader.meta.extra.clone();
         return versionInfo;
     }
 
-- 
2.43.0

