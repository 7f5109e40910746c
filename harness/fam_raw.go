package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"net"
	"runtime/metrics"
	"strings"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/format/awdb"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

func init() {
	families["raw"] = famRaw
	families["flip"] = famFlip
	families["rawgen"] = famRawGen
}

// RawFile is a database given as a search tree of any shape.
type RawFile struct {
	Kind, Fam string
	Bits      int
	Tree      [][2]uint64
	Fields    []string
	Recs      []rawRec
	Data      []byte
	Langs     M // ipdb: where the values of a language begin
}

type rawRec struct {
	off int
	ok  bool
	rec interface{} // what is stored there: values (ipdb) or fields (awdb)
}

func (f *RawFile) step() M {
	tree, recs := A{}, A{}
	small := func(v uint64) uint64 {
		if v > 2140000000 {
			return 2140000000
		}
		return v
	}
	for _, n := range f.Tree {
		tree = append(tree, A{small(n[0]), small(n[1])})
	}
	for _, r := range f.Recs {
		ok := 0
		var rec interface{} = A{}
		if r.ok {
			ok, rec = 1, r.rec
		}
		recs = append(recs, A{r.off, ok, rec})
	}
	return M{"op": "rawfile", "kind": f.Kind, "fam": f.Fam, "n": len(f.Tree), "tree": tree, "recs": recs, "size": len(f.Data), "fields": strs(f.Fields)}
}

func (f *RawFile) image(r *rand.Rand) []byte {
	var out []byte
	if f.Kind == "ipdb" {
		nodes := make([]byte, 8*len(f.Tree))
		for i, n := range f.Tree {
			binary.BigEndian.PutUint32(nodes[8*i:], uint32(n[0]))
			binary.BigEndian.PutUint32(nodes[8*i+4:], uint32(n[1]))
		}
		var fields []string
		for _, x := range f.Fields {
			fields = append(fields, fileField(x))
		}
		return ipdbBytes(M{"build": 1600000000, "ip_version": map[string]int{"4": 1, "6": 2, "46": 3}[f.Fam], "node_count": len(f.Tree),
			"total_size": len(nodes) + len(f.Data), "fields": fields, "languages": f.Langs}, append(nodes, f.Data...))
	}
	out = make([]byte, len(f.Tree)*f.Bits/4+16)
	for i, n := range f.Tree {
		putNode(out[i*f.Bits/4:], f.Bits, n[0], n[1])
	}
	out = append(out, f.Data...)
	out = append(out, "\xAB\xCD\xEFipplus360.com"...)
	return append(out, awMeta(r, len(f.Tree), f.Bits, f.Fam, "raw", 1600000000, []string{"cn"})...)
}

func ipdbBytes(meta M, body []byte) []byte {
	m, err := json.Marshal(meta)
	if err != nil {
		panic(err)
	}
	out := make([]byte, 4)
	binary.BigEndian.PutUint32(out, uint32(len(m)))
	return append(append(out, m...), body...)
}

// badValue is a record no reader can show: not a map of text, or damaged.
func badValue(r *rand.Rand, d *DataSec) []byte {
	switch r.Intn(12) {
	case 0:
		return d.enc(strVal("just text"))
	case 1:
		return d.enc(&Val{T: "arr", L: []*Val{strVal("a"), strVal("b")}})
	case 2:
		return d.enc(uintVal("u32", 7))
	case 3:
		return d.enc(&Val{T: "map", K: []string{"country", "city"}, L: []*Val{strVal("x"), uintVal("u16", 9)}})
	case 4:
		return d.enc(&Val{T: "map", K: []string{"country", "city"}, L: []*Val{strVal("x"), {T: "bool", B: []byte{1}}}})
	case 5:
		return d.enc(&Val{T: "map", K: []string{"city"}, L: []*Val{{T: "map", K: []string{"en"}, L: []*Val{strVal("x")}}}})
	case 6: // a key that is a number
		return append(append(ctrl("map", 1), d.enc(uintVal("u16", 300))...), d.enc(strVal("x"))...)
	case 7: // a pointer that points at itself, or far away
		off := len(d.regions[0].b)
		if r.Intn(2) == 0 {
			off = 1 << uint(20+r.Intn(12))
		}
		return []byte{1<<5 | 3<<3, byte(off >> 24), byte(off >> 16), byte(off >> 8), byte(off)}
	case 8: // a map that holds itself
		off := len(d.regions[0].b)
		return append(append(ctrl("map", 1), d.enc(strVal("country"))...), 1<<5|3<<3, byte(off>>24), byte(off>>16), byte(off>>8), byte(off))
	case 9: // sizes beyond the end
		return ctrl(pick(r, []string{"map", "arr", "str", "bytes"}), 65821+r.Intn(1<<24))
	case 10:
		return d.enc(&Val{T: "map", K: []string{"country"}, L: []*Val{{T: pick(r, []string{"f64", "f32", "i32", "u128", "u64"}), B: make([]byte, []int{8, 4}[r.Intn(2)])}}})
	}
	return []byte{byte(r.Intn(8)), byte(r.Intn(256)), byte(r.Intn(256))}[:2]
}

// rawRecords makes a file without a tree.
func rawRecords(r *rand.Rand, kind, fam string) *RawFile {
	f := &RawFile{Kind: kind, Fam: fam, Bits: []int{24, 28, 32}[r.Intn(3)], Fields: randFields(r)}
	// records
	nrec := 1 + r.Intn(4)
	if kind == "ipdb" {
		f.Data = make([]byte, 1+r.Intn(10))
		f.Langs = M{"CN": 0}
		front, none := "", false
		switch r.Intn(8) {
		case 0, 1: // the values of another language come first
			f.Langs = M{"EN": 0, "CN": len(f.Fields)}
			front = strings.Repeat("en\t", len(f.Fields))
		case 2: // a language nobody asks for
			f.Langs, none = M{"EN": 0}, true
		}
		for _, v := range randRecs(r, f.Fields, nrec) {
			ok := true
			if r.Intn(5) == 0 {
				ok = len(v) == 1
				v = v[:len(v)-1]
				if len(v) == 0 {
					v, ok = []string{""}, true
				}
			}
			t := strings.Join(v, "\t")
			if ok && r.Intn(6) == 0 {
				t += "\tmore\tvalues"
			}
			t = front + t
			ok = ok && !none
			f.Recs = append(f.Recs, rawRec{len(f.Data), ok, strs(v)})
			f.Data = append(append(f.Data, byte(len(t)>>8), byte(len(t))), t...)
			if ok && len(v) < len(f.Fields) {
				f.Recs[len(f.Recs)-1].ok = false
			}
		}
		if r.Intn(3) == 0 { // one that goes on behind the end
			f.Recs = append(f.Recs, rawRec{len(f.Data), false, nil})
			f.Data = append(f.Data, byte(r.Intn(256)), byte(1+r.Intn(255)))
		}
	} else {
		d := newDataSec(r, []float64{0, 0.4}[r.Intn(2)], 0)
		for _, rec := range randAwRecs(r, nrec) {
			v := &Val{T: "map"}
			for _, k := range sortedKeys(rec) {
				v.K = append(v.K, k)
				v.L = append(v.L, strVal(rec[k]))
			}
			f.Recs = append(f.Recs, rawRec{d.put(d.enc(v)), true, rec})
		}
		for k := r.Intn(3); k > 0; k-- {
			b := badValue(r, d)
			if len(b) == 2 && b[0] < 8 {
				continue // nobody knows what that is
			}
			// values it refers to may lie in front of it: only self references know their place
			at := d.put(b)
			f.Recs = append(f.Recs, rawRec{at, false, nil})
		}
		f.Data = d.regions[0].b
		if r.Intn(3) == 0 { // a map that ends too early
			f.Recs = append(f.Recs, rawRec{len(f.Data), false, nil})
			f.Data = append(f.Data, ctrl("map", 2)...)
			f.Data = append(f.Data, append(d.enc(strVal("city")), ctrl("str", 3+r.Intn(20))...)...)
		}
	}
	return f
}

// v4path is where the IPv4 part of a file begins.
func (f *RawFile) v4path() string {
	if f.Kind == "ipdb" {
		return mappedPrefix
	}
	if f.Fam == "6" {
		return zeros(96)
	}
	return ""
}

func (f *RawFile) leaf(r *rand.Rand, total int) uint64 {
	x := f.Recs[r.Intn(len(f.Recs))]
	v := uint64(total + x.off)
	if f.Kind == "awdb" {
		v += 16
	}
	return v
}

func randRaw(r *rand.Rand, kind, fam string) *RawFile {
	f := rawRecords(r, kind, fam)
	// the tree
	n := r.Intn(7)
	if r.Intn(4) == 0 {
		n = 7 + r.Intn(30)
	}
	chain := 0
	if r.Intn(4) == 0 {
		f.calm(r)
		return f
	}
	bits := f.v4path()
	if kind == "ipdb" && fam == "6" && r.Intn(2) == 0 {
		bits = ""
	}
	if bits != "" && r.Intn(4) > 0 {
		chain = 96 - r.Intn(3)*r.Intn(2)*r.Intn(96)
	}
	total := chain + n
	gap := uint64(0)
	if kind == "awdb" {
		gap = 16
	}
	leaf := func() uint64 { return f.leaf(r, total) }
	bogus := func() uint64 {
		t, size := uint64(total), uint64(len(f.Data))
		max := uint64(math.MaxUint32)
		if kind == "awdb" {
			max = 1<<uint(f.Bits) - 1
		}
		v := []uint64{t + 1 + uint64(r.Intn(16)), t + gap + size, t + gap + size - 1, t + gap + size - 2, t + gap + size + 1 + uint64(r.Intn(1<<20)),
			max, max - uint64(r.Intn(1<<16)), max / 2, max/2 + 1, max / 8, max/8 + 1, t + gap + uint64(r.Intn(len(f.Data)+1))}[r.Intn(12)]
		if v > max || v <= t {
			v = t
		}
		return v
	}
	wild := []float64{0.02, 0.1}[r.Intn(2)]
	back := []float64{0, 0.1, 0.4}[r.Intn(3)]
	depth := []float64{0.3, 0.6}[r.Intn(2)]
	for i := 0; i < total; i++ {
		var e [2]uint64
		for k := range e {
			x := r.Float64()
			switch {
			case x < wild:
				e[k] = bogus()
			case x < wild+depth && r.Float64() < back:
				e[k] = uint64(r.Intn(total))
			case x < wild+depth && i+1 < total && i >= chain:
				e[k] = uint64(i + 1 + r.Intn(total-i-1))
			case x < wild+depth+0.1:
				e[k] = uint64(total)
			default:
				e[k] = leaf()
			}
			if i < chain && int(bits[i]-'0') == k && r.Intn(300) > 0 {
				e[k] = uint64(i + 1)
				if i+1 == total {
					e[k] = leaf()
				}
			}
		}
		f.Tree = append(f.Tree, e)
	}
	return f
}

// calm is a tree that holds a record for every address, but for one network.
func (f *RawFile) calm(r *rand.Rand) {
	var ok, bad []rawRec
	for _, x := range f.Recs {
		if x.ok {
			ok = append(ok, x)
		} else {
			bad = append(bad, x)
		}
	}
	if len(ok) == 0 {
		ok = bad
	}
	path := ""
	if f.Kind == "ipdb" && f.Fam == "4" || r.Intn(2) == 0 {
		path = f.v4path()
	}
	n := 1 + r.Intn(6)
	total := len(path) + n
	value := func(x rawRec) uint64 {
		if f.Kind == "awdb" {
			return uint64(total + 16 + x.off)
		}
		return uint64(total + x.off)
	}
	for i := 0; i < total; i++ {
		e := [2]uint64{value(ok[r.Intn(len(ok))]), value(ok[r.Intn(len(ok))])}
		if i < len(path) {
			e[path[i]-'0'] = uint64(i + 1)
		} else if k := i + 1; k < total {
			e[r.Intn(2)] = uint64(k)
		}
		f.Tree = append(f.Tree, e)
	}
	if r.Intn(4) > 0 {
		i := len(path) + r.Intn(n)
		k := r.Intn(2)
		if f.Tree[i][k] < uint64(total) {
			k = 1 - k
		}
		f.Tree[i][k] = uint64(total)
		if len(bad) > 0 && r.Intn(3) > 0 {
			f.Tree[i][k] = value(bad[r.Intn(len(bad))])
		}
	}
}

// probes follow the edges of the tree down from the root, or from the IPv4 part.
func (f *RawFile) probes(r *rand.Rand, k int) (all, own []string) {
	w := width(f.Fam)
	walk := func(node uint64, w int) string {
		a := ""
		for len(a) < w && node < uint64(len(f.Tree)) {
			b := r.Intn(2)
			if r.Intn(3) > 0 && f.Tree[node][b] >= uint64(len(f.Tree)) {
				b = 1 - b
			}
			a += string(rune('0' + b))
			node = f.Tree[node][b]
		}
		return fix(a, r, w)
	}
	at := func(bits string) uint64 {
		node := uint64(0)
		for i := 0; i < len(bits) && node < uint64(len(f.Tree)); i++ {
			node = f.Tree[node][bits[i]-'0']
		}
		return node
	}
	v4 := at(f.v4path())
	for i := 0; i < k; i++ {
		a := walk(v4, 32)
		b := walk(0, 128)
		all = append(all, a)
		if i%2 == 0 || f.Fam != "4" {
			all = append(all, b)
		}
		if w == 32 {
			own = append(own, a)
		} else {
			own = append(own, b)
		}
	}
	all = append(all, randAddr(r, 32), fix(randAddr(r, 128), r, 128), zeros(w), ones(w))
	return
}

func famRaw(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("raw", func(s *Scen) {
			kind := []string{"ipdb", "awdb"}[i%2]
			fam := fams[(i/2)%3]
			if kind == "awdb" && fam == "46" {
				fam = "6"
			}
			f := randRaw(s.r, kind, fam)
			s.rawUse(f)
		})
	}
}

// famRawGen puts the trees TLC made from RawAlg somewhere into a file.
func famRawGen(c *Ctx) {
	for i, m := range c.scen {
		i, m := i, m
		c.Scenario("rawgen", func(s *Scen) {
			s.rawUse(s.rawFrom(m, []string{"ipdb", "awdb"}[(i+int(c.seed))%2]))
		})
	}
}

// rawFrom puts a tree TLC made somewhere into a file.
func (s *Scen) rawFrom(m M, kind string) *RawFile {
	fam := fams[s.r.Intn(3)]
	if kind == "awdb" && fam == "46" {
		fam = "6"
	}
	f := rawRecords(s.r, kind, fam)
	path := f.v4path()
	switch s.r.Intn(5) {
	case 0:
		path = randBits(s.r, s.r.Intn(40))
	case 1:
		path = path[:len(path)-s.r.Intn(len(path)+1)]
	case 2:
		path += randBits(s.r, s.r.Intn(33))
	}
	tree := m["tree"].([]interface{})
	total := len(path) + len(tree)
	for k := range path {
		e := [2]uint64{f.leaf(s.r, total), f.leaf(s.r, total)}
		if s.r.Intn(4) == 0 {
			e[s.r.Intn(2)] = uint64(total)
		}
		e[path[k]-'0'] = uint64(k + 1)
		f.Tree = append(f.Tree, e)
	}
	for _, n := range tree {
		var e [2]uint64
		for k, v := range n.([]interface{}) {
			x := int(v.(float64))
			e[k] = uint64(len(path) + x)
			if x == len(tree) {
				e[k] = uint64(total)
			} else if x > len(tree) {
				e[k] = f.leaf(s.r, total)
			}
		}
		f.Tree = append(f.Tree, e)
	}
	return f
}

// rawUse opens a raw file, asks it, iterates over it and dumps it.
func (s *Scen) rawUse(f *RawFile) {
	kind, fam := f.Kind, f.Fam
	b := f.image(s.r)
	st := f.step()
	st["h"] = "f"
	s.steps = append(s.steps, st)
	var q *query.Db
	s.Do(M{"op": "rawopen", "h": "f", "d": "d"}, func() M {
		db, err := query.NewDbFromBytes("."+kind, b)
		if err == nil {
			q = db
		}
		return outOf(err)
	})
	all, own := f.probes(s.r, 16)
	if q != nil {
		s.Do(M{"op": "rawq", "d": "d"}, func() M {
			res := A{}
			for _, a := range all {
				res = append(res, q1(q, a, s.form(a)))
			}
			return M{"out": "ok", "q": append(res, s.junk(q, all...)...)}
		})
	}
	if kind == "awdb" {
		s.Do(M{"op": "rawiter", "h": "f"}, func() M { return rawIter(b, fam, own) })
	}
	if fam != "46" && len(f.Tree) <= 120 {
		s.Do(M{"op": "rawdump", "h": "f"}, func() M {
			d, err := format.GetDumpFormat("."+kind)(b, nil)
			if err != nil {
				return outOf(err)
			}
			return M{"out": "ok", "res": projTable(d, fam)}
		})
	}
}

func rawIter(b []byte, fam string, own []string) M {
	rd, err := awdb.FromBytes(b)
	if err != nil {
		return outOf(err)
	}
	rows, recs := A{}, A{}
	m := M{"out": "ok", "probe": strs(own)}
	it := rd.Networks()
	for it.Next() {
		var rec map[string]interface{}
		n, err := it.Network(&rec)
		if err != nil {
			m["out"] = "err"
			break
		}
		text := true
		for _, v := range rec {
			switch v.(type) {
			case []byte, string:
			default:
				text = false
			}
		}
		if !text { // a query refuses it
			m["out"] = "err"
			break
		}
		recs = append(recs, awRec(map[string]interface{}(rec)))
		rows = append(rows, A{projNet(n, fam), len(recs)})
		if len(rows) >= 150 {
			m["out"] = "err" // enough seen
			break
		}
	}
	if it.Err() != nil {
		m["out"] = "err"
	}
	m["rows"], m["recs"] = rows, recs
	return m
}

// -- damage ----------------------------------------------------------------------------------

type flip struct {
	what string
	b    []byte
}

// flips runs every variant through all readers of its kind.
func (s *Scen) flips(kind, what string, vs []flip) {
	for len(vs) > 0 {
		part := vs[:minI(200, len(vs))]
		vs = vs[len(part):]
		step := M{"op": "flip", "kind": kind, "what": what, "n": len(part)}
		s.Do(step, func() M {
			bad := A{}
			mem, most := 0, ""
			for _, v := range part {
				if s.c.only >= 0 || s.c.tier == "trace" {
					fmt.Printf("%s %s\n", kind, v.what)
				}
				out, why := safely(func() error {
					if k := s.through(kind, v.b); k > mem {
						mem, most = k, v.what
					}
					return nil
				})
				if out != "ok" && len(bad) < 20 {
					bad = append(bad, A{v.what, out + " " + why})
				}
			}
			return M{"out": "ok", "bad": bad, "mem": mem, "most": most}
		})
	}
}

var flipAddrs = []string{"8.8.8.8", "0.0.0.0", "255.255.255.255", "::", "::1", "1.2.3.4", "2001:db8::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "128.0.0.0", "::ffff:9.9.9.9", "64:ff9b::1", "8000::"}

var allocs = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocs)
	return allocs[0].Value.Uint64()
}

// through uses a file in all the ways there are; errors are fine. It returns
// the most memory one call took (MB).
func (s *Scen) through(kind string, b []byte) int {
	given := append([]byte(nil), b...)
	most := uint64(0)
	call := func(f func()) {
		m := allocated()
		f()
		if m = allocated() - m; m > most {
			most = m
		}
	}
	var db *query.Db
	call(func() { db, _ = query.NewDbFromBytes(kind, given) })
	if db != nil {
		for _, a := range flipAddrs {
			call(func() { db.QueryStr(a) })
		}
		db.QueryU32(s.r.Uint32())
		ip := make(net.IP, 16)
		s.r.Read(ip)
		db.Query(ip)
		if v := db.VersionInfo(); v != nil {
			v.HasIpV4()
			_ = fmt.Sprint(v)
		}
		db.CheckV4()
		db.CheckV6()
	}
	if dump := format.GetDumpFormat(kind); dump != nil {
		var e inf.Exporter
		if s.r.Intn(3) == 0 {
			e = export.ParseRule(export.DefaultRule)
		}
		var d *inf.IpData
		call(func() { d, _ = dump(append([]byte(nil), b...), e) })
		if d != nil {
			for _, row := range d.Ips {
				if kind != ".memip" && len(row.FieldValues) != len(d.Fields) {
					panic(fmt.Sprint("a row of ", len(row.FieldValues), " values in a table of ", len(d.Fields)))
				}
				if row.Cidr == nil {
					panic("a row without network")
				}
			}
		}
	}
	if kind == ".awdb" {
		if rd, err := awdb.FromBytes(given); err == nil {
			for _, w := range []string{"", "0.0.0.0/0", "8.0.0.0/8", "2001:db8::/32", "1.2.3.4/32"} {
				it := rd.Networks()
				if w != "" {
					_, n, _ := net.ParseCIDR(w)
					it = rd.NetworksWithin(n)
				}
				for k := 0; it.Next() && k < 400; k++ {
					var v interface{}
					call(func() { it.Network(&v) })
				}
				it.Err()
			}
			for k := 0; k < 8; k++ {
				var v interface{}
				if off, err := rd.LookupOffset(net.ParseIP(flipAddrs[k])); err == nil {
					rd.Decode(off, &v)
				}
				call(func() { rd.Decode(uintptr(s.r.Intn(len(b)+4)), &v) })
			}
		}
	}
	return int(most >> 20)
}

// bytesFlipped damages single bytes, at most all of them.
func (s *Scen) bytesFlipped(b []byte, all int) []flip {
	var ret []flip
	at := s.r.Perm(len(b))
	if len(at) > all {
		at = at[:all]
	}
	for _, i := range at {
		for k, v := range []byte{0, 255, b[i] ^ 1, b[i] ^ 0x80, b[i] + 1, b[i] ^ 0x20, byte(s.r.Intn(256))} {
			if v == b[i] {
				continue
			}
			x := append([]byte(nil), b...)
			x[i] = v
			if k == 6 && s.r.Intn(2) == 0 { // and another one
				j := s.r.Intn(len(b))
				x[j] = byte(s.r.Intn(256))
			}
			ret = append(ret, flip{fmt.Sprintf("byte %d of %d: %#02x for %#02x", i, len(b), v, b[i]), x})
		}
	}
	// runs
	for k := 0; k < 20; k++ {
		x := append([]byte(nil), b...)
		i := s.r.Intn(len(b))
		n := 1 + s.r.Intn(minI(16, len(b)-i))
		s.r.Read(x[i : i+n])
		ret = append(ret, flip{fmt.Sprintf("%d bytes from %d", n, i), x})
		j := s.r.Intn(len(b))
		y := append(append([]byte(nil), b[:minI(i, j)]...), b[maxI(i, j):]...)
		ret = append(ret, flip{fmt.Sprintf("without %d..%d", minI(i, j), maxI(i, j)), y})
		z := append(append(append([]byte(nil), b[:i]...), b[j:minI(len(b), j+40)]...), b[i:]...)
		ret = append(ret, flip{fmt.Sprintf("%d..%d again at %d", j, minI(len(b), j+40), i), z})
	}
	return ret
}

var oddNumbers = []interface{}{-1, 0, 1, 2, 3, 4, 5, 7, 8, 14, 96, 255, 256, 65535, 65536, 1 << 24, 1 << 28, 1<<28 + 1, 1 << 29, 1<<31 - 1, 1 << 31, -1 << 31, 1 << 32, 1<<32 + 1, 1 << 40, 1 << 60, 1 << 61, 1<<61 + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 3, 0.5, 1e30, "1", true, nil, A{}, M{}}

func (s *Scen) ipdbMeta(b []byte) []flip {
	m := int(binary.BigEndian.Uint32(b))
	var meta M
	if json.Unmarshal(b[4:4+m], &meta) != nil {
		return nil
	}
	body := b[4+m:]
	var ret []flip
	with := func(what string, change func(M)) {
		c := M{}
		for k, v := range meta {
			c[k] = v
		}
		change(c)
		ret = append(ret, flip{what, ipdbBytes(c, body)})
	}
	count := int(meta["node_count"].(float64))
	nums := append([]interface{}{count - 1, count + 1, len(body) / 8, len(body)/8 + 1, len(body) / 4, len(body), len(body) + 1, -count}, oddNumbers...)
	for _, k := range []string{"build", "ip_version", "node_count", "total_size", "fields", "languages", "version", "extra"} {
		with("without "+k, func(m M) { delete(m, k) })
		for _, v := range nums {
			with(fmt.Sprint(k, " is ", v), func(m M) { m[k] = v })
		}
	}
	for _, v := range nums {
		with(fmt.Sprint("language CN is ", v), func(m M) { m["languages"] = M{"CN": v} })
		with(fmt.Sprint("language EN is ", v), func(m M) { m["languages"] = M{"CN": 0, "EN": v} })
	}
	with("another language", func(m M) { m["languages"] = M{"EN": 0} })
	with("language without name", func(m M) { m["languages"] = M{"": 0} })
	fields := meta["fields"].([]interface{})
	with("fields twice", func(m M) { m["fields"] = append(append(A{}, fields...), fields...) })
	with("one field more", func(m M) { m["fields"] = append(append(A{}, fields...), "continent_code") })
	with("one field less", func(m M) { m["fields"] = fields[1:] })
	with("no name", func(m M) { m["fields"] = A{""} })
	with("many fields", func(m M) {
		a := A{}
		for i := 0; i < 5000; i++ {
			a = append(a, "continent_code")
		}
		m["fields"] = a
	})
	for _, t := range []string{"{}", "[]", "null", "1", "\"x\"", "{\"node_count\":", strings.Repeat("[", 20000), strings.Repeat("{\"a\":", 20000), "{\"ip_version\":1e400}", ""} {
		out := make([]byte, 4)
		binary.BigEndian.PutUint32(out, uint32(len(t)))
		ret = append(ret, flip{"metadata " + t[:minI(20, len(t))], append(append(out, t...), body...)})
	}
	for _, v := range []uint32{0, 1, uint32(m - 1), uint32(m + 1), uint32(len(b)), uint32(len(b) - 4), uint32(len(b) - 3), 1 << 31, math.MaxUint32, math.MaxUint32 - 3} {
		x := append([]byte(nil), b...)
		binary.BigEndian.PutUint32(x, v)
		ret = append(ret, flip{fmt.Sprint("metadata length ", v), x})
	}
	return ret
}

func (s *Scen) awdbMeta(f *RawFile) []flip {
	b := f.image(s.r)
	i := strings.LastIndex(string(b), "\xAB\xCD\xEFipplus360.com")
	head := b[:i+16]
	v := uint64(4)
	if f.Fam == "6" {
		v = 6
	}
	n := uint64(len(f.Tree))
	base := []string{"binary_format_major_version", "binary_format_minor_version", "build_epoch", "database_type", "description", "ip_version", "languages", "node_count", "record_size"}
	val := func(k string) *Val {
		switch k {
		case "build_epoch":
			return uintVal("u64", 1600000000)
		case "database_type":
			return strVal("raw")
		case "description":
			return &Val{T: "map", K: []string{"cn"}, L: []*Val{strVal("描述")}}
		case "ip_version":
			return uintVal("u16", v)
		case "languages":
			return &Val{T: "arr", L: []*Val{strVal("cn")}}
		case "node_count":
			return uintVal("u32", n)
		case "record_size":
			return uintVal("u16", uint64(f.Bits))
		}
		return uintVal("u16", 2)
	}
	d := newDataSec(s.r, 0, 0)
	build := func(change string, with []byte, drop bool) []byte {
		var out []byte
		k := len(base)
		if drop {
			k--
		}
		out = ctrl("map", k)
		for _, m := range base {
			if m == change && drop {
				continue
			}
			out = append(out, d.enc(strVal(m))...)
			if m == change {
				out = append(out, with...)
			} else {
				out = append(out, d.enc(val(m))...)
			}
		}
		return append(append([]byte(nil), head...), out...)
	}
	var ret []flip
	size := uint64(len(b))
	bits := uint64(f.Bits)
	nums := []uint64{0, 1, 2, 3, 4, 5, 6, 8, 16, 23, 24, 25, 28, 31, 32, 33, 64, n - 1, n + 1, size, size / 6, size / 7, size / 8, size * 4 / bits, size*4/bits + 1, 1 << 16, 1 << 24, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 59, 1 << 60, 1 << 61, 1 << 62, 1 << 63, 1<<64 - 1, 1<<64 - 16, (1<<64 - 1) / 24, (1<<64-1)/24 + 1, (1<<64-1)/28 + 1, (1<<64 - 1) / 32, 1 << 58, 1<<58 + 1}
	for _, k := range base {
		ret = append(ret, flip{"without " + k, build(k, nil, true)})
		for _, x := range nums {
			for _, t := range []string{"u64", "u32", "u16", "u128"} {
				e := uintVal(t, x)
				if t == "u16" && len(e.B) > 2 || t == "u32" && len(e.B) > 4 || t == "u64" && s.r.Intn(2) == 0 && len(e.B) < 4 || t == "u128" && s.r.Intn(4) > 0 {
					continue
				}
				ret = append(ret, flip{fmt.Sprint(k, " is ", t, " ", x), build(k, d.enc(e), false)})
			}
		}
		for _, e := range []*Val{{T: "i32", B: []byte{255, 255, 255, 255}}, {T: "i32", B: []byte{0, 0, 0, 24}}, {T: "f64", B: []byte{64, 56, 0, 0, 0, 0, 0, 0}}, {T: "f64", B: []byte{255, 255, 255, 255, 255, 255, 255, 255}}, {T: "f32", B: []byte{127, 255, 0, 1}},
			{T: "bool", B: []byte{1}}, strVal("24"), strVal(""), {T: "bytes", B: []byte{24}}, {T: "arr"}, {T: "map"}, {T: "arr", L: []*Val{uintVal("u16", 24)}}, {T: "map", K: []string{"a"}, L: []*Val{strVal("x")}}, {T: "u128", B: []byte{1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 24}}} {
			ret = append(ret, flip{k + " is a " + e.T, build(k, d.enc(e), false)})
		}
		for _, t := range []string{"map", "arr", "str", "bytes", "u16", "u32", "u64", "u128", "i32", "f64", "f32", "bool"} {
			for _, z := range []int{3, 17, 29, 300, 65821, 1 << 20, 1<<24 + 65820} {
				ret = append(ret, flip{fmt.Sprint(k, " is a ", t, " of size ", z), build(k, ctrl(t, z), false)})
			}
		}
		for _, p := range [][]byte{{1 << 5, 0}, {1 << 5, 5}, {1<<5 | 3<<3, 255, 255, 255, 255}, {1<<5 | 3<<3, 0, 0, 8, 0}, {0, 0}, {0, 5}, {0, 6}, {0, 9}, {0, 255}, {31, 255}, {}, {1 << 5}} {
			ret = append(ret, flip{fmt.Sprintf("%s is % x", k, p), build(k, p, false)})
		}
	}
	for _, m := range [][]byte{nil, {7 << 5}, {0}, {1 << 5, 0}, {7<<5 | 31, 255, 255, 255}, {0, 4}, {31, 4, 255, 255, 255}, d.enc(strVal("x")), bomb("arr", 600, 65821), bomb("map", 600, 65821), bomb("arr", 400, 300), bomb("arr", 300, 30)} {
		ret = append(ret, flip{fmt.Sprintf("metadata % x", m[:minI(8, len(m))]), append(append([]byte(nil), head...), m...)})
	}
	return ret
}

// bomb nests values that all claim to be large.
func bomb(t string, depth, size int) []byte {
	var out []byte
	for i := 0; i < depth; i++ {
		out = append(out, ctrl(t, size)...)
		if t == "map" {
			out = append(out, 2<<5|1, 'a')
		}
	}
	return out
}

// text formats
func (s *Scen) textDamage(b []byte) []flip {
	ls := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	var ret []flip
	add := func(what string, l []string) { ret = append(ret, flip{what, []byte(strings.Join(l, "\n") + "\n")}) }
	words := []string{"", " ", "####", "#", "#### ", "x", "-1", "0", "99999999999999999999", "4294967295", "4294967296", "1.2.3.4", "1.2.3.4/33", "1.2.3.4/-1", "/", "::/0", "::1/129", "0.0.0.0/0", "ff::ff::ff/8", "255.255.255.255", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "::", "::ffff:0.0.0.0", ",", ",,,,,,,,,,", "\t", "\r", "\x00", "\xff\xfe", "é", strings.Repeat("y", 70000), "\"", "{}", "[]", "null"}
	for i := range ls {
		if i > 6 && s.r.Intn(3) > 0 {
			continue
		}
		without := append(append([]string(nil), ls[:i]...), ls[i+1:]...)
		add(fmt.Sprint("without line ", i), without)
		add(fmt.Sprint("line twice ", i), append(append(append([]string(nil), ls[:i+1]...), ls[i]), ls[i+1:]...))
		add(fmt.Sprint("up to line ", i), ls[:i])
		add(fmt.Sprint("from line ", i), ls[i:])
		for _, sep := range []string{" ", ",", "|", ":", "\t", "/", "=", "\""} {
			parts := strings.Split(ls[i], sep)
			if len(parts) < 2 && sep != " " {
				continue
			}
			for k := range parts {
				if k > 10 {
					break
				}
				for n := 0; n < 4; n++ {
					w := pick(s.r, words)
					p := append([]string(nil), parts...)
					p[k] = w
					x := append([]string(nil), ls...)
					x[i] = strings.Join(p, sep)
					add(fmt.Sprintf("line %d part %d by %q is %.20q", i, k, sep, w), x)
				}
				p := append(append([]string(nil), parts[:k]...), parts[k+1:]...)
				x := append([]string(nil), ls...)
				x[i] = strings.Join(p, sep)
				add(fmt.Sprintf("line %d without part %d by %q", i, k, sep), x)
			}
		}
		x := append([]string(nil), ls...)
		j := s.r.Intn(len(ls))
		x[i], x[j] = x[j], x[i]
		add(fmt.Sprint("lines exchanged ", i, " ", j), x)
	}
	return ret
}

func famFlip(c *Ctx) {
	all := 60
	if c.tier == "thorough" {
		all = 100000
	}
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("ipdbflip", func(s *Scen) {
			fam := fams[i%3]
			t := randTable(s.r, fam, 1+s.r.Intn(4), []float64{0, 0.4}[s.r.Intn(2)])
			langs := pickS(s.r, [][]string{{"CN"}, {"EN", "CN"}, {"CN", "EN"}})
			if len(t.Rows) == 0 {
				return
			}
			b := t.image(s.r, langs, 1600000000)
			s.flips(".ipdb", "byte", s.bytesFlipped(b, all))
			s.flips(".ipdb", "metadata", s.ipdbMeta(b))
		})
		c.Scenario("awdbflip", func(s *Scen) {
			f := randRaw(s.r, "awdb", fams[i%2])
			for len(f.Tree) > 40 && i%3 > 0 {
				f = randRaw(s.r, "awdb", fams[i%2])
			}
			b := f.image(s.r)
			s.flips(".awdb", "byte", s.bytesFlipped(b, all))
			if i%2 == 0 {
				s.flips(".awdb", "metadata", s.awdbMeta(f))
			}
			// values that claim to be large
			g := *f
			g.Tree = [][2]uint64{{1 + 16, 1 + 16}}
			var vs []flip
			for _, t := range []string{"arr", "map"} {
				for _, size := range []int{2, 29, 284, 285, 2000, 4000, 65820, 65821, 1 << 24} {
					g.Data = bomb(t, 500, size)
					vs = append(vs, flip{fmt.Sprint(t, "s of size ", size, " nested"), g.image(s.r)})
				}
			}
			s.flips(".awdb", "nested", vs)
		})
		c.Scenario("textflip", func(s *Scen) {
			fam := fams[i%2]
			t := textTable(s, fam, 1+s.r.Intn(5))
			kind := []string{".scan", ".memip"}[i%2]
			t.Fields = nativeFields[0]
			t.Recs = randRecs(s.r, t.Fields, len(t.Recs))
			b, err := convert.PackBytes(kind, t.build(s.r))
			if err != nil {
				return
			}
			s.flips(kind, "text", s.textDamage(b))
			s.flips(kind, "byte", s.bytesFlipped(b, all/4))
		})
	}
}
