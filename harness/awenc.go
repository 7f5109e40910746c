package main

import (
	"math/rand"
	"sort"
	"strings"

	"github.com/qiniu/uip/db/inf"
)

// Val is a value of an awdb data section.
type Val struct {
	T string // str bytes u16 u32 u64 u128 i32 f64 f32 bool map arr
	B []byte // str, bytes: content; numbers: big endian, any length the type allows
	K []string
	L []*Val // elements, or the values of a map
}

var typeNum = map[string]int{"str": 2, "f64": 3, "bytes": 4, "u16": 5, "u32": 6, "map": 7, "i32": 8, "u64": 9, "u128": 10, "arr": 11, "bool": 14, "f32": 15}

// DataSec is a sparse data section: regions that are filled from their start.
type DataSec struct {
	r       *rand.Rand
	regions []*region
	ptr     float64 // chance that a key or value is written as pointer
	memo    map[string]int
}

type region struct {
	start int
	b     []byte
}

func newDataSec(r *rand.Rand, ptr float64, starts ...int) *DataSec {
	d := &DataSec{r: r, ptr: ptr, memo: map[string]int{}}
	sort.Ints(starts)
	for _, s := range starts {
		d.regions = append(d.regions, &region{start: s})
	}
	return d
}

// put stores encoded bytes somewhere and returns the offset.
func (d *DataSec) put(b []byte) int {
	for tries := 0; ; tries++ {
		i := d.r.Intn(len(d.regions))
		if tries > 8 {
			i = len(d.regions) - 1
		}
		g := d.regions[i]
		end := g.start + len(g.b) + len(b)
		if i+1 < len(d.regions) && end > d.regions[i+1].start {
			continue
		}
		g.b = append(g.b, b...)
		return end - len(b)
	}
}

func (d *DataSec) size() int {
	g := d.regions[len(d.regions)-1]
	return g.start + len(g.b)
}

func (d *DataSec) copyTo(b []byte) {
	for _, g := range d.regions {
		copy(b[g.start:], g.b)
	}
}

func ctrl(t string, size int) []byte {
	n := typeNum[t]
	var ret []byte
	var bits, ext int
	switch {
	case size < 29:
		bits, ext = size, 0
	case size < 285:
		bits, ext = 29, 1
	case size < 65821:
		bits, ext = 30, 2
	default:
		bits, ext = 31, 3
	}
	if n > 7 {
		ret = []byte{byte(bits), byte(n - 7)}
	} else {
		ret = []byte{byte(n<<5 | bits)}
	}
	switch ext {
	case 1:
		ret = append(ret, byte(size-29))
	case 2:
		v := size - 285
		ret = append(ret, byte(v>>8), byte(v))
	case 3:
		v := size - 65821
		ret = append(ret, byte(v>>16), byte(v>>8), byte(v))
	}
	return ret
}

func (d *DataSec) pointer(off int) []byte {
	big := []byte{1<<5 | 3<<3, byte(off >> 24), byte(off >> 16), byte(off >> 8), byte(off)}
	if d.r.Intn(4) == 0 {
		return big
	}
	switch {
	case off < 2048:
		return []byte{1<<5 | byte(off>>8), byte(off)}
	case off < 2048+1<<19:
		v := off - 2048
		return []byte{1<<5 | 1<<3 | byte(v>>16), byte(v >> 8), byte(v)}
	case off < 526336+1<<27:
		v := off - 526336
		return []byte{1<<5 | 2<<3 | byte(v>>24), byte(v >> 16), byte(v >> 8), byte(v)}
	}
	return big
}

// ref writes a value in place or as a pointer to it.
func (d *DataSec) ref(v *Val) []byte {
	if d.r.Float64() < d.ptr {
		return d.pointer(d.store(v))
	}
	return d.enc(v)
}

// store puts a value into the section; equal strings are shared.
func (d *DataSec) store(v *Val) int {
	if v.T == "str" {
		if off, ok := d.memo[string(v.B)]; ok && d.r.Intn(4) > 0 {
			return off
		}
	}
	off := d.put(d.enc(v))
	if v.T == "str" {
		d.memo[string(v.B)] = off
	}
	return off
}

func (d *DataSec) enc(v *Val) []byte {
	switch v.T {
	case "map":
		ret := ctrl("map", len(v.L))
		for i, e := range v.L {
			ret = append(ret, d.ref(&Val{T: "str", B: []byte(v.K[i])})...)
			ret = append(ret, d.ref(e)...)
		}
		return ret
	case "arr":
		ret := ctrl("arr", len(v.L))
		for _, e := range v.L {
			ret = append(ret, d.ref(e)...)
		}
		return ret
	case "bool":
		return ctrl("bool", int(v.B[0]))
	}
	return append(ctrl(v.T, len(v.B)), v.B...)
}

func strVal(s string) *Val { return &Val{T: "str", B: []byte(s)} }
func uintVal(t string, u uint64) *Val {
	var b []byte
	for ; u > 0; u >>= 8 {
		b = append([]byte{byte(u)}, b...)
	}
	return &Val{T: t, B: b}
}

// AwTable is an awdb database: networks with records of text values.
type AwTable struct {
	Nodes  int // of the last image
	Fam    string // "4" or "6"
	Rows   []Row
	Recs   []map[string]string
	Alias  []string // prefixes that point at the IPv4 tree
	Bits   int      // record size
	Spread int      // span of the data section
	Type   string
	Build  uint32
	Langs  []string
	Ptr    float64
}

// rows with the aliases expanded
func (t *AwTable) rows() []Row {
	ret := append([]Row(nil), t.Rows...)
	for _, al := range t.Alias {
		for _, r := range t.Rows {
			if strings.HasPrefix(r.Net, zeros(96)) {
				ret = append(ret, Row{al + r.Net[96:], r.Rec})
			}
		}
	}
	return ret
}

func (t *AwTable) step() M {
	rows := A{}
	for _, r := range t.rows() {
		rows = append(rows, A{r.Net, r.Rec})
	}
	recs := A{}
	for _, r := range t.Recs {
		recs = append(recs, r)
	}
	return M{"op": "awimage", "fam": t.Fam, "rows": rows, "recs": recs,
		"ver": M{"type": int(ipType(t.Fam)), "version": "ipplus360" + t.Type, "build": smallInt(uint64(t.Build)), "langs": strs(t.Langs), "extra": A{}}}
}

type awNode struct {
	kind int // 0 nothing, 1 node, 2 data
	rec  int
	kid  [2]*awNode
	num  int
}

func (t *AwTable) image(r *rand.Rand) []byte {
	root := &awNode{kind: 1, kid: [2]*awNode{{}, {}}}
	// at returns the node p stands for, made an inner node on the way
	at := func(p string) *awNode {
		n := root
		for i := 0; i < len(p); i++ {
			if n.kind != 1 {
				if n.kind != 0 {
					panic("awdb: overlapping networks")
				}
				n.kind = 1
				n.kid = [2]*awNode{{}, {}}
			}
			n = n.kid[p[i]-'0']
		}
		return n
	}
	for _, row := range t.Rows {
		n := at(row.Net)
		if n.kind != 0 {
			panic("awdb: overlapping networks")
		}
		n.kind, n.rec = 2, row.Rec
	}
	if len(t.Alias) > 0 {
		v4 := at(zeros(96))
		for _, al := range t.Alias {
			p := at(al[:len(al)-1])
			if p.kind == 0 {
				p.kind = 1
				p.kid = [2]*awNode{{}, {}}
			}
			p.kid[al[len(al)-1]-'0'] = v4
		}
	}
	var nodes []*awNode
	seen := map[*awNode]bool{}
	var walk func(n *awNode)
	walk = func(n *awNode) {
		if n.kind != 1 || seen[n] {
			return
		}
		seen[n] = true
		nodes = append(nodes, n)
		walk(n.kid[0])
		walk(n.kid[1])
	}
	walk(root)
	if r.Intn(3) > 0 {
		rest := nodes[1:]
		r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	}
	for i, n := range nodes {
		n.num = i
	}
	count := len(nodes)
	t.Nodes = count
	starts := []int{0}
	if t.Spread > 0 {
		for i := 0; i < 6; i++ {
			starts = append(starts, r.Intn(t.Spread))
		}
		starts = append(starts, t.Spread)
	}
	d := newDataSec(r, t.Ptr, starts...)
	offs := make([]int, len(t.Recs))
	for i, rec := range t.Recs {
		v := &Val{T: "map"}
		for _, k := range sortedKeys(rec) {
			v.K = append(v.K, k)
			e := strVal(rec[k])
			if r.Intn(5) == 0 {
				e.T = "bytes"
			}
			v.L = append(v.L, e)
		}
		r.Shuffle(len(v.K), func(i, j int) { v.K[i], v.K[j] = v.K[j], v.K[i]; v.L[i], v.L[j] = v.L[j], v.L[i] })
		offs[i] = d.put(d.enc(v))
	}
	mb := awMeta(r, count, t.Bits, t.Fam, t.Type, t.Build, t.Langs)

	tree := count * t.Bits / 4
	out := make([]byte, tree+16+d.size(), tree+16+d.size()+len(mb)+32)
	value := func(n *awNode) uint64 {
		switch n.kind {
		case 0:
			return uint64(count)
		case 1:
			return uint64(n.num)
		}
		v := uint64(count + 16 + offs[n.rec-1])
		if v >= 1<<uint(t.Bits) {
			panic("awdb: pointer too large")
		}
		return v
	}
	for i, n := range nodes {
		putNode(out[i*t.Bits/4:], t.Bits, value(n.kid[0]), value(n.kid[1]))
	}
	d.copyTo(out[tree+16:])
	out = append(out, "\xAB\xCD\xEFipplus360.com"...)
	return append(out, mb...)
}

// awMeta is the metadata of a file; sometimes with pointers inside.
func awMeta(r *rand.Rand, count, bits int, fam, typ string, build uint32, langs []string) []byte {
	mv := &Val{T: "map"}
	add := func(k string, v *Val) { mv.K = append(mv.K, k); mv.L = append(mv.L, v) }
	add("binary_format_major_version", uintVal("u16", 2))
	add("binary_format_minor_version", uintVal("u16", 0))
	add("build_epoch", uintVal("u64", uint64(build)))
	add("database_type", strVal(typ))
	desc := strVal("描述")
	add("description", &Val{T: "map", K: []string{"cn"}, L: []*Val{desc}})
	long := r.Intn(4)
	if long == 0 {
		desc.B = []byte(strings.Repeat("d", r.Intn(1100)))
	}
	v := uint64(4)
	if fam == "6" {
		v = 6
	}
	add("ip_version", uintVal("u16", v))
	la := &Val{T: "arr"}
	for _, l := range langs {
		la.L = append(la.L, strVal(l))
	}
	add("languages", la)
	add("node_count", uintVal("u32", uint64(count)))
	add("record_size", uintVal("u16", uint64(bits)))
	behind := r.Intn(4) == 0
	// what only an unknown member points at could be cut off unseen
	if r.Intn(3) == 0 && !behind { // members a reader does not know
		add("note", pickV(r, strVal("x"), strVal(strings.Repeat("n", 40)), uintVal("u32", 70000), &Val{T: "arr", L: []*Val{strVal("é"), uintVal("u16", 300)}}))
	}
	if r.Intn(2) == 0 { // members come in any order, numbers in any unsigned type
		r.Shuffle(len(mv.K), func(i, j int) { mv.K[i], mv.K[j] = mv.K[j], mv.K[i]; mv.L[i], mv.L[j] = mv.L[j], mv.L[i] })
		for i, k := range mv.K {
			if k == "node_count" || k == "record_size" || k == "ip_version" {
				mv.L[i].T = pick(r, []string{"u16", "u32", "u64"})
				if k == "node_count" && count > 65535 {
					mv.L[i].T = "u32"
				}
			}
		}
	}
	if !behind {
		b := newDataSec(r, 0, 0).enc(mv)
		if long == 1 { // as long as can be: with the marker, 2000 bytes
			desc.B = []byte(strings.Repeat("d", 1986-len(b)))
			for b = newDataSec(r, 0, 0).enc(mv); len(b) > 1986; b = newDataSec(r, 0, 0).enc(mv) {
				desc.B = desc.B[:len(desc.B)-1]
			}
		}
		return b
	}
	// the map first, what it points at behind it
	if len(desc.B) > 400 {
		desc.B = desc.B[:400]
	}
	at := 500 + len(desc.B)
	meta := newDataSec(r, 0.5, at)
	b := make([]byte, at)
	copy(b, meta.enc(mv))
	return append(b, meta.regions[0].b...)
}

func putNode(o []byte, bits int, l, r uint64) {
	switch bits {
	case 24:
		copy(o, []byte{byte(l >> 16), byte(l >> 8), byte(l), byte(r >> 16), byte(r >> 8), byte(r)})
	case 28:
		copy(o, []byte{byte(l >> 16), byte(l >> 8), byte(l), byte(l>>24)<<4 | byte(r>>24), byte(r >> 16), byte(r >> 8), byte(r)})
	case 32:
		copy(o, []byte{byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l), byte(r >> 24), byte(r >> 16), byte(r >> 8), byte(r)})
	}
}

func sortedKeys(m map[string]string) []string {
	var ret []string
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}

var awFields = []string{"country", "province", "city", "isp", "asnumber", "continent", "line"}
var awOther = []string{"timezone", "owner", "zipcode", "asn", "radius", "district", "source"}

func randAwRecs(r *rand.Rand, n int) []map[string]string {
	keys := append([]string(nil), awFields...)
	keys = append(keys, awOther...)
	full := r.Intn(2) == 0
	var ret []map[string]string
	for i := 0; i < n; i++ {
		m := map[string]string{}
		for _, k := range keys {
			if full && r.Intn(12) > 0 || !full && r.Intn(2) == 0 {
				f := k
				if k == "asnumber" {
					f = "asn"
				}
				m[k] = randValue(r, f)
			}
		}
		if len(m) == 0 || r.Intn(6) > 0 {
			m[pick(r, awFields)] += "#" + itoa(i)
		}
		ret = append(ret, m)
	}
	return ret
}

// randAw makes an awdb table; an IPv4 one always holds 8.8.8.8.
func randAw(r *rand.Rand, fam string, n int, gaps float64) *AwTable {
	t := &AwTable{Fam: fam, Bits: []int{24, 28, 32}[r.Intn(3)], Type: pick(r, []string{"", "IP_city_single", "城市"}), Build: uint32(r.Intn(1900000000)),
		Langs: pickS(r, [][]string{{"cn"}, {"cn", "en"}, {}}), Ptr: []float64{0, 0.3, 0.9}[r.Intn(3)]}
	w := width(fam)
	til := randTiling(r, w, n)
	if len(til.nets) == 1 {
		til.burrow(randBits(r, w), 1)
	}
	if fam == "6" && r.Intn(4) > 0 {
		til.burrow(zeros(128), 96)
		if r.Intn(4) > 0 {
			v4 := randTiling(r, 32, n/2+1)
			til.clear(zeros(96))
			for p := range v4.nets {
				til.nets[zeros(96)+p] = true
			}
		}
		if r.Intn(2) == 0 {
			for _, al := range []string{mappedPrefix, bitsOfBytes([]byte{0x20, 0x02})} {
				if r.Intn(2) == 0 {
					til.burrow(al, len(al))
					til.clear(al)
					t.Alias = append(t.Alias, al)
				}
			}
		}
	}
	nets := til.sorted()
	nrec := 1 + r.Intn(len(nets)+2)
	t.Recs = randAwRecs(r, nrec)
	eight := bitsOfBytes([]byte{8, 8, 8, 8})
	last := 1
	for _, p := range nets {
		if r.Float64() < gaps && !(fam == "4" && strings.HasPrefix(eight, p)) {
			continue
		}
		if r.Intn(3) > 0 {
			last = 1 + r.Intn(nrec)
		}
		t.Rows = append(t.Rows, Row{p, last})
	}
	return t
}

func (t *AwTable) probes(r *rand.Rand, n int) []string {
	x := &Table{Fam: t.Fam, Rows: t.rows()}
	ret := x.probes(r, n)
	if t.Fam == "6" {
		for i := 0; i < 3 && i < len(t.Rows); i++ {
			p := t.Rows[r.Intn(len(t.Rows))].Net
			if strings.HasPrefix(p, zeros(96)) {
				p = p[96:]
				ret = append(ret, firstOf(p, 32), lastOf(p, 32), p+randBits(r, 32-len(p)))
			}
		}
	}
	return ret
}

var _ = inf.IpV4

func pickV(r *rand.Rand, a ...*Val) *Val { return a[r.Intn(len(a))] }
