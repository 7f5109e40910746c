package main

import (
	"fmt"
	"math/rand"
	"net"
	"sort"
	"strings"

	"github.com/qiniu/uip/db/inf"
)

// Row and Table are the tables of the specification: networks as bit strings
// with an index into a pool of records.
type Row struct {
	Net string
	Rec int // 1-based
}

type Table struct {
	Fam    string // "4", "6", "46"
	Fields []string
	Rows   []Row
	Recs   [][]string
	Ver    *inf.VersionInfo
	Share  bool // rows with one record share one slice (as dumps do)

	filler int // bytes in front of the records, in images
}

var commonFields = []string{"country", "province", "city", "isp", "asn", "continent", "line", "district"}
var otherFields = []string{"utcOffset", "latitude", "longitude", "chinaAdminCode", "owner", "remark", "idc", "zipcode"}

func ipType(fam string) inf.IpType {
	switch fam {
	case "4":
		return inf.IpV4
	case "6":
		return inf.IpV6
	}
	return inf.IpAll
}

func (t *Table) steps() M {
	rows := A{}
	for _, r := range t.Rows {
		rows = append(rows, A{r.Net, r.Rec})
	}
	recs := A{}
	for _, r := range t.Recs {
		recs = append(recs, strs(r))
	}
	return M{"fam": t.Fam, "fields": strs(t.Fields), "rows": rows, "recs": recs, "ver": projVersion(t.Ver)}
}

func (t *Table) bigSteps() M {
	m := map[string]int{}
	for _, r := range t.Rows {
		m[r.Net] = r.Rec
	}
	recs := A{}
	for _, r := range t.Recs {
		recs = append(recs, strs(r))
	}
	return M{"fam": t.Fam, "fields": strs(t.Fields), "m": m, "recs": recs, "ver": projVersion(t.Ver)}
}

// realNet makes a network in one of the ways callers write it.
func realNet(r *rand.Rand, p, fam string) *net.IPNet {
	if fam == "4" {
		n := netOf(p, 32)
		if r.Intn(4) == 0 && len(p) > 0 {
			return &net.IPNet{IP: n.IP.To16(), Mask: net.CIDRMask(len(p)+96, 128)}
		}
		return n
	}
	n := netOf(p, 128)
	if fam == "46" && strings.HasPrefix(p, mappedPrefix) && r.Intn(3) > 0 {
		return netOf(p[96:], 32)
	}
	return n
}

// build makes the real table.
func (t *Table) build(r *rand.Rand) *inf.IpData {
	d := &inf.IpData{Fields: append([]string(nil), t.Fields...)}
	if t.Ver != nil {
		v := *t.Ver
		v.ExtraInfo = append([]string(nil), t.Ver.ExtraInfo...)
		v.Languages = append([]string(nil), t.Ver.Languages...)
		d.Version = &v
	}
	shared := map[int][]string{}
	for _, row := range t.Rows {
		vals := append([]string(nil), t.Recs[row.Rec-1]...)
		if t.Share {
			if s, ok := shared[row.Rec]; ok {
				vals = s
			} else {
				shared[row.Rec] = vals
			}
		}
		d.Ips = append(d.Ips, inf.IpRaw{Cidr: realNet(r, row.Net, t.Fam), FieldValues: vals})
	}
	return d
}

func randVersion(r *rand.Rand, fam string) *inf.VersionInfo {
	v := &inf.VersionInfo{IpType: ipType(fam), Count: uint32(r.Intn(100000)), Build: int64(r.Intn(1900000000)),
		Version: pick(r, []string{"qiniu-20240102", "v1", "ipip.net-2023-01-01", "版本 7 \"x\"", "a/b\\c", ""})}
	v.Languages = pickS(r, [][]string{nil, {"CN"}, {"zh-CN", "en"}})
	v.ExtraInfo = pickS(r, [][]string{nil, {"line-20240101-17"}, {"x", "y", "z"}, {"说明,a", ""}})
	return v
}

func pick(r *rand.Rand, a []string) string      { return a[r.Intn(len(a))] }
func pickS(r *rand.Rand, a [][]string) []string { return a[r.Intn(len(a))] }

var valPool = map[string][]string{
	"country":   {"中国", "中国", "中国", "美国", "日本", "台湾", ""},
	"province":  {"浙江", "广东", "北京", "台湾", "香港", "内蒙古", "广西", "加州", "", "中国台湾", "黑龙江", "西藏"},
	"city":      {"杭州", "深圳", "绥芬河", "台北", "", "新北", "x-y"},
	"isp":       {"电信", "联通", "移动", "铁通", "阿里云", "中国电信", "教育网", "", "Google LLC"},
	"asn":       {"4134", "4837", "9808", "37963", "", "15169", "45090", "0"},
	"continent": {"亚洲", "欧洲", "北美洲", "南美洲", "非洲", "大洋洲", "南极洲", "AS", "EU", "NA", "SA", "AF", "OC", "AN", "", "火星", "as"},
	"line":      {"电信", "联通/电信", "", "移动", "阿里云/电信", "铁通"},
	"district":  {"华东", "华南", "", "东北", "西南"},
}

func randValue(r *rand.Rand, f string) string {
	if r.Intn(8) == 0 {
		return pick(r, []string{"", "x", "é\"\\/<&>", "a b", " lead", "trail ", "默认", "😀汉", "1,2", "保留地址", "a_b", "\x7f"})
	}
	if p, ok := valPool[f]; ok {
		return pick(r, p)
	}
	return fmt.Sprintf("v%d", r.Intn(50))
}

// nativeFields are the columns formats and readers know, in their order.
var nativeFields = [][]string{
	{"city", "province", "district", "isp", "country", "continent"},
	{"country", "province", "city", "isp", "asn", "continent", "line"},
	{"continent", "country", "province", "city", "district", "isp", "asn", "line"},
}

func randFields(r *rand.Rand) []string {
	all := append([]string(nil), commonFields...)
	all = append(all, otherFields...)
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	n := 1 + r.Intn(len(all))
	fs := all[:n]
	if r.Intn(8) == 0 { // the columns of a format, as they are or with one exchanged, missing or new
		fs = append([]string(nil), pickS(r, nativeFields)...)
		if k := r.Intn(len(fs)); r.Intn(3) == 0 {
			fs = append(fs[:k:k], fs[k+1:]...)
		} else if r.Intn(3) == 0 {
			fs = append(fs, "zz")
		}
		return fs
	}
	if r.Intn(3) == 0 {
		fs = append([]string(nil), commonFields...)
		if r.Intn(2) == 0 {
			r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		}
	}
	return fs
}

func randRecs(r *rand.Rand, fields []string, n int) [][]string {
	var ret [][]string
	for i := 0; i < n; i++ {
		var v []string
		for _, f := range fields {
			v = append(v, randValue(r, f))
		}
		ret = append(ret, v)
	}
	// make most records distinguishable
	for i, v := range ret {
		if r.Intn(6) > 0 {
			k := r.Intn(len(v))
			v[k] = fmt.Sprintf("%s#%d", v[k], i)
		}
	}
	for i := range ret {
		if i > 0 && r.Intn(4) == 0 {
			ret[i] = near(r, ret[r.Intn(i)])
		}
	}
	return ret
}

// near is another record that is easily taken for v: the same text divided
// differently over the columns, columns exchanged, a difference in one column,
// in case or in white space.
func near(r *rand.Rand, v []string) []string {
	n := append([]string(nil), v...)
	if len(n) == 0 {
		return n
	}
	i := r.Intn(len(n))
	j := r.Intn(len(n))
	sep := pick(r, []string{"", "", "", ",", "-", " ", "/", "|", "_", "\\", ";", ":"})
	switch r.Intn(8) {
	case 0, 1: // the last runes of one column begin the next
		j = (i + 1) % len(n)
		if rs := []rune(n[i]); len(rs) > 0 && i != j {
			k := r.Intn(len(rs))
			n[i], n[j] = string(rs[:k]), string(rs[k:])+n[j]
		}
	case 2: // "a" + sep + "b", "c" for "a", "b" + sep + "c"; v is left as it is
		if i+1 < len(n) {
			n[i] += sep + n[i+1]
		}
	case 3:
		n[i], n[j] = n[j], n[i]
	case 4:
		n[i] += pick(r, []string{" ", "\u00a0", "x", "#"})
	case 5:
		n[i] = strings.ToUpper(n[i])
	case 6:
		n[i] = ""
	case 7: // a value of one column in another
		n[i] = n[j]
	}
	return n
}

// apart makes two records whose values run together to the same text when
// joined by sep.
func apart(r *rand.Rand, v []string) ([]string, []string) {
	a, b := append([]string(nil), v...), append([]string(nil), v...)
	if len(v) > 1 {
		sep := pick(r, []string{"", "", ",", "-", " ", "/", "|", "_"})
		i := r.Intn(len(v) - 1)
		x, y, z := pick(r, []string{"吉林", "x", ""}), pick(r, []string{"吉林", "y"}), pick(r, []string{"", "z", "吉林"})
		a[i], a[i+1] = x+sep+y, z
		b[i], b[i+1] = x, y+sep+z
	}
	return a, b
}

// Tiling is a set of disjoint networks, kept by splitting.
type Tiling struct {
	w    int
	nets map[string]bool
}

func newTiling(w int) *Tiling { return &Tiling{w, map[string]bool{"": true}} }

func (t *Tiling) holder(a string) string {
	for k := 0; k <= len(a); k++ {
		if t.nets[a[:k]] {
			return a[:k]
		}
	}
	return "-"
}

// burrow splits until a[:d] is a network of its own.
func (t *Tiling) burrow(a string, d int) {
	p := t.holder(a[:d])
	if p == "-" {
		return
	}
	for len(p) < d {
		delete(t.nets, p)
		t.nets[p+"0"] = true
		t.nets[p+"1"] = true
		p = a[:len(p)+1]
	}
}

// clear removes the networks inside p.
func (t *Tiling) clear(p string) {
	for q := range t.nets {
		if strings.HasPrefix(q, p) {
			delete(t.nets, q)
		}
	}
}

func (t *Tiling) sorted() []string {
	var ret []string
	for p := range t.nets {
		ret = append(ret, p)
	}
	sort.Slice(ret, func(i, j int) bool { return firstOf(ret[i], t.w) < firstOf(ret[j], t.w) })
	return ret
}

func randAddr(r *rand.Rand, w int) string {
	if w == 32 {
		switch r.Intn(8) {
		case 0:
			return bitsOfBytes(net.ParseIP(warm[r.Intn(len(warm))]).To4())
		case 1:
			return zeros(32)
		case 2:
			return ones(32)
		case 3:
			return bitsOfBytes([]byte{8, 8, 8, 8})
		case 4:
			k := r.Intn(33)
			return randBits(r, k) + strings.Repeat(pick(r, []string{"0", "1"}), 32-k)
		}
		return randBits(r, 32)
	}
	switch r.Intn(9) {
	case 0:
		return zeros(128)
	case 1:
		return ones(128)
	case 2:
		return mappedPrefix + randAddr(r, 32)
	case 3:
		return zeros(96) + randAddr(r, 32)
	case 4:
		return bitsOfBytes(net.ParseIP("2001:db8::1")) // some plain address
	case 5:
		return zeros(80) + randBits(r, 48)
	case 6:
		k := r.Intn(129)
		return randBits(r, k) + strings.Repeat(pick(r, []string{"0", "1"}), 128-k)
	case 7:
		return mappedPrefix[:1+r.Intn(96)] // completed by fix
	}
	return randBits(r, 128)
}

// randTiling covers the whole space with about n networks.
func randTiling(r *rand.Rand, w, n int) *Tiling {
	t := newTiling(w)
	for tries := 0; len(t.nets) < n && tries < 4*n+8; tries++ {
		a := fix(randAddr(r, w), r, w)
		switch r.Intn(4) {
		case 0: // one split anywhere
			p := t.holder(a)
			if len(p) < w {
				t.burrow(a, len(p)+1)
			}
		case 1: // deep hole
			t.burrow(a, w-r.Intn(3))
		default:
			p := t.holder(a)
			d := len(p) + 1 + r.Intn(10)
			if d > w {
				d = w
			}
			t.burrow(a, d)
		}
	}
	return t
}

func fix(a string, r *rand.Rand, w int) string {
	if len(a) < w {
		return a + randBits(r, w-len(a))
	}
	return a[:w]
}

var warm = strings.Split(warmList, "\n")

// randTable makes a disjoint table; gaps is the chance of leaving a network out.
func randTable(r *rand.Rand, fam string, n int, gaps float64) *Table {
	t := &Table{Fam: fam, Fields: randFields(r), Ver: randVersion(r, fam), Share: r.Intn(2) == 0}
	w := width(fam)
	til := randTiling(r, w, n)
	if fam == "46" {
		// IPv4 networks live below ::ffff:0:0/96
		if r.Intn(5) > 0 {
			til.burrow(mappedPrefix, 96)
			v4 := randTiling(r, 32, n/2+1)
			til.clear(mappedPrefix)
			for p := range v4.nets {
				til.nets[mappedPrefix+p] = true
			}
		}
	}
	nets := til.sorted()
	nrec := 1 + r.Intn(len(nets)+2)
	t.Recs = randRecs(r, t.Fields, nrec)
	if nrec > 1 && r.Intn(4) == 0 {
		k := 1 + r.Intn(nrec-1)
		t.Recs[k-1], t.Recs[k] = apart(r, t.Recs[k])
	}
	last := 1
	for _, p := range nets {
		if r.Float64() < gaps {
			continue
		}
		if r.Intn(3) > 0 {
			last = 1 + r.Intn(nrec)
		}
		t.Rows = append(t.Rows, Row{p, last})
	}
	return t
}

// probes are addresses around the networks of the table plus random ones.
func (t *Table) probes(r *rand.Rand, n int) []string {
	w := width(t.Fam)
	var ret []string
	seen := map[string]bool{}
	add := func(a string) {
		if !seen[a] {
			seen[a] = true
			ret = append(ret, a)
		}
	}
	order := r.Perm(len(t.Rows))
	for _, i := range order {
		p := t.Rows[i].Net
		f, l := firstOf(p, w), lastOf(p, w)
		add(f)
		add(l)
		add(p + randBits(r, w-len(p)))
		if f != zeros(w) {
			add(pred(f))
		}
		if l != ones(w) {
			add(succ(l))
		}
		if len(ret) > n {
			break
		}
	}
	for i := 0; i < n/4+6; i++ {
		add(fix(randAddr(r, w), r, w))
	}
	add(zeros(w))
	add(ones(w))
	if t.Fam == "46" || t.Fam == "6" {
		for i := 0; i < 3; i++ {
			add(randAddr(r, 32))
		}
	} else {
		for i := 0; i < 3; i++ {
			add(fix(randAddr(r, 128), r, 128))
		}
	}
	return ret
}
