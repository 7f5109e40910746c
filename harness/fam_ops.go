package main

import (
	"fmt"
	"math/rand"
	"net"
	"strings"

	"github.com/qiniu/uip/db"
	"github.com/qiniu/uip/db/field/data"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

func init() {
	families["ops"] = famOps
	families["opsgen"] = famOpsGen
	families["merge"] = famMerge
	families["mergegen"] = famMergeGen
}

// LineDb is a line database: 128 bit networks to lines.
type LineDb struct {
	rows [][2]string
	m    map[string]string
	ver  *inf.VersionInfo
	name string
	q    inf.Query
}

func (l *LineDb) Query(ip net.IP) (*inf.IpInfo, int, error) {
	if len(ip) != 4 && len(ip) != 16 {
		return nil, 0, db.ErrIPFormat
	}
	a := bitsOfBytes(ip.To16())
	for k := 0; k <= 128; k++ {
		if v, ok := l.m[a[:k]]; ok {
			return &inf.IpInfo{Line: v, Country: "x", Isp: "y"}, k, nil
		}
	}
	return nil, 0, db.ErrDataNotExists
}
func (l *LineDb) BuildCache(ipList []string)    {}
func (l *LineDb) VersionInfo() *inf.VersionInfo { return l.ver }

var lineValues = []string{"", "电信", "联通", "移动", "铁通", "阿里云", "电信/联通", "联通/电信/阿里云", "铁通/移动", "华为/电信", "/电信", "移动/"}

// lineDb has networks that split, equal or contain those of the table.
func (s *Scen) lineDb(name string, nets []string, fam string) *LineDb {
	r := s.r
	l := &LineDb{m: map[string]string{}, ver: &inf.VersionInfo{IpType: inf.IpAll, Version: pick(r, []string{"line-2024", "l", ""}), Build: int64(r.Intn(1 << 30))}}
	til := newTiling(128)
	for _, p := range nets {
		q := p
		if fam == "4" {
			q = mappedPrefix + p
		}
		switch r.Intn(4) {
		case 0:
		case 1:
			if len(q) < 128 {
				til.burrow(firstOf(q, 128), len(q)+1)
			}
		case 2:
			til.burrow(firstOf(q, 128), 128)
		default:
			til.burrow(firstOf(q, 128), len(q))
		}
	}
	for _, p := range til.sorted() {
		if r.Intn(8) == 0 {
			continue
		}
		v := pick(r, lineValues)
		l.m[p] = v
		l.rows = append(l.rows, [2]string{p, v})
	}
	l.q = l
	if r.Intn(3) == 0 && len(l.rows) > 0 {
		// the real thing
		t := &Table{Fam: "46", Fields: []string{"isp", "line"}, Ver: l.ver}
		for i, row := range l.rows {
			t.Rows = append(t.Rows, Row{row[0], i + 1})
			t.Recs = append(t.Recs, []string{"i", row[1]})
		}
		s.Table(name+"t", t)
		b := s.Pack(".ipdb", name+"t", name+"f", t.build(r))
		if b != nil {
			if d := s.Open(".ipdb", name+"f", name+"d", b); d != nil {
				l.q = query.GetIntern(d)
				l.ver = l.q.VersionInfo()
			}
		}
	}
	l.name = fmt.Sprintf("%s-%d", l.ver.Version, l.ver.Build)
	s.steps = append(s.steps, M{"op": "linedb", "l": name, "rows": pairs(l.rows), "name": l.name})
	return l
}

// roomy gives value slices spare capacity, the way appends leave them.
func roomy(d *inf.IpData, r *rand.Rand) {
	moved := map[*string][]string{}
	for i := range d.Ips {
		v := d.Ips[i].FieldValues
		if len(v) == 0 {
			continue
		}
		n, ok := moved[&v[0]]
		if !ok {
			n = append(make([]string, 0, len(v)+1+r.Intn(3)), v...)
			moved[&v[0]] = n
		}
		d.Ips[i].FieldValues = n
	}
	d.Fields = append(make([]string, 0, len(d.Fields)+3), d.Fields...)
}

func (s *Scen) OpTable(name string, t *Table) *inf.IpData {
	st := t.steps()
	st["op"], st["t"] = "optable", name
	s.steps = append(s.steps, st)
	d := t.build(s.r)
	if s.r.Intn(2) == 0 {
		roomy(d, s.r)
	}
	return d
}

type opCtx struct {
	t    *Table
	d    *inf.IpData
	asns [][2]string
	line *LineDb
}

// Operate runs one processing step.
func (s *Scen) Operate(name string, o *opCtx) bool {
	step := M{"op": "operate", "t": "t", "name": name}
	var f func()
	switch name {
	case "normalise":
		f = func() { operate.ReplaceShortage(o.d) }
	case "trim":
		f = func() { operate.TrimAsnIspDup(o.d) }
	case "merge":
		f = func() { operate.MergeNearNetwork(o.d) }
	case "attach":
		step["l"] = "l"
		f = func() { operate.AttachLineByCidr(o.d, o.line.q) }
	case "replace":
		step["l"] = "l"
		f = func() { operate.ReplaceLineByCidr(o.d, o.line.q) }
	case "byasn":
		m := map[string]string{}
		for _, p := range o.asns {
			m[p[0]] = p[1]
		}
		step["pairs"], step["lver"] = pairs(o.asns), "asn-1"
		f = func() { operate.AttachLineByAsn(o.d, m, "asn-1") }
	case "district":
		f = func() { operate.AttachDistrict(o.d) }
	}
	s.Do(step, func() M {
		f()
		return M{"out": "ok", "res": projTable(o.d, o.t.Fam)}
	})
	return ok(step)
}

var opNames = []string{"normalise", "trim", "merge", "attach", "replace", "byasn", "district"}

// opTable: neighbours with equal values, values the steps are about.
func opTable(r *rand.Rand, fam string, fields []string, n int) *Table {
	t := &Table{Fam: fam, Fields: fields, Ver: randVersion(r, fam), Share: r.Intn(3) > 0}
	w := width(fam)
	til := randTiling(r, w, n)
	k := 1 + r.Intn(n+2)
	for i := 0; i < k; i++ {
		var v []string
		for _, f := range fields {
			v = append(v, opValue(r, f))
		}
		if i > 0 && r.Intn(5) == 0 {
			v = near(r, t.Recs[r.Intn(i)])
		}
		t.Recs = append(t.Recs, v)
	}
	if k > 1 && r.Intn(4) == 0 {
		i := 1 + r.Intn(k-1)
		t.Recs[i-1], t.Recs[i] = apart(r, t.Recs[i])
	}
	last := 1 + r.Intn(k)
	for _, p := range til.sorted() {
		if r.Intn(8) == 0 {
			continue
		}
		if r.Intn(2) == 0 {
			last = 1 + r.Intn(k)
		}
		t.Rows = append(t.Rows, Row{p, last})
	}
	return t
}

var normKeys = map[string][]string{}

func normKey(f string) []string {
	if len(normKeys) == 0 {
		for _, g := range []string{"city", "province", "isp"} {
			normKeys[g] = sortedKeys(data.NormalizedMap[g])
		}
	}
	return normKeys[f]
}

func opValue(r *rand.Rand, f string) string {
	switch f {
	case "country":
		if r.Intn(3) > 0 {
			return "中国"
		}
	case "province", "city", "isp":
		ks := normKey(f)
		if r.Intn(3) == 0 && len(ks) > 0 {
			return ks[r.Intn(len(ks))]
		}
		if r.Intn(4) == 0 {
			// an entry of another field's table
			ks = normKey(pick(r, []string{"city", "province", "isp"}))
			if len(ks) > 0 {
				return ks[r.Intn(len(ks))]
			}
		}
		if f == "province" {
			return pick(r, provinces)
		}
		if f == "isp" && r.Intn(2) == 0 {
			return pick(r, []string{"电信", "联通", "移动", "铁通", "阿里云"})
		}
	case "asn":
		return pick(r, []string{"1", "2", "3", "4134", "", "x"})
	}
	return randValue(r, f)
}

var provinces = []string{"黑龙江", "辽宁", "吉林", "新疆", "青海", "宁夏", "甘肃", "陕西", "内蒙古", "河北", "山西", "天津", "北京", "西藏", "四川", "重庆", "贵州", "云南", "湖南", "湖北", "河南", "山东", "江苏", "安徽", "浙江", "江西", "福建", "上海", "台湾", "广东", "广西", "海南", "香港", "澳门", "", "加州", "江苏省", "中国"}

func (s *Scen) resetNorm() {
	for k := range data.NormalizedMap {
		if k != "city" && k != "province" && k != "isp" {
			delete(data.NormalizedMap, k)
		}
	}
	data.LoadDefault()
}

// Load loads a normalisation table of the user's.
func (s *Scen) Load(field string, r *rand.Rand) {
	vals := []string{"中国", "电信", "阿里云", "浙江", "杭州", "x", "y", "z", "a b", "台湾", "v1", ""}
	var sb strings.Builder
	for n := r.Intn(9); n > 0; n-- {
		switch r.Intn(10) {
		case 0:
			sb.WriteString("\n")
		case 1:
			sb.WriteString("no replacement\n")
		case 2:
			sb.WriteString(pick(r, vals) + "\t" + pick(r, vals) + "\t" + pick(r, vals) + "\n")
		default:
			sb.WriteString(pick(r, vals) + "\t" + pick(r, vals))
			if n > 1 || r.Intn(2) == 0 {
				sb.WriteString("\n")
			}
		}
	}
	text := sb.String()
	s.Do(M{"op": "load", "field": field, "text": text}, func() M {
		data.Load(field, text)
		return M{"out": "ok"}
	})
}

func famOps(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("ops", func(s *Scen) {
			s.resetNorm()
			fam := fams[i%2]
			fields := randFields(s.r)
			if s.r.Intn(2) == 0 {
				fields = append([]string(nil), commonFields...)
				s.r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
				fields = fields[:3+s.r.Intn(6)]
			}
			t := opTable(s.r, fam, fields, 1+s.r.Intn(20))
			o := &opCtx{t: t}
			var nets []string
			for _, r := range t.Rows {
				nets = append(nets, r.Net)
			}
			o.line = s.lineDb("l", nets, fam)
			for _, k := range s.r.Perm(4)[:s.r.Intn(4)] {
				o.asns = append(o.asns, [2]string{[]string{"1", "2", "4134", ""}[k], pick(s.r, lineValues)})
			}
			if s.r.Intn(3) == 0 {
				s.Load(pick(s.r, []string{"isp", "province", "city", "country", "asn"}), s.r)
				if s.r.Intn(2) == 0 {
					s.Load(pick(s.r, []string{"isp", "province", "city"}), s.r)
				}
			}
			o.d = s.OpTable("t", t)
			for n := 1 + s.r.Intn(6); n > 0; n-- {
				if !s.Operate(pick(s.r, opNames), o) {
					return
				}
			}
		})
	}
	// tables of the user's whose replacements are entries themselves, of this or another field
	for i := 0; i < c.n/8; i++ {
		c.Scenario("chained", func(s *Scen) {
			s.resetNorm()
			names := []string{"a", "b", "c", "d", "杭州市", "A", "a ", "电信", "中国", ""}
			fields := append([]string(nil), []string{"city", "province", "isp", "country", "x"}...)
			s.r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
			fields = fields[:1+s.r.Intn(5)]
			for _, f := range fields {
				if s.r.Intn(4) == 0 {
					continue
				}
				text := ""
				for n := 1 + s.r.Intn(7); n > 0; n-- {
					text += pick(s.r, names) + "\t" + pick(s.r, names) + "\n"
				}
				f := f
				s.Do(M{"op": "load", "field": f, "text": text}, func() M {
					data.Load(f, text)
					return M{"out": "ok"}
				})
			}
			t := opTable(s.r, fams[s.r.Intn(2)], fields, 1+s.r.Intn(12))
			for _, r := range t.Recs {
				for j := range r {
					if s.r.Intn(6) > 0 {
						r[j] = pick(s.r, names)
					}
				}
			}
			o := &opCtx{t: t}
			o.d = s.OpTable("t", t)
			for n := 1 + s.r.Intn(3); n > 0; n-- {
				if !s.Operate("normalise", o) || s.r.Intn(3) == 0 && !s.Operate("merge", o) {
					return
				}
			}
		})
	}
	// every shipped name, and every name under every field
	for k := 0; k < 3; k++ {
		k := k
		c.Scenario("shipped", func(s *Scen) {
			s.resetNorm()
			t := &Table{Fam: "4", Fields: [][]string{{"city", "province", "isp"}, {"isp", "country", "city"}, {"province", "isp", "asn", "city"}}[k], Ver: randVersion(s.r, "4")}
			var all []string
			for _, f := range []string{"city", "province", "isp"} {
				for _, n := range normKey(f) {
					all = append(all, n)
				}
			}
			s.r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			for i, n := range all {
				var v []string
				for j := range t.Fields {
					if j == 0 {
						v = append(v, n)
					} else {
						v = append(v, all[(i*7+j*13)%len(all)])
					}
				}
				t.Recs = append(t.Recs, v)
				t.Rows = append(t.Rows, Row{bitsOfBytes([]byte{1, 2, byte(i >> 8), byte(i)}), i + 1})
			}
			o := &opCtx{t: t}
			o.d = s.OpTable("t", t)
			s.Operate("normalise", o)
			s.Operate("normalise", o)
			s.Operate("district", o)
		})
	}
	// every province, every field list about it
	for k, fields := range [][]string{{"province"}, {"province", "district"}, {"district", "province"}, {"district"}, {"isp", "province", "line"}, {"isp"}} {
		k, fields := k, fields
		c.Scenario("provinces", func(s *Scen) {
			s.resetNorm()
			_ = k
			t := &Table{Fam: "4", Fields: fields, Ver: randVersion(s.r, "4")}
			for i, p := range provinces {
				var v []string
				for _, f := range fields {
					if f == "province" {
						v = append(v, p)
					} else {
						v = append(v, f+itoa(i%3))
					}
				}
				t.Recs = append(t.Recs, v)
				t.Rows = append(t.Rows, Row{bitsOfBytes([]byte{1, 2, 3, byte(i)}), i + 1})
			}
			o := &opCtx{t: t}
			o.d = s.OpTable("t", t)
			s.Operate("district", o)
			s.Operate("merge", o)
		})
	}
}

// famOpsGen: every sequence of steps on every field list of OpsGen.
func famOpsGen(c *Ctx) {
	for i, m := range c.scen {
		i, m := i, m
		c.Scenario("opsgen", func(s *Scen) {
			s.resetNorm()
			fam := fams[i%2]
			var fields []string
			for _, f := range m["fields"].([]interface{}) {
				fields = append(fields, f.(string))
			}
			t := opTable(s.r, fam, fields, 6)
			o := &opCtx{t: t, asns: [][2]string{{"1", "L1"}, {"3", ""}}}
			var nets []string
			for _, r := range t.Rows {
				nets = append(nets, r.Net)
			}
			o.line = s.lineDb("l", nets, fam)
			o.d = s.OpTable("t", t)
			for _, n := range m["ops"].([]interface{}) {
				if !s.Operate(n.(string), o) {
					return
				}
			}
		})
	}
}

// famMerge: tables with long equal runs, gaps, and the ends of the space.
func famMerge(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("merge", func(s *Scen) {
			fam := fams[i%2]
			w := width(fam)
			t := &Table{Fam: fam, Fields: []string{"a", "isp"}, Ver: randVersion(s.r, fam), Share: s.r.Intn(2) == 0}
			t.Recs = [][]string{{"x", "1"}, {"x", "2"}, {"", ""}, {"x", "1"}}
			if s.r.Intn(2) == 0 {
				t.Recs[1], t.Recs[2] = apart(s.r, t.Recs[2])
			} else if s.r.Intn(2) == 0 {
				t.Recs[1] = near(s.r, t.Recs[0])
			}
			til := randTiling(s.r, w, 2+s.r.Intn(60))
			if fam == "6" && s.r.Intn(2) == 0 {
				til.burrow(mappedPrefix+randBits(s.r, 32), 96+s.r.Intn(33))
			}
			rec := 1
			gaps := s.r.Intn(3) * s.r.Intn(8)
			for _, p := range til.sorted() {
				if gaps > 0 && s.r.Intn(gaps+1) == 0 {
					continue
				}
				if s.r.Intn(4) == 0 {
					rec = 1 + s.r.Intn(4)
				}
				t.Rows = append(t.Rows, Row{p, rec})
			}
			o := &opCtx{t: t}
			o.d = s.OpTable("t", t)
			if s.Operate("merge", o) {
				s.Operate("merge", o)
			}
		})
	}
}

func famMergeGen(c *Ctx) {
	for i, m := range c.scen {
		i, m := i, m
		c.Scenario("mergegen", func(s *Scen) {
			fam := fams[(i+int(c.seed))%2]
			w := width(fam)
			small := int(m["w"].(float64))
			base := s.genBase(w, small)
			if s.r.Intn(3) == 0 {
				base = strings.Repeat(pick(s.r, []string{"0", "1"}), w-small)
			}
			if fam == "6" && s.r.Intn(3) == 0 {
				base = mappedPrefix + strings.Repeat(pick(s.r, []string{"0", "1"}), 32-small)
				base = base[:pickI(s.r, 93, 94, 95, 96, 97, 128-small)]
			}
			t := &Table{Fam: fam, Fields: []string{"isp", "a"}, Ver: randVersion(s.r, fam), Share: s.r.Intn(2) == 0,
				Recs: [][]string{{"r", "s"}, {"r", ""}}}
			if s.r.Intn(2) == 0 {
				// differently divided over the columns
				t.Recs[0], t.Recs[1] = apart(s.r, t.Recs[0])
			}
			for _, row := range m["rows"].([]interface{}) {
				p := row.([]interface{})
				t.Rows = append(t.Rows, Row{base + p[0].(string), int(p[1].(float64))})
			}
			o := &opCtx{t: t}
			o.d = s.OpTable("t", t)
			s.Operate("merge", o)
		})
	}
}

func pickI(r *rand.Rand, a ...int) int { return a[r.Intn(len(a))] }
