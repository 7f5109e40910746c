package main

import (
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"strings"

	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/format/awdb"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

func itoa(i int) string { return strconv.Itoa(i) }

func init() {
	families["dump"] = famDump
	families["dumpgen"] = famDumpGen
	families["awdb"] = famAwdb
	families["awdbgen"] = famAwdbGen
	families["awlarge"] = famAwLarge
}

// Dump dumps an image with a rule and records all rows.
func (s *Scen) Dump(kind, h, fam, t, rule string, b []byte) *inf.IpData {
	var ret *inf.IpData
	s.Do(M{"op": "dump", "kind": kind, "h": h, "rule": rule, "t": t}, func() M {
		d, err := format.GetDumpFormat(kind)(b, export.ParseRule(rule))
		if err != nil {
			return outOf(err)
		}
		ret = d
		return M{"out": "ok", "res": projTable(d, fam)}
	})
	return ret
}

// Agree asks for addresses of dumped rows.
func (s *Scen) Agree(db *query.Db, d *inf.IpData, t, fam string, n int) {
	w := width(fam)
	order := s.r.Perm(len(d.Ips))
	if len(order) > n {
		order = order[:n]
	}
	s.Do(M{"op": "agree", "t": t}, func() M {
		q := A{}
		for _, i := range order {
			p := projNet(d.Ips[i].Cidr, fam)
			if strings.HasPrefix(p, "!") {
				continue
			}
			for _, a := range []string{firstOf(p, w), lastOf(p, w), p + randBits(s.r, w-len(p))} {
				q = append(q, append(A{i + 1}, q1(db, a, s.form(a))...))
			}
		}
		return M{"q": q, "out": "ok"}
	})
}

var ruleNames = append(append([]string{}, commonFields...), "utcOffset", "owner", "zip", "")

// randRule makes a rule, mostly well formed, over names and values that occur.
// like is a text that is easily taken for v.
func like(r *rand.Rand, v string) string {
	switch r.Intn(9) {
	case 0:
		return strings.ToLower(v)
	case 1:
		return strings.ToUpper(v)
	case 2:
		return v + " "
	case 3:
		return " " + v
	case 4:
		return v + "!"
	case 5:
		return "!" + v
	case 6:
		if q := []rune(v); len(q) > 1 {
			return string(q[:len(q)-1])
		}
	case 7:
		return v + "a"
	case 8:
		return "a" + v
	}
	return v
}

func randRule(r *rand.Rand, values []string) string {
	names := append([]string(nil), ruleNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	fields := names[:1+r.Intn(6)]
	if r.Intn(3) == 0 {
		fields = append([]string(nil), commonFields...)
		r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	}
	if fields[0] == "" { // a rule starting with an empty name is no rule
		if len(fields) == 1 {
			fields = names[:2]
		}
		fields[0], fields[1] = fields[1], fields[0]
	}
	rule := strings.Join(fields, ",")
	for k := r.Intn(4); k > 0; k-- {
		f := fields[r.Intn(len(fields))]
		if r.Intn(10) == 0 {
			f = "nofield"
		}
		var vs []string
		for n := 1 + r.Intn(3); n > 0; n-- {
			v := pick(r, values)
			if len(v) > 200 || strings.ContainsAny(v, "|,:=!/\t\n") {
				v = ""
			}
			if r.Intn(4) == 0 {
				v = like(r, v)
			}
			vs = append(vs, v)
		}
		var kept []string
		for n := 1 + r.Intn(3); n > 0; n-- {
			g := fields[r.Intn(len(fields))]
			if r.Intn(16) == 0 {
				g = "nofield"
			}
			kept = append(kept, g)
		}
		not := ""
		if r.Intn(2) == 0 {
			not = "!"
		}
		cond := f + "=" + not + strings.Join(vs, "/") + ":" + strings.Join(kept, ",")
		switch r.Intn(14) {
		case 0:
			cond = strings.Replace(cond, ":", "", 1)
		case 1:
			cond = strings.Replace(cond, "=", "", 1)
		case 2:
			cond = strings.Replace(cond, "=", "==", 1)
		case 3:
			cond = strings.Replace(cond, ":", "::", 1)
		case 4:
			cond = ""
		}
		rule += "|" + cond
	}
	return rule
}

func (t *Table) values() []string {
	ret := []string{"", "中国"}
	for _, r := range t.Recs {
		ret = append(ret, r...)
	}
	return ret
}

func (s *Scen) dumpAll(kind, fam string, b []byte, db *query.Db, rules []string) {
	for i, rule := range rules {
		name := "o" + itoa(i)
		d := s.Dump(kind, "f", fam, name, rule, b)
		if d != nil && db != nil {
			s.Agree(db, d, name, fam, 20)
		}
	}
}

func famDump(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("dump", func(s *Scen) {
			fam := fams[i%2]
			n := 1 + s.r.Intn(40)
			gaps := 0.0
			if s.r.Intn(5) == 0 {
				s.tag = "gaps"
				gaps = 0.15
			}
			t := randTable(s.r, fam, n, gaps)
			if s.r.Intn(3) == 0 {
				s.r.Shuffle(len(t.Rows), func(i, j int) { t.Rows[i], t.Rows[j] = t.Rows[j], t.Rows[i] })
			}
			if gaps > 0 && s.r.Intn(2) == 0 && len(t.Rows) > 1 {
				// only the last, or only the first address is missing
				k := 0
				if s.r.Intn(2) == 0 {
					k = len(t.Rows) - 1
				}
				t.Rows = append(t.Rows[:k:k], t.Rows[k+1:]...)
			}
			s.Table("t", t)
			b := s.Pack(".ipdb", "t", "f", t.build(s.r))
			if b == nil {
				return
			}
			db := s.Open(".ipdb", "f", "d", b)
			s.dumpAll(".ipdb", fam, b, db, []string{"", strings.Join(append([]string{}, commonFields...), ","), randRule(s.r, t.values()), randRule(s.r, t.values()), export.DefaultRule})
		})
	}
	for k := 0; k < 2; k++ {
		k := k
		c.Scenario("dumpbig", func(s *Scen) {
			fam := fams[k]
			t := randTable(s.r, fam, 900, 0)
			s.Table("t", t)
			b := s.Pack(".ipdb", "t", "f", t.build(s.r))
			if b == nil {
				return
			}
			db := s.Open(".ipdb", "f", "d", b)
			s.dumpAll(".ipdb", fam, b, db, []string{""})
		})
	}
}

// embedTiling puts a small set of networks of a w-bit space below base and
// covers the rest of the space.
func embedNets(nets []string, small int, base string, w int) ([]string, *Tiling) {
	til := newTiling(w)
	til.burrow(base+zeros(w-len(base)), len(base))
	var ret []string
	for _, p := range nets {
		ret = append(ret, base+p)
	}
	return ret, til
}

func (s *Scen) genBase(w, small int) string {
	depths := []int{0, 0, 1, 5, 8, 13, 14, 15, 16, 23, 24, w - small, w - small}
	if w == 128 {
		depths = append(depths, 64, 79, 80, 95, 96, 97, 120, w-small)
	}
	return fix(randAddr(s.r, w), s.r, w)[:depths[s.r.Intn(len(depths))]]
}

// famDumpGen dumps databases with every small set of networks somewhere.
func famDumpGen(c *Ctx) {
	for i, m := range c.scen {
		i, m := i, m
		c.Scenario("dumpgen", func(s *Scen) {
			fam := fams[(i+int(c.seed))%2]
			w := width(fam)
			small := int(m["w"].(float64))
			base := s.genBase(w, small)
			var nets []string
			for _, p := range m["nets"].([]interface{}) {
				nets = append(nets, p.(string))
			}
			rows, til := embedNets(nets, small, base, w)
			delete(til.nets, base)
			t := &Table{Fam: fam, Fields: []string{"country", "isp"}, Ver: randVersion(s.r, fam), Share: true}
			t.Recs = [][]string{{"rest", "r"}, {"", ""}, {"a", "b"}}
			for _, p := range til.sorted() {
				t.Rows = append(t.Rows, Row{p, 1})
			}
			for _, p := range rows {
				t.Rows = append(t.Rows, Row{p, 1 + s.r.Intn(3)})
			}
			s.r.Shuffle(len(t.Rows), func(i, j int) { t.Rows[i], t.Rows[j] = t.Rows[j], t.Rows[i] })
			s.Table("t", t)
			b := s.Pack(".ipdb", "t", "f", t.build(s.r))
			if b == nil {
				return
			}
			s.dumpAll(".ipdb", fam, b, nil, []string{""})
		})
	}
}

func (s *Scen) awOpen(t *AwTable) (*query.Db, []byte) {
	st := t.step()
	st["h"] = "f"
	b := t.image(s.r)
	st["ver"].(M)["count"] = t.Nodes
	s.steps = append(s.steps, st)
	return s.Open(".awdb", "f", "d", b), b
}

// awLook asks the reader itself.
func (s *Scen) awLook(b []byte, addrs []string) {
	rd, err := awdb.FromBytes(b)
	if err != nil {
		return
	}
	s.Do(M{"op": "awlook", "h": "f"}, func() M {
		q := A{}
		for _, a := range addrs {
			q = append(q, awLook1(rd, a))
		}
		return M{"q": q, "out": "ok"}
	})
}

func awRec(v interface{}) M {
	m := M{}
	if x, ok := v.(map[string]interface{}); ok {
		for k, e := range x {
			m[k] = fmt.Sprintf("%s", e)
		}
	}
	if len(m) == 0 {
		m["!"] = "none"
	}
	return m
}

func awLook1(rd *awdb.Reader, a string) (ret A) {
	defer func() {
		if e := recover(); e != nil {
			ret = A{a, "panic", fmt.Sprint(e), M{"!": "none"}, M{"!": "none"}, M{"!": "none"}}
		}
	}()
	ip := net.IP(bytesOfBits(a))
	var rec, rec2, rec3 interface{}
	n, found, err := rd.LookupNetwork(ip, &rec)
	if err != nil {
		return A{a, "err", "", M{"!": "none"}, M{"!": "none"}, M{"!": "none"}}
	}
	if err := rd.Lookup(ip, &rec2); err != nil {
		rec2 = nil
	}
	off, err := rd.LookupOffset(ip)
	if err == nil && off != awdb.NotFound {
		if err := rd.Decode(off, &rec3); err != nil {
			rec3 = nil
		}
	}
	out := "none"
	p := ""
	if found {
		out = "ok"
		size, bits := n.Mask.Size()
		p = fmt.Sprintf("!%v", n)
		if b := bitsOfBytes(n.IP); len(b) == bits && !strings.Contains(b[size:], "1") {
			p = itoa(bits) + ":" + b[:size]
		}
	}
	return A{a, out, p, awRec(rec), awRec(rec2), awRec(rec3)}
}

// awIter iterates within a network; within "" and all = true means Networks().
func (s *Scen) awIter(b []byte, fam, within string, all bool) {
	rd, err := awdb.FromBytes(b)
	if err != nil {
		return
	}
	w := width(fam)
	s.Do(M{"op": "iter", "h": "f", "within": within}, func() M {
		var it *awdb.Networks
		if all {
			it = rd.Networks()
		} else {
			n := netOf(within, w)
			n.IP = net.IP(bytesOfBits(within + randBits(s.r, w-len(within)))) // host bits do not matter
			if s.r.Intn(2) == 0 {
				n = netOf(within, w)
			}
			it = rd.NetworksWithin(n)
		}
		rows, recs := A{}, A{}
		pool := map[string]int{}
		for it.Next() {
			var rec interface{}
			n, err := it.Network(&rec)
			if err != nil {
				return M{"out": "err", "why": err.Error()}
			}
			m := awRec(rec)
			k := fmt.Sprint(m)
			i, ok := pool[k]
			if !ok {
				recs = append(recs, m)
				i = len(recs)
				pool[k] = i
			}
			rows = append(rows, A{projNet(n, fam), i})
			if len(rows) > 100000 {
				return M{"out": "endless"}
			}
		}
		if it.Err() != nil {
			return M{"out": "err", "why": it.Err().Error()}
		}
		return M{"out": "ok", "rows": rows, "recs": recs}
	})
}

func (s *Scen) awAll(t *AwTable, rules []string) {
	db, b := s.awOpen(t)
	if db != nil {
		addrs := t.probes(s.r, 60)
		s.Queries(db, "d", addrs, nil)
		s.awLook(b, addrs)
	}
	s.dumpAll(".awdb", t.Fam, b, db, rules)
	s.awIter(b, t.Fam, "", true)
	for k := 0; k < 4; k++ {
		var p string
		if len(t.Rows) > 0 {
			p = t.Rows[s.r.Intn(len(t.Rows))].Net
		}
		switch s.r.Intn(5) {
		case 0:
			p = p[:s.r.Intn(len(p)+1)]
		case 1:
			if len(p) > 0 {
				p = p[:len(p)-1]
			}
		case 2:
			if w := width(t.Fam); len(p) < w {
				p += randBits(s.r, 1+s.r.Intn(w-len(p)))
			}
		case 3:
			w := width(t.Fam)
			p = randBits(s.r, w)[:s.r.Intn(w+1)]
		}
		s.awIter(b, t.Fam, p, false)
	}
}

func awValues(t *AwTable) []string {
	ret := []string{"", "中国"}
	for _, r := range t.Recs {
		for _, k := range sortedKeys(r) {
			ret = append(ret, r[k])
		}
	}
	return ret
}

func famAwdb(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("awdb", func(s *Scen) {
			fam := fams[i%2]
			gaps := 0.0
			if s.r.Intn(2) == 0 {
				gaps = s.r.Float64()
			}
			t := randAw(s.r, fam, 2+s.r.Intn(30), gaps)
			if s.r.Intn(4) == 0 {
				t.Spread = []int{3000, 600000, 5000000}[s.r.Intn(3)]
			}
			if s.r.Intn(4) == 0 { // values that hold what the metadata begins with
				for _, m := range t.Recs {
					if s.r.Intn(2) == 0 {
						m[pick(s.r, awFields)] = pick(s.r, []string{"", "a"}) + "\xAB\xCD\xEFipplus360.com" + pick(s.r, []string{"", "b"})
					}
				}
			}
			s.awAll(t, []string{"", randRule(s.r, awValues(t)), strings.Join(commonFields, ",")})
		})
	}
}

// famAwLarge puts data far away: pointers with the top bits in use.
func famAwLarge(c *Ctx) {
	sizes := []struct{ bits, spread int }{{24, 1<<24 - 60000}, {28, 1<<28 - 60000}, {28, 1<<27 + 12345}, {32, 1<<28 + 1<<20}}
	if c.tier == "thorough" {
		sizes = append(sizes, struct{ bits, spread int }{32, 1<<31 + 1<<20})
	}
	for k, z := range sizes {
		k, z := k, z
		c.Scenario("awlarge", func(s *Scen) {
			t := randAw(s.r, fams[k%2], 30, 0.1)
			t.Bits, t.Spread = z.bits, z.spread
			db, b := s.awOpen(t)
			if db != nil {
				s.Queries(db, "d", t.probes(s.r, 150), nil)
			}
			s.awIter(b, t.Fam, "", true)
		})
	}
}

// famAwdbGen: every small set of networks, below ::/96, at the end of it and
// elsewhere.
func famAwdbGen(c *Ctx) {
	for i, m := range c.scen {
		i, m := i, m
		c.Scenario("awdbgen", func(s *Scen) {
			fam := fams[(i+int(c.seed))%2]
			w := width(fam)
			small := int(m["w"].(float64))
			base := s.genBase(w, small)
			if fam == "6" && s.r.Intn(2) == 0 {
				base = zeros(93 + s.r.Intn(7))
			}
			var nets []string
			for _, p := range m["nets"].([]interface{}) {
				nets = append(nets, p.(string))
			}
			rows, til := embedNets(nets, small, base, w)
			if base == "" && len(nets) == 1 && nets[0] == "" {
				return
			}
			t := &AwTable{Fam: fam, Bits: []int{24, 28, 32}[i%3], Type: "t", Langs: []string{"cn"}}
			t.Recs = []map[string]string{{"country": "rest"}, {"country": "a", "isp": "b"}, {"city": "c", "asnumber": "7"}}
			delete(til.nets, base)
			for _, p := range til.sorted() {
				if s.r.Intn(4) > 0 || fam == "4" {
					t.Rows = append(t.Rows, Row{p, 1})
				}
			}
			for _, p := range rows {
				t.Rows = append(t.Rows, Row{p, 1 + s.r.Intn(3)})
			}
			s.awAll(t, []string{""})
		})
	}
}
