package main

import (
	"fmt"
	"math/rand"
)

func init() {
	families["ipdb"] = famIpdb
	families["ipdbgen"] = famIpdbGen
	families["forms"] = famForms
}

var fams = []string{"4", "6", "46"}

func (s *Scen) packQuery(t *Table, probes int) {
	s.Table("t", t)
	d := t.build(s.r)
	b := s.Pack(".ipdb", "t", "f", d)
	if b == nil {
		return
	}
	db := s.Open(".ipdb", "f", "d", b)
	if db == nil {
		return
	}
	s.Queries(db, "d", t.probes(s.r, probes), nil)
}

// random tables, small and large, complete and with gaps, shuffled, with
// overlapping and repeated networks offered in between.
func famIpdb(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("random", func(s *Scen) {
			fam := fams[i%3]
			n := 1 + s.r.Intn(12)
			if s.r.Intn(3) == 0 {
				n = 12 + s.r.Intn(60)
			}
			gaps := 0.0
			if s.r.Intn(2) == 0 {
				gaps = s.r.Float64()
			}
			t := randTable(s.r, fam, n, gaps)
			if len(t.Rows) > 0 && s.r.Intn(2) == 0 {
				s.tag = "overlap"
				t.overlap(s.r)
			}
			if s.r.Intn(3) == 0 {
				s.r.Shuffle(len(t.Rows), func(i, j int) { t.Rows[i], t.Rows[j] = t.Rows[j], t.Rows[i] })
			}
			s.packQuery(t, 80)
		})
	}
	// the whole space, its halves and quarters, one after the other
	tops := []string{"", "0", "1", "00", "10"}
	for k := 0; k < 3*len(tops)*len(tops); k++ {
		k := k
		c.Scenario("tops", func(s *Scen) {
			t := &Table{Fam: fams[k%3], Fields: []string{"country", "city"}, Ver: randVersion(s.r, fams[k%3])}
			nets := []string{tops[k/3%len(tops)], tops[k/3/len(tops)]}
			if s.r.Intn(2) == 0 {
				nets = append(nets, pick(s.r, tops))
			}
			for i, p := range nets {
				t.Recs = append(t.Recs, []string{fmt.Sprint("top", i), "x"})
				t.Rows = append(t.Rows, Row{p, i + 1})
			}
			s.packQuery(t, 8)
		})
	}
	for k := 0; k < 3; k++ {
		c.Scenario("longrecord", func(s *Scen) {
			t := randTable(s.r, fams[k], 8, 0.2)
			if len(t.Rows) == 0 {
				return
			}
			for i := range t.Recs {
				for j := range t.Recs[i] {
					t.Recs[i][j] = fmt.Sprint("L", i, "-", j)
				}
			}
			// records of exactly 65535, 65534, 32768, 256, 255 bytes
			for i, size := range []int{65535, 65534, 32768, 32767, 256, 255} {
				if i < len(t.Recs) {
					v := t.Recs[i]
					total := len(v) - 1
					for _, x := range v {
						total += len(x)
					}
					pad := make([]byte, size-total)
					for j := range pad {
						pad[j] = 'a' + byte((i+j)%26)
					}
					v[s.r.Intn(len(v))] += string(pad)
				}
			}
			s.packQuery(t, 12)
		})
	}
	for k := 0; k < 2; k++ {
		c.Scenario("big", func(s *Scen) {
			s.bigTable(fams[k], c.tier == "thorough")
		})
	}
	c.Scenario("hugeData", func(s *Scen) {
		s.hugeData()
	})
}

// overlap inserts networks that clash with, or repeat, others.
func (t *Table) overlap(r *rand.Rand) {
	w := width(t.Fam)
	k := 1 + r.Intn(4)
	for i := 0; i < k; i++ {
		p := t.Rows[r.Intn(len(t.Rows))].Net
		var q string
		switch r.Intn(4) {
		case 0:
			q = p
		case 1:
			if len(p) == 0 {
				continue
			}
			q = p[:r.Intn(len(p))]
		case 2:
			if len(p) > 0 {
				q = p[:len(p)-1]
			}
		default:
			if len(p) == w {
				continue
			}
			q = p + randBits(r, 1+r.Intn(w-len(p)))
			if r.Intn(2) == 0 {
				q = q[:len(p)+1]
			}
		}
		rec := append([]string(nil), t.Recs[0]...)
		rec[r.Intn(len(rec))] = fmt.Sprintf("offered%d", i)
		t.Recs = append(t.Recs, rec)
		at := r.Intn(len(t.Rows) + 1)
		if r.Intn(3) > 0 {
			at = len(t.Rows)
		}
		t.Rows = append(t.Rows[:at], append([]Row{{q, len(t.Recs)}}, t.Rows[at:]...)...)
	}
}

// bigTable has more than 65536 nodes and more than 128 KB of data.
func (s *Scen) bigTable(fam string, deep bool) {
	s.packQuery(s.manyNodes(fam, deep), 400)
}

func (s *Scen) manyNodes(fam string, deep bool) *Table {
	t := &Table{Fam: fam, Fields: []string{"country", "city", "asn"}, Ver: randVersion(s.r, fam)}
	w := width(fam)
	n := 6000
	if fam == "6" {
		n = 1500
	}
	if deep {
		n *= 6
	}
	til := newTiling(w)
	dense := fix(randAddr(s.r, w), s.r, w)[:w-14]
	til.burrow(dense+zeros(14), w-14)
	for i := 0; i < n; i++ {
		switch i % 3 {
		case 0:
			til.burrow(randBits(s.r, w), w-s.r.Intn(10))
		case 1:
			p := til.holder(randBits(s.r, w))
			if len(p) < w {
				til.burrow(p+randBits(s.r, w-len(p)), len(p)+1)
			}
		default:
			til.burrow(dense+randBits(s.r, 14), w)
		}
		if len(til.nets) > n {
			break
		}
	}
	for i, p := range til.sorted() {
		if i%17 == 3 {
			continue
		}
		k := len(t.Recs)
		if i%3 == 0 || k == 0 {
			rec := []string{"国" + fmt.Sprint(i), fmt.Sprint("city of ", i), fmt.Sprint(i * 7)}
			// 64 bytes each with its length, so that offsets repeat modulo 65536
			for n := len(rec[0]) + len(rec[1]) + len(rec[2]) + 2; n < 62; n++ {
				rec[1] += "."
			}
			t.Recs = append(t.Recs, rec)
			k = len(t.Recs)
		} else {
			k = 1 + s.r.Intn(k)
		}
		t.Rows = append(t.Rows, Row{p, k})
	}
	return t
}

// hugeData puts data far behind the nodes: offsets above 1<<24.
func (s *Scen) hugeData() {
	t := &Table{Fam: "4", Fields: []string{"country", "owner", "city"}, Ver: randVersion(s.r, "4")}
	for i := 0; i < 300; i++ {
		pad := make([]byte, 60000)
		for j := range pad {
			pad[j] = 'A' + byte((i*31+j/97)%26)
		}
		_ = pad
		t.Recs = append(t.Recs, []string{fmt.Sprint("c", i), "", fmt.Sprint("x", i)})
	}
	for i := 0; i < 300; i++ {
		p := bitsOfBytes([]byte{byte(i % 251), byte(i * 7), byte(i)})[:24]
		t.Rows = append(t.Rows, Row{p, i + 1})
	}
	seen := map[string]bool{}
	var rows []Row
	for _, r := range t.Rows {
		if !seen[r.Net] {
			rows = append(rows, r)
		}
		seen[r.Net] = true
	}
	t.Rows = rows
	s.Table("t", t)
	d := t.build(s.r)
	// the owner column is not reported by queries: fill it only in the real
	// table, so that the trace stays small
	for i := range d.Ips {
		pad := make([]byte, 65000)
		for j := range pad {
			pad[j] = 'A' + byte((i*31+j/97)%26)
		}
		d.Ips[i].FieldValues[1] = string(pad)
	}
	b := s.Pack(".ipdb", "t", "f", d)
	if b == nil {
		return
	}
	if db := s.Open(".ipdb", "f", "d", b); db != nil {
		s.Queries(db, "d", t.probes(s.r, 300), nil)
	}
}

// famIpdbGen embeds the histories TLC generated from IpdbTrie in the real
// address spaces, at many depths.
func famIpdbGen(c *Ctx) {
	for i, m := range c.scen {
		i, m := i, m
		c.Scenario("gen", func(s *Scen) {
			t, addrs := s.trie(m, fams[(i+int(c.seed))%3])
			s.Table("t", t)
			b := s.Pack(".ipdb", "t", "f", t.build(s.r))
			if b == nil {
				return
			}
			db := s.Open(".ipdb", "f", "d", b)
			if db == nil {
				return
			}
			s.Queries(db, "d", addrs, nil)
		})
	}
}

// trie puts the networks TLC offered somewhere into the address space.
func (s *Scen) trie(m M, fam string) (*Table, []string) {
	w := width(fam)
	small := int(m["w"].(float64))
	var base string
	depths := []int{0, 1, 2, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 24, w - small}
	if w == 128 {
		depths = append(depths, 77, 78, 79, 80, 93, 94, 95, 96, 97, 100, 106, 107, 108, 109, 110, 111, 112, 120, w-small)
	}
	d := depths[s.r.Intn(len(depths))]
	base = fix(randAddr(s.r, w), s.r, w)[:d]
	if fam == "46" && s.r.Intn(2) == 0 {
		d = 93 + s.r.Intn(128-small-92)
		base = (mappedPrefix + randAddr(s.r, 32))[:d]
	}
	filler := make([]string, small)
	room := w - d - small
	for k := range filler {
		if s.r.Intn(3) == 0 && room > 0 {
			x := 1 + s.r.Intn(room)
			if x > 12 {
				x = 12
			}
			filler[k] = randBits(s.r, x)
			room -= x
		}
	}
	embed := func(p string) string {
		ret := base
		for k := range p {
			ret += filler[k] + p[k:k+1]
		}
		if p == "" {
			return ret
		}
		return ret
	}
	t := &Table{Fam: fam, Fields: []string{"isp", "country"}, Ver: randVersion(s.r, fam)}
	for k, o := range m["offers"].([]interface{}) {
		t.Rows = append(t.Rows, Row{embed(o.(string)), k + 1})
		t.Recs = append(t.Recs, []string{fmt.Sprint("i", k), fmt.Sprint("c", k)})
	}
	var addrs []string
	for v := 0; v < 1<<uint(small); v++ {
		a := ""
		for k := small - 1; k >= 0; k-- {
			a += string('0' + byte(v>>uint(k))&1)
		}
		e := embed(a)
		addrs = append(addrs, e+randBits(s.r, w-len(e)))
	}
	for k := 0; k < 3; k++ {
		addrs = append(addrs, fix(randAddr(s.r, w), s.r, w))
	}
	r := t.Rows[s.r.Intn(len(t.Rows))].Net
	addrs = append(addrs, firstOf(r, w), lastOf(r, w))
	return t, addrs
}

// famForms asks for one address in every spelling.
func famForms(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("forms", func(s *Scen) {
			fam := fams[i%3]
			t := randTable(s.r, fam, 1+s.r.Intn(30), []float64{0, 0.3}[s.r.Intn(2)])
			s.Table("t", t)
			b := s.Pack(".ipdb", "t", "f", t.build(s.r))
			if b == nil {
				return
			}
			db := s.Open(".ipdb", "f", "d", b)
			if db == nil {
				return
			}
			for _, a := range t.probes(s.r, 20) {
				fs := forms4
				if len(a) == 128 {
					fs = forms6
				}
				s.Do(M{"op": "forms", "d": "d"}, func() M {
					q := A{}
					for _, f := range fs {
						q = append(q, q1(db, a, f))
					}
					return M{"q": q, "out": "ok"}
				})
			}
		})
	}
}
