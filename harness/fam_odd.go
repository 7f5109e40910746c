package main

import (
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/query"
)

func init() {
	families["odd"] = famOdd
	families["self"] = famSelf
	families["selfnear"] = famSelfNear
	families["selfgen"] = famSelfGen
}

// -- rows that do not fit ---------------------------------------------------------

// oddRow makes a record that has another number of values, or holds the
// separator of ipdb.
func (s *Scen) oddRow(v []string) []string {
	v = append([]string(nil), v...)
	r := s.r
	switch r.Intn(9) {
	case 0:
		return v[:len(v)-1]
	case 1:
		return v[1:]
	case 2:
		return append(v, "")
	case 3:
		return append(v, "one more")
	case 4:
		return nil
	case 5:
		return []string{}
	case 6:
		return append(v, v...)
	case 7: // as many columns once joined, but not as many values
		if len(v) > 1 {
			return append(v[:len(v)-2:len(v)-2], v[len(v)-2]+"\t"+v[len(v)-1])
		}
		return append(v, "")
	}
	i := r.Intn(len(v))
	v[i] = []string{"\t", v[i] + "\t", "\t" + v[i], "a\tb"}[r.Intn(4)]
	return v
}

func famOdd(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("odd", func(s *Scen) {
			kind := []string{".ipdb", ".scan", ".memip"}[i%3]
			fam := fams[(i/3)%3]
			if kind == ".memip" && fam == "46" {
				fam = "6"
			}
			t := randTable(s.r, fam, 1+s.r.Intn(20), []float64{0, 0.3}[s.r.Intn(2)])
			if s.r.Intn(3) == 0 {
				s.r.Shuffle(len(t.Rows), func(i, j int) { t.Rows[i], t.Rows[j] = t.Rows[j], t.Rows[i] })
			}
			if s.r.Intn(4) == 0 { // one field only
				t.Fields = t.Fields[:1]
				for k := range t.Recs {
					t.Recs[k] = t.Recs[k][:1]
				}
			}
			if len(t.Rows) > 0 && s.r.Intn(5) > 0 {
				for k := 1 + s.r.Intn(2)*s.r.Intn(3); k > 0; k-- {
					at := []int{0, len(t.Rows) - 1, s.r.Intn(len(t.Rows))}[s.r.Intn(3)]
					v := t.Recs[t.Rows[at].Rec-1]
					if len(v) == 0 {
						continue
					}
					t.Recs = append(t.Recs, s.oddRow(v))
					t.Rows[at].Rec = len(t.Recs)
				}
			} else if s.r.Intn(2) == 0 && len(t.Recs) > 0 && kind != ".ipdb" {
				for k := range t.Recs[0] {
					t.Recs[0][k] = pick(s.r, separators)
				}
			}
			s.Table("t", t)
			d := t.build(s.r)
			var b []byte
			st := M{"op": "opack", "kind": kind, "t": "t", "h": "f", "t0": time.Now().Unix()}
			s.Do(st, func() M {
				if s.r.Intn(2) == 0 {
					out, err := convert.PackBytes(kind, d)
					if err != nil {
						return outOf(err)
					}
					b = out
					return M{"out": "ok", "t1": time.Now().Unix()}
				}
				dir, err := os.MkdirTemp("", "odd")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				name := filepath.Join(dir, "t"+kind)
				if err := convert.PackFile(name, d); err != nil {
					return outOf(err)
				}
				out, err := os.ReadFile(name)
				if err != nil {
					return outOf(err)
				}
				b = out
				return M{"out": "ok", "t1": time.Now().Unix()}
			})
			if b == nil {
				return
			}
			if kind == ".ipdb" {
				if db := s.Open(".ipdb", "f", "d", b); db != nil {
					s.Queries(db, "d", t.probes(s.r, 20), nil)
				}
			} else {
				s.TextDump(kind, "f", "", "u", fam, b)
			}
		})
	}
}

// -- self checks -------------------------------------------------------------------

var selfAddrs = []string{bitsOfBytes([]byte{8, 8, 8, 8}), bitsOfBytes([]byte{119, 29, 29, 29}),
	bitsOfBytes([]byte{0x20, 1, 0x48, 0x60, 0x48, 0x60, 0, 0, 0, 0, 0, 0, 0, 0, 0x88, 0x88}),
	bitsOfBytes([]byte{0x26, 6, 0x47, 0, 0x47, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x11, 0x11})}
var selfSays = []string{"美国", "中国", "美国", "美国"}
var selfWrong = []string{"", "中国", "美国", "美国 ", " 中国", "US", "CN", "America", "美", "美国美国", "中国美国", "英国", "0"}

// nearly are values that are not quite the right one.
func nearly(ok string) []string {
	other := "中国"
	if ok == other {
		other = "美国"
	}
	return []string{other, "", ok + "香港", ok + " ", ok + "x", " " + ok, "大" + ok, ok + ok, ok[:3], ok[3:], ok + "/" + other, "US", "CN", "英国"}
}

const nearlyN = 14

// selfDb makes a database which says right, wrong, nothing or the given name about each of the addresses.
func (s *Scen) selfDb(kind, fam string, says [4]string) {
	w := width(fam)
	til := randTiling(s.r, w, 2+s.r.Intn(12))
	if len(til.nets) == 1 {
		til.burrow(randBits(s.r, w), 1)
	}
	place := func(k int) string { // of an address in the tree; "" if it has none
		a := selfAddrs[k]
		switch {
		case len(a) == w:
			return a
		case len(a) == 32 && kind == "awdb":
			return zeros(96) + a
		case len(a) == 32 && fam == "46":
			return mappedPrefix + a
		}
		return ""
	}
	depth := w - s.r.Intn(3)*s.r.Intn(w/2)
	if depth < 1 {
		depth = 1
	}
	for k := range selfAddrs {
		if p := place(k); p != "" {
			d := depth
			if len(p) > len(selfAddrs[k]) && d <= 96 {
				d = 97 + s.r.Intn(32)
			}
			til.burrow(p, d)
		}
	}
	nets := til.sorted()
	at := map[string]int{}
	for k := range selfAddrs {
		for _, n := range nets {
			if p := place(k); p != "" && strings.HasPrefix(p, n) {
				at[n] = k + 1
			}
		}
	}
	var rows []Row
	country := []string{}
	for _, n := range nets {
		c := pick(s.r, append(selfWrong, selfSays...))
		if k := at[n]; k > 0 {
			switch says[k-1] {
			case "none":
				if !(kind == "awdb" && fam == "4" && k == 1) {
					continue
				}
				c = ""
			case "right":
				c = selfSays[k-1]
			default:
				c = nearly(selfSays[k-1])[s.r.Intn(nearlyN)]
				if says[k-1] != "wrong" {
					c = says[k-1]
				}
			}
		} else if s.r.Intn(4) == 0 {
			continue
		}
		country = append(country, c)
		rows = append(rows, Row{n, len(country)})
	}
	var db *query.Db
	if kind == "ipdb" {
		t := &Table{Fam: fam, Fields: append([]string(nil), commonFields...), Rows: rows, Ver: randVersion(s.r, fam)}
		s.r.Shuffle(len(t.Fields), func(i, j int) { t.Fields[i], t.Fields[j] = t.Fields[j], t.Fields[i] })
		if s.r.Intn(12) == 0 {
			t.Fields = t.Fields[1:]
		}
		for _, c := range country {
			var v []string
			for _, f := range t.Fields {
				x := c
				if f != "country" && f != "continent" {
					x = pick(s.r, []string{"", "美国", "中国", "x"})
				} else if f == "continent" {
					x = ""
				}
				v = append(v, x)
			}
			t.Recs = append(t.Recs, v)
		}
		s.Table("t", t)
		b := s.Pack(".ipdb", "t", "f", t.build(s.r))
		if b == nil {
			return
		}
		db = s.Open(".ipdb", "f", "d", b)
	} else {
		t := &AwTable{Fam: fam, Bits: []int{24, 28, 32}[s.r.Intn(3)], Type: "self", Build: 1600000000, Langs: []string{"cn"}, Rows: rows}
		for _, c := range country {
			m := map[string]string{"city": pick(s.r, []string{"", "美国", "中国"}), "owner": "美国", "province": "中国"}
			if c != "" || s.r.Intn(2) == 0 {
				m["country"] = c
			}
			t.Recs = append(t.Recs, m)
		}
		db, _ = s.awOpen(t)
	}
	if db == nil {
		return
	}
	for k := 0; k < 2; k++ {
		s.Do(M{"op": "self", "d": "d", "fam": 4}, func() M { return outOf(db.CheckV4()) })
		s.Do(M{"op": "self", "d": "d", "fam": 6}, func() M { return outOf(db.CheckV6()) })
	}
}

func famSelf(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("self", func(s *Scen) {
			var says [4]string
			for k := range says {
				says[k] = pick(s.r, []string{"right", "right", "right", "wrong", "none"})
			}
			kind := []string{"ipdb", "awdb"}[i%2]
			fam := fams[(i/2)%3]
			if kind == "awdb" && fam == "46" {
				fam = "6"
			}
			s.selfDb(kind, fam, says)
		})
	}
}

// famSelfNear: one of the addresses is nearly right.
func famSelfNear(c *Ctx) {
	for k, ok := range selfSays {
		for i, x := range nearly(ok) {
			k, i, x := k, i, x
			c.Scenario("selfnear", func(s *Scen) {
				says := [4]string{"right", "right", "right", "right"}
				says[k] = x
				kf := [][2]string{{"ipdb", "46"}, {"ipdb", []string{"4", "6"}[k/2]}, {"awdb", "6"}, {"awdb", []string{"4", "6"}[k/2]}}[(i+int(c.seed))%4]
				s.selfDb(kf[0], kf[1], says)
			})
		}
	}
}

// famSelfGen takes what each address says from CheckAlg.
func famSelfGen(c *Ctx) {
	for _, kf := range [][2]string{{"ipdb", "4"}, {"ipdb", "6"}, {"ipdb", "46"}, {"awdb", "4"}, {"awdb", "6"}} {
		for i, m := range c.scen {
			kf, i, m := kf, i, m
			c.Scenario("selfgen", func(s *Scen) {
				var says [4]string
				for k, x := range m["ans"].([]interface{}) {
					says[k] = x.(string)
					other := c.scen[(i*5+int(c.seed))%len(c.scen)]["ans"].([]interface{})
					says[k+2] = other[k].(string)
					if kf[1] == "6" {
						says[k], says[k+2] = says[k+2], says[k]
					}
				}
				s.selfDb(kf[0], kf[1], says)
			})
		}
	}
}
