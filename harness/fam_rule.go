package main

import (
	"strings"

	"github.com/qiniu/uip/db/field/export"
)

func init() {
	families["export"] = famExport
	families["exportgen"] = famExportGen
}

// Export runs one rule over several records.
func (s *Scen) Export(rule string, fmap [][2]string, recs []map[string]string) {
	s.Do(M{"op": "export", "rule": rule, "map": pairs(fmap), "recs": recordPairs(recs)}, func() M {
		e := export.ParseRule(rule)
		m := map[string]string{}
		for _, p := range fmap {
			m[p[0]] = p[1]
		}
		sel := export.Select(m, e.Fields())
		rows := A{}
		for _, r := range recs {
			rows = append(rows, strs(e.Export(sel, r)))
		}
		return M{"out": "ok", "fields": strs(e.Fields()), "rows": rows}
	})
}

func pairs(p [][2]string) A {
	ret := A{}
	for _, x := range p {
		ret = append(ret, A{x[0], x[1]})
	}
	return ret
}

func recordPairs(recs []map[string]string) A {
	ret := A{}
	for _, r := range recs {
		q := A{}
		for _, k := range sortedKeys(r) {
			q = append(q, A{k, r[k]})
		}
		ret = append(ret, q)
	}
	return ret
}

func famExport(c *Ctx) {
	for i := 0; i < c.n; i++ {
		c.Scenario("rule", func(s *Scen) {
			for k := 0; k < 6; k++ {
				// names inside the source differ from the names of the rule
				var fmap [][2]string
				for _, f := range commonFields {
					if s.r.Intn(6) > 0 {
						fmap = append(fmap, [2]string{f, pick(s.r, []string{f, "src_" + f, strings.ToUpper(f)})})
					}
				}
				var recs []map[string]string
				values := []string{"", "中国"}
				for n := 0; n < 5; n++ {
					m := map[string]string{}
					for _, p := range fmap {
						if s.r.Intn(6) > 0 {
							m[p[1]] = randValue(s.r, p[0])
							if s.r.Intn(3) == 0 {
								m[p[1]] = pick(s.r, values)
							}
							if s.r.Intn(5) == 0 {
								m[p[1]] = like(s.r, pick(s.r, values))
							}
							values = append(values, m[p[1]])
						}
					}
					m["other"] = "o"
					recs = append(recs, m)
				}
				rule := randRule(s.r, values)
				if k == 0 {
					rule = export.DefaultRule
				}
				s.Export(rule, fmap, recs)
			}
		})
	}
}

func famExportGen(c *Ctx) {
	for i, m := range c.scen {
		m := m
		_ = i
		c.Scenario("rulegen", func(s *Scen) {
			var recs []map[string]string
			for n := 0; n < 10; n++ {
				r := map[string]string{"q": "q"}
				for _, f := range []string{"a", "b", "c"} {
					if s.r.Intn(8) > 0 {
						r["_"+f] = pick(s.r, []string{"", "x", "y", "x", "y", "X", "x ", "xy"})
					}
				}
				recs = append(recs, r)
			}
			s.Export(m["rule"].(string), [][2]string{{"a", "_a"}, {"b", "_b"}, {"c", "_c"}}, recs)
		})
	}
}
