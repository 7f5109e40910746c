package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	families["jpar"] = famJPar
}

// famJPar: threads ask one database of the Java reader, and open others.
func famJPar(c *Ctx) {
	var java *other
	defer func() { java.stop() }()
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("jpar", func(s *Scen) {
			java = java.again("UIP_JAVA")
			fam := fams[i%3]
			t := randTable(s.r, fam, 1+s.r.Intn(40), []float64{0, 0.2, 0.6}[s.r.Intn(3)])
			s.Table("t", t)
			b := s.Pack(".ipdb", "t", "f", t.build(s.r))
			if b == nil {
				return
			}
			db := s.Open(".ipdb", "f", "d", b)
			if db == nil {
				return
			}
			p := filepath.Join(c.work, "jpar.ipdb")
			os.WriteFile(p, b, 0644)
			addrs := t.probes(s.r, 20)
			if t.Fam != "6" {
				addrs = append(addrs, t.warmRows(s.r)...)
			}
			s.r.Shuffle(len(addrs), func(i, j int) { addrs[i], addrs[j] = addrs[j], addrs[i] })
			if len(addrs) > 40 {
				addrs = addrs[:40]
			}
			var spelt []string
			q := A{}
			for _, a := range addrs {
				f := s.spelling(a)
				if f == "bytes" || f == "num" {
					f = "str"
				}
				spelt = append(spelt, spelled(a, f))
				q = append(q, A{a, f, answer(goAsk(db, a, f))})
			}
			for _, n := range []int{1, 8} {
				n := n
				s.Do(M{"op": "rpar", "h": "f", "n": n, "asked": q}, func() M {
					if m := java.ask("openbytes " + p); m["out"] != "ok" {
						return M{"out": "unopened", "why": fmt.Sprint(m["why"])}
					}
					m := java.ask(fmt.Sprint("par ", n, " ", 6000, " ", s.r.Intn(1000), " ", p, " ", strings.Join(spelt, " ")))
					if m["out"] != "ok" {
						return M{"out": fmt.Sprint(m["out"]), "why": fmt.Sprint(m["why"])}
					}
					all := A{}
					for _, l := range m["all"].([]interface{}) {
						seen := A{}
						for _, x := range l.([]interface{}) {
							seen = append(seen, answer(M(x.(map[string]interface{}))))
						}
						all = append(all, seen)
					}
					return M{"out": "ok", "all": all, "vers": m["vers"]}
				})
			}
		})
	}
}
