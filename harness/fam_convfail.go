package main

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	families["convfail"] = famConvFail
}

// tree is what a directory holds.
func treeOf(dir string) map[string]string {
	ret := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		if i.IsDir() {
			ret[p] = "<dir>"
			return nil
		}
		b, _ := os.ReadFile(p)
		ret[p] = "=" + string(b)
		return nil
	})
	return ret
}

// famConvFail: conversions in which the input, the line database or some of
// the outputs are not as they should be, into files that exist or not.
func famConvFail(c *Ctx) {
	for i, m := range c.scen {
		i, m := i, m
		c.Scenario("convfail", func(s *Scen) {
			s.focus = []string{"C36"}
			s.resetNorm()
			fam := fams[(i+int(c.seed))%2]
			dir := filepath.Join(c.work, "convf")
			os.RemoveAll(dir)
			defer os.RemoveAll(dir)
			long := m["long"].(bool)
			kind, b, t := s.failSource(fam, long)
			if b == nil {
				return
			}
			os.MkdirAll(filepath.Join(dir, "isdir.ipdb"), 0755)
			in := filepath.Join(dir, "in"+kind)
			bad := ""
			given := in
			input := m["input"].(string)
			if kind == ".scan" && input == "cut" {
				input = "format"
			}
			data := b
			switch input {
			case "missing":
				bad, given = "a missing input", filepath.Join(dir, "missing"+kind)
			case "format":
				bad, given = "an input of unknown format", filepath.Join(dir, pick(s.r, []string{"in.txt", "in", "in" + kind + ".bak", "in" + strings.ToUpper(kind)}))
				os.WriteFile(given, b, 0644)
			case "cut":
				bad, data = "a cut-off input", b[:len(b)-1-s.r.Intn(minI(len(b)-1, 40))]
			}
			os.WriteFile(in, data, 0644)
			lf, l, lrep := "", "", false
			switch m["line"] {
			case "ok":
				var nets []string
				for _, r := range t.Rows {
					nets = append(nets, r.Net)
				}
				lf, l = s.lineFile(dir, fam, nets)
				lrep = l != "" && s.r.Intn(2) == 0
			case "missing":
				bad, lf = "a missing line database", filepath.Join(dir, pick(s.r, []string{"noline.ipdb", "noline", "isdir.ipdb"}))
			}
			rule := s.convRule(t.values())
			if long {
				rule = "city,country,isp"
			}
			var names []string
			outs, os_ := []convOut{}, A{}
			for _, w := range m["outs"].([]interface{}) {
				o := w.(string)
				wrong := ""
				switch o {
				case "in":
					o = "in" + kind
				case "format":
					o, wrong = pick(s.r, []string{"x.txt", "noext", "x.awdb", "x.ipdb.gz", "x.IPDB", "", ""}), "format"
				case "dir":
					o, wrong = pick(s.r, []string{"nodir/x.ipdb", "nodir/x.scan", "nodir/deep/x.memip"}), "dir"
				case "isdir":
					o, wrong = "isdir.ipdb", "isdir"
				}
				k := filepath.Ext(o)
				outs = append(outs, convOut{o, k, "h" + o})
				if o == "" { // no name at all
					names = append(names, "")
				} else {
					names = append(names, filepath.Join(dir, o))
				}
				os_ = append(os_, M{"h": "h" + o, "kind": k, "name": o, "bad": wrong})
				if wrong != "dir" && o != "" && o != "in"+kind && o != "isdir.ipdb" && s.r.Intn(3) > 0 {
					// what is there is longer or shorter than what will be
					os.WriteFile(filepath.Join(dir, o), bytes.Repeat([]byte("older content\n"), 1+s.r.Intn(4)*s.r.Intn(4000)), 0644)
				}
			}
			before := treeOf(dir)
			reason := ""
			for _, how := range []string{"functions", "program"} {
				how := how
				st := s.Do(M{"op": "fconvert", "how": how, "h": "src", "rule": rule, "l": l, "lrep": lrep, "bad": bad, "outs": os_}, func() M {
					ret := M{"out": "ok", "t0": time.Now().Unix()}
					if how == "functions" {
						if err := convFunctions(given, names, rule, lf, lrep); err != nil {
							reason = err.Error()
							ret["out"] = "err"
							ret["why"] = reason
						}
					} else {
						said, err := convProgram(s.r, given, names, rule, lf, lrep)
						switch {
						case strings.Contains(said, "goroutine "):
							ret["out"] = "panic"
						case err != nil || reason != "" && strings.Contains(said, reason):
							ret["out"] = "err"
						}
						ret["why"] = said[maxI(0, len(said)-200):]
					}
					ret["t1"] = time.Now().Unix()
					after := treeOf(dir)
					state := A{}
					named := map[string]bool{}
					for _, n := range names {
						named[n] = true
						switch {
						case n == "":
							state = append(state, "same")
						case before[n] == after[n]:
							state = append(state, "same")
						case after[n] == "":
							state = append(state, "gone")
						default:
							state = append(state, "new")
						}
					}
					ret["state"], ret["others"], ret["which"] = state, true, ""
					for n := range after {
						if !named[n] && before[n] != after[n] {
							ret["others"], ret["which"] = false, n
						}
					}
					for n := range before {
						if after[n] == "" {
							ret["others"], ret["which"] = false, n
						}
					}
					return ret
				})
				if st["state"] == nil {
					return
				}
				seen := map[string]bool{}
				for k, o := range outs {
					if st["state"].(A)[k] == "new" && !seen[o.h] {
						seen[o.h] = true
						b, _ := os.ReadFile(names[k])
						s.checkOut(o, b, fam, t)
					}
				}
				// as it was, for the next
				for n := range treeOf(dir) {
					if before[n] == "" {
						os.RemoveAll(n)
					}
				}
				for n, v := range before {
					if v != "<dir>" {
						os.WriteFile(n, []byte(v[1:]), 0644)
					}
				}
			}
		})
	}
}

// failSource is a source, long: with a value no ipdb record can hold.
func (s *Scen) failSource(fam string, long bool) (string, []byte, *Table) {
	if !long {
		return s.convSource(fam)
	}
	full := opTable(s.r, fam, []string{"country", "city", "isp"}, 1+s.r.Intn(4))
	sourceVersion(full.Ver)
	if len(full.Rows) == 0 {
		return "", nil, nil
	}
	full.Recs[full.Rows[s.r.Intn(len(full.Rows))].Rec-1][1] = strings.Repeat("x", 65536+s.r.Intn(3))
	s.Table("t", full)
	return ".scan", s.TextPack(".scan", "t", "src", fam, full.build(s.r)), full
}
