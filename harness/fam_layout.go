package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"
)

func init() {
	families["layout"] = famLayout
	families["layoutgen"] = famLayoutGen
}

// layout takes a packed ipdb apart, by the description of the format alone:
// the length of the metadata (4 bytes), the metadata (JSON), node_count nodes
// of two 4 byte numbers, records (2 bytes length, text) the numbers above
// node_count point at, counted from the end of the nodes.
func layout(b []byte) M {
	bad := func(why ...interface{}) M { return M{"out": "err", "why": fmt.Sprint(why...)} }
	if len(b) < 4 {
		return bad("a file of ", len(b), " bytes")
	}
	ml := int(binary.BigEndian.Uint32(b))
	if ml > len(b)-4 {
		return bad("metadata of ", ml, " bytes")
	}
	var meta struct {
		Type      *int           `json:"ip_version"`
		Build     *int64         `json:"build"`
		Languages map[string]int `json:"languages"`
		Count     *int           `json:"node_count"`
		Total     *int           `json:"total_size"`
		Fields    []string       `json:"fields"`
	}
	if err := json.Unmarshal(b[4:4+ml], &meta); err != nil {
		return bad("metadata: ", err)
	}
	if meta.Type == nil || meta.Build == nil || meta.Languages == nil || meta.Count == nil || meta.Total == nil || meta.Fields == nil {
		return bad("metadata lacks a value: ", string(b[4:4+ml]))
	}
	body := b[4+ml:]
	n := *meta.Count
	if n < 1 || n > len(body)/8 {
		return bad(n, " nodes in ", len(body), " bytes")
	}
	langs := A{}
	for l, o := range meta.Languages {
		langs = append(langs, A{l, o})
	}
	data := body[8*n:]
	m := M{"out": "ok", "n": n, "size": len(data), "body": len(body), "type": *meta.Type, "total": *meta.Total, "fields": strs(meta.Fields), "langs": langs}
	tree, recs := A{}, A{}
	seen := map[uint32]bool{}
	for i := 0; i < n; i++ {
		e := A{}
		for k := 0; k < 2; k++ {
			v := binary.BigEndian.Uint32(body[8*i+4*k:])
			if v > 2140000000 {
				v = 2140000000
			}
			e = append(e, v)
			if o := int(v) - n; o > 0 && !seen[v] {
				seen[v] = true
				if o+2 > len(data) || o+2+int(binary.BigEndian.Uint16(data[o:])) > len(data) {
					recs = append(recs, A{o, 0, A{}})
					continue
				}
				t := string(data[o+2 : o+2+int(binary.BigEndian.Uint16(data[o:]))])
				recs = append(recs, A{o, 1, strs(strings.Split(t, "\t"))})
			}
		}
		tree = append(tree, e)
	}
	end := A{}
	for k := 0; k < 2 && 4*k+4 <= len(data); k++ {
		end = append(end, fmt.Sprint(binary.BigEndian.Uint32(data[4*k:])))
	}
	m["tree"], m["recs"], m["end"] = tree, recs, end
	return m
}

func (s *Scen) layout(h string, b []byte, probes []string) {
	q := A{}
	for _, a := range probes {
		q = append(q, a)
	}
	s.Do(M{"op": "layout", "h": h, "q": q}, func() M { return layout(b) })
}

func famLayout(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("layout", func(s *Scen) {
			fam := fams[i%3]
			n := 1 + s.r.Intn(4)
			if fam == "4" {
				n = 1 + s.r.Intn(14)
			}
			t := randTable(s.r, fam, n, []float64{0, 0.5, s.r.Float64()}[s.r.Intn(3)])
			if len(t.Rows) > 0 && s.r.Intn(3) == 0 {
				t.overlap(s.r)
			}
			if s.r.Intn(3) == 0 {
				s.r.Shuffle(len(t.Rows), func(i, j int) { t.Rows[i], t.Rows[j] = t.Rows[j], t.Rows[i] })
			}
			for j, f := range t.Fields {
				if f == "continent" && s.r.Intn(2) == 0 {
					for k := range t.Recs {
						t.Recs[k][j] = pick(s.r, valPool["continent"])
					}
				}
			}
			probes := 60
			if i%12 == 0 { // records far apart
				probes = 20
				for k := range t.Recs {
					t.Recs[k][0] += strings.Repeat("x", 10000+s.r.Intn(9000))
				}
				for k, n := 0, len(t.Rows); k < n && len(t.Recs) > 1; k++ {
					t.Rows[k].Rec = 1 + s.r.Intn(len(t.Recs))
				}
			}
			s.Table("t", t)
			if b := s.Pack(".ipdb", "t", "f", t.build(s.r)); b != nil {
				s.layout("f", b, t.probes(s.r, probes))
			}
		})
	}
}

func famLayoutGen(c *Ctx) {
	for i, m := range c.scen {
		i, m := i, m
		c.Scenario("layoutgen", func(s *Scen) {
			if t, addrs := s.trie(m, fams[(i+int(c.seed))%3]); t != nil {
				s.Table("t", t)
				if b := s.Pack(".ipdb", "t", "f", t.build(s.r)); b != nil {
					s.layout("f", b, addrs)
				}
			}
		})
	}
}

// ipdbNodes is the number of nodes an ipdb file claims, or 0.
func ipdbNodes(b []byte) int {
	var meta struct {
		Count int `json:"node_count"`
	}
	if len(b) < 4 || len(b)-4 < int(binary.BigEndian.Uint32(b)) || json.Unmarshal(b[4:4+binary.BigEndian.Uint32(b)], &meta) != nil {
		return 0
	}
	return meta.Count
}
