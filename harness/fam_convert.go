package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

func init() {
	families["convert"] = famConvert
}

// fields every format of a conversion knows
var convFields = append(append([]string{}, commonFields...), "utcOffset", "latitude", "longitude", "chinaAdminCode")

// convRule lists known fields; conditions as in randRule.
func (s *Scen) convRule(values []string) string {
	r := s.r
	fs := append([]string(nil), convFields...)
	r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	fs = fs[:1+r.Intn(len(fs))]
	rule := strings.Join(fs, ",")
	if r.Intn(2) == 0 {
		full := randRule(r, values)
		conds := strings.Split(full, "|")[1:]
		for _, c := range conds {
			rule += "|" + c
		}
	}
	for k := r.Intn(3); k > 0; k-- {
		not := pick(r, []string{"", "!"})
		v := pick(r, values)
		if len(v) > 100 || strings.ContainsAny(v, "|,:=!/\t\n") {
			v = "中国"
		}
		rule += "|" + pick(r, fs) + "=" + not + v + "/" + pick(r, []string{"电信", "", "浙江"}) + ":" + pick(r, fs) + "," + pick(r, fs)
	}
	return rule
}

func sourceVersion(v *inf.VersionInfo) {
	if v.Version == "" {
		v.Version = "given"
	}
}

// convSource writes a source file and returns its kind, bytes and values.
func (s *Scen) convSource(fam string) (string, []byte, *Table) {
	fields := append([]string(nil), commonFields...)
	if s.r.Intn(2) == 0 {
		fields = append(fields, "utcOffset", "owner")
	}
	s.r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	if s.r.Intn(3) == 0 {
		fields = fields[:1+s.r.Intn(len(fields))]
	}
	n := 1 + s.r.Intn(30)
	kind := pick(s.r, []string{".ipdb", ".ipdb", ".scan", ".scan", ".awdb"})
	full := opTable(s.r, fam, fields, n)
	if kind != ".scan" { // no gaps
		full.Rows = nil
		til := randTiling(s.r, width(fam), n)
		last := 1
		for _, p := range til.sorted() {
			if s.r.Intn(2) == 0 {
				last = 1 + s.r.Intn(len(full.Recs))
			}
			full.Rows = append(full.Rows, Row{p, last})
		}
	}
	sourceVersion(full.Ver)
	switch kind {
	case ".awdb":
		t := randAw(s.r, fam, n, 0)
		names := map[string]string{"asn": "asnumber"}
		t.Recs = nil
		for _, rec := range full.Recs {
			m := map[string]string{}
			for i, f := range full.Fields {
				if names[f] != "" {
					f = names[f]
				}
				m[f] = rec[i]
			}
			t.Recs = append(t.Recs, m)
		}
		for i := range t.Rows {
			t.Rows[i].Rec = 1 + s.r.Intn(len(t.Recs))
		}
		st := t.step()
		st["h"] = "src"
		b := t.image(s.r)
		s.steps = append(s.steps, st)
		for _, row := range t.rows() {
			full.Rows = append(full.Rows, Row{row.Net, 1})
		}
		return kind, b, full
	case ".scan":
		for i := range full.Recs {
			for j := range full.Recs[i] {
				if s.r.Intn(20) == 0 {
					full.Recs[i][j] = pick(s.r, commas)
				}
				if full.Fields[j] == "owner" && s.r.Intn(8) == 0 {
					// a line of 90 KB, of which the rule takes little
					full.Recs[i][j] = strings.Repeat("长", 30000)
				}
			}
		}
		s.Table("t", full)
		return kind, s.TextPack(".scan", "t", "src", fam, full.build(s.r)), full
	}
	s.Table("t", full)
	return kind, s.Pack(".ipdb", "t", "src", full.build(s.r)), full
}

type convOut struct{ name, kind, h string }

// Convert converts a file into the outputs, with the converter program or
// the functions it is made of, and returns what the outputs hold.
func (s *Scen) Convert(dir, in, h, rule, lineFile, l string, lrep, again bool, outs []convOut) [][]byte {
	var ret [][]byte
	os_ := A{}
	for _, o := range outs {
		os_ = append(os_, M{"h": o.h, "kind": o.kind})
	}
	how := pick(s.r, []string{"program", "functions"})
	s.Do(M{"op": "convert", "how": how, "h": h, "rule": rule, "l": l, "lrep": lrep, "again": again, "outs": os_}, func() M {
		t0 := time.Now().Unix()
		why := ""
		var names []string
		for _, o := range outs {
			names = append(names, filepath.Join(dir, o.name))
		}
		if how == "program" {
			out, err := convProgram(s.r, in, names, rule, lineFile, lrep)
			if err != nil {
				why = out[maxI(0, len(out)-300):] + err.Error()
			}
		} else if err := convFunctions(in, names, rule, lineFile, lrep); err != nil {
			return outOf(err)
		}
		for _, o := range outs {
			b, err := os.ReadFile(filepath.Join(dir, o.name))
			if err != nil {
				return M{"out": "err", "why": fmt.Sprint("no output ", o.name, " ", why)}
			}
			ret = append(ret, b)
		}
		return M{"out": "ok", "t0": t0, "t1": time.Now().Unix()}
	})
	return ret
}

// convProgram runs the converter; what it printed.
func convProgram(r *rand.Rand, in string, names []string, rule, lineFile string, lrep bool) (string, error) {
	args := []string{"-i", in, "-o", strings.Join(names, ",")}
	if rule != export.DefaultRule || r.Intn(2) == 0 {
		args = append(args, "-r", rule)
	}
	if lineFile != "" {
		args = append(args, "-line", lineFile)
		if lrep {
			args = append(args, "-line-replace")
		}
	}
	out, err := exec.Command(os.Getenv("UIP_CONVERTER"), args...).CombinedOutput()
	return string(out), err
}

// convFunctions does what the converter does.
func convFunctions(in string, names []string, rule, lineFile string, lrep bool) error {
	ops := append([]operate.Operate{}, operate.DefaultOperates...)
	if lineFile != "" {
		lq, err := query.NewDb(lineFile)
		if err != nil {
			return err
		}
		f := operate.AttachLineByCidr
		if lrep {
			f = operate.ReplaceLineByCidr
		}
		ops = append(ops, func(d *inf.IpData) { f(d, query.GetIntern(lq)) })
	}
	ops = append(ops, operate.AttachDistrict)
	d, err := convert.DumpFile(in, rule, ops)
	if err != nil {
		return err
	}
	for _, o := range names {
		if err := convert.PackFile(o, d); err != nil {
			return err
		}
	}
	return nil
}

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// lineFile writes a line database around the networks.
func (s *Scen) lineFile(dir, fam string, nets []string) (string, string) {
	t := &Table{Fam: "46", Fields: pickS(s.r, [][]string{{"line"}, {"isp", "line"}, {"line", "country"}}), Ver: &inf.VersionInfo{IpType: inf.IpAll, Version: pick(s.r, []string{"line-2024", "l"})}}
	til := newTiling(128)
	for _, p := range nets {
		q := p
		if fam == "4" {
			q = mappedPrefix + p
		}
		switch s.r.Intn(4) {
		case 0:
			if len(q) < 128 {
				til.burrow(firstOf(q, 128), len(q)+1)
			}
		case 1:
			til.burrow(firstOf(q, 128), 128)
		case 2:
			til.burrow(firstOf(q, 128), len(q))
		}
	}
	var rows [][2]string
	for _, p := range til.sorted() {
		if s.r.Intn(8) == 0 {
			continue
		}
		v := pick(s.r, lineValues)
		rows = append(rows, [2]string{p, v})
		rec := make([]string, len(t.Fields))
		for i, f := range t.Fields {
			rec[i] = "x"
			if f == "line" {
				rec[i] = v
			}
		}
		t.Recs = append(t.Recs, rec)
		t.Rows = append(t.Rows, Row{p, len(t.Recs)})
	}
	if len(rows) == 0 {
		return "", ""
	}
	s.Table("lt", t)
	b := s.Pack(".ipdb", "lt", "lf", t.build(s.r))
	if b == nil {
		return "", ""
	}
	db := s.Open(".ipdb", "lf", "ld", b)
	if db == nil {
		return "", ""
	}
	v := db.VersionInfo()
	p := filepath.Join(dir, "line.ipdb")
	os.WriteFile(p, b, 0644)
	s.steps = append(s.steps, M{"op": "linedb", "l": "l", "rows": pairs(rows), "name": fmt.Sprintf("%s-%d", v.Version, v.Build)})
	return p, "l"
}

// check asks the outputs.
func (s *Scen) checkOut(o convOut, b []byte, fam string, t *Table) *inf.IpData {
	if o.kind == ".ipdb" {
		if db := s.Open(".ipdb", o.h, o.h+"d", b); db != nil {
			s.Queries(db, o.h+"d", t.probes(s.r, 60), nil)
		}
		return s.Dump(".ipdb", o.h, fam, o.h+"t", "", b)
	}
	return s.TextDump(o.kind, o.h, "", o.h+"t", fam, b)
}

func famConvert(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("convert", func(s *Scen) {
			s.focus = []string{"C07"}
			s.resetNorm()
			fam := fams[i%2]
			dir := filepath.Join(c.work, "conv")
			os.RemoveAll(dir)
			os.MkdirAll(dir, 0755)
			kind, b, t := s.convSource(fam)
			if b == nil {
				return
			}
			in := filepath.Join(dir, "in"+kind)
			os.WriteFile(in, b, 0644)
			rule := s.convRule(t.values())
			if s.r.Intn(4) == 0 {
				rule = export.DefaultRule
			}
			lf, l, lrep := "", "", false
			if s.r.Intn(3) == 0 {
				var nets []string
				for _, r := range t.Rows {
					nets = append(nets, r.Net)
				}
				lf, l = s.lineFile(dir, fam, nets)
				lrep = l != "" && s.r.Intn(2) == 0
			}
			outs := []convOut{{"o1.ipdb", ".ipdb", "o1"}, {"o2.scan", ".scan", "o2"}}
			if s.r.Intn(3) == 0 {
				outs[0], outs[1] = outs[1], outs[0]
			}
			if s.r.Intn(4) == 0 {
				outs = append(outs, convOut{"o3.ipdb", ".ipdb", "o3"})
			}
			res := s.Convert(dir, in, "src", rule, lf, l, lrep, false, outs)
			if len(res) < len(outs) {
				return
			}
			var fields []string
			for k, o := range outs {
				if d := s.checkOut(o, res[k], fam, t); d != nil && o.kind == ".scan" {
					fields = d.Fields
				}
			}
			if fields == nil || l != "" {
				return
			}
			// once more with the same field list
			for k, o := range outs {
				again := []convOut{{"p" + itoa(k) + ".ipdb", ".ipdb", "p" + itoa(k)}, {"q" + itoa(k) + ".scan", ".scan", "q" + itoa(k)}}
				r2 := s.Convert(dir, filepath.Join(dir, o.name), o.h, strings.Join(fields, ","), "", "", false, true, again)
				for x, r := range r2 {
					s.checkOut(again[x], r, fam, t)
				}
			}
		})
	}
}
