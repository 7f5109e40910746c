package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

func init() {
	families["scan"] = famScan
	families["memip"] = famMemip
	families["pure"] = famPure
	families["fault"] = famFault
	families["damage"] = famDamage
	families["versions"] = famVersions
}

// safely runs f and tells how it ended.
func safely(f func() error) (out, why string) {
	defer func() {
		if e := recover(); e != nil {
			out, why = "panic", fmt.Sprint(e)
		}
	}()
	if err := f(); err != nil {
		return "err", err.Error()
	}
	return "ok", ""
}

// -- text ---------------------------------------------------------------------

func (s *Scen) TextPack(kind, t, h, fam string, d *inf.IpData) []byte {
	var ret []byte
	s.Do(M{"op": "tpack", "kind": kind, "t": t, "h": h}, func() M {
		b, err := convert.PackBytes(kind, d)
		if err != nil {
			return outOf(err)
		}
		ret = b
		m := M{"out": "ok"}
		if kind == ".memip" {
			m["lines"] = memLines(b, fam)
		}
		return m
	})
	return ret
}

// memLines reads memip text: first and last address, province, district,
// isp, country, continent.
func memLines(b []byte, fam string) A {
	ret := A{}
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		if l == "" {
			continue
		}
		cols := strings.Split(l, " ")
		line := A{}
		for _, c := range cols[:len(cols)-1] {
			a := "!" + c
			if fam == "4" {
				if v, err := strconv.ParseUint(c, 10, 32); err == nil {
					a = bitsOfBytes([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
				}
			} else if ip := net.ParseIP(c); ip != nil && strings.Contains(c, ":") {
				a = bitsOfBytes(ip.To16())
			}
			line = append(line, a)
		}
		view := strings.Split(cols[len(cols)-1], "-")
		for _, v := range view[1:] {
			line = append(line, v)
		}
		ret = append(ret, line)
	}
	return ret
}

func (s *Scen) TextDump(kind, h, rule, t, fam string, b []byte) *inf.IpData {
	var ret *inf.IpData
	s.Do(M{"op": "tdump", "kind": kind, "h": h, "rule": rule, "t": t}, func() M {
		d, err := format.GetDumpFormat(kind)(append([]byte(nil), b...), export.ParseRule(rule))
		if err != nil {
			return outOf(err)
		}
		ret = d
		return M{"out": "ok", "res": projTable(d, fam)}
	})
	return ret
}

func textTable(s *Scen, fam string, n int) *Table {
	gaps := []float64{0, 0, 0.3, 0.7}[s.r.Intn(4)]
	t := randTable(s.r, fam, n, gaps)
	if s.r.Intn(3) == 0 {
		s.r.Shuffle(len(t.Rows), func(i, j int) { t.Rows[i], t.Rows[j] = t.Rows[j], t.Rows[i] })
	}
	return t
}

var commas = []string{",", "a,b", ",,", "x,", ",y", "中,国", "a_b,c", "\t", "a\tb", "x\n", "\ny", "\r", "a\r", "\r\n", "a\nb,c\td", "#### ", "\n\n"}

// separators are values that hold what some text format splits at.
var separators = append(append([]string(nil), commas...), " ", "-", "a-b", "a b", "New York", "Baden-Württemberg", "- ", " 电信", "电信-", "默认 ", "保留-x", "x\r", "AS\n", "--", "1.0.0.0 - 2.0.0.0")

func famScan(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("scan", func(s *Scen) {
			fam := fams[i%3]
			n := s.r.Intn(40)
			if s.r.Intn(10) == 0 {
				n = 300
			}
			t := textTable(s, fam, n)
			for i := range t.Recs {
				for j := range t.Recs[i] {
					if s.r.Intn(12) == 0 {
						t.Recs[i][j] = pick(s.r, commas)
					}
				}
			}
			long := s.r.Intn(20) == 0 && len(t.Recs) > 0
			if long {
				t.Recs[0][0] = strings.Repeat("长", 30000) // a line of 90 KB
			}
			if len(t.Rows) > 380 {
				t.Rows = t.Rows[:380]
			}
			if s.r.Intn(12) == 0 {
				s.tag = "norows"
				t.Rows = nil
			}
			s.Table("t", t)
			d := t.build(s.r)
			b := s.TextPack(".scan", "t", "f", fam, d)
			if b == nil {
				return
			}
			plain := s.TextDump(".scan", "f", "", "u", fam, b)
			s.TextDump(".scan", "f", strings.Join(t.Fields, ","), "v", fam, b)
			s.TextDump(".scan", "f", randRule(s.r, t.values()), "w", fam, b)
			s.TextDump(".scan", "f", randRule(s.r, t.values()), "x", fam, b)
			if plain == nil {
				return
			}
			// once more from what was read
			if b2 := s.TextPack(".scan", "u", "f2", fam, plain); b2 != nil {
				s.TextDump(".scan", "f2", "", "u2", fam, b2)
			}
			if !long && s.r.Intn(2) == 0 && len(plain.Ips) > 0 {
				if img := s.Pack(".ipdb", "u", "g", plain); img != nil {
					if db := s.Open(".ipdb", "g", "d", img); db != nil {
						s.Queries(db, "d", t.probes(s.r, 20), nil)
					}
				}
			}
			s.badLines(string(b), fam, len(t.Fields))
		})
	}
}

// badLines damages one line after the other.
func (s *Scen) badLines(text, fam string, nf int) {
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if len(lines) < 4 {
		return
	}
	at := 3 + s.r.Intn(len(lines)-3)
	l := lines[at]
	if len(l) > 2000 {
		return
	}
	cols := strings.SplitN(l, "\t", 2)
	net1 := cols[0]
	vals := cols[1]
	bad := [][2]string{
		{"a value too many", l + ",x"},
		{"an empty value too many", l + ","},
		{"no tab", net1 + " " + vals},
		{"a second tab", l + "\t"},
		{"a second tab", net1 + "\t" + "\t" + vals},
		{"a tab first", "\t" + l},
		{"an address for a network", strings.Split(net1, "/")[0] + "\t" + vals},
		{"no network", "\t" + vals},
		{"a broken network", "300." + net1[1:] + "\t" + vals},
		{"a broken prefix length", strings.Split(net1, "/")[0] + "/129\t" + vals},
		{"a broken prefix length", net1 + "x\t" + vals},
		{"a space before the network", " " + l},
		{"a space after the network", net1 + " \t" + vals},
		{"an empty line", ""},
		{"only a network", net1},
		{"only values", vals},
	}
	if nf > 1 {
		bad = append(bad, [2]string{"a value too few", net1 + "\t" + vals[:strings.LastIndex(vals, ",")]})
	}
	s.r.Shuffle(len(bad), func(i, j int) { bad[i], bad[j] = bad[j], bad[i] })
	try := func(what string, text string) {
		rule := ""
		if s.r.Intn(2) == 0 {
			rule = "country,isp"
		}
		s.Do(M{"op": "badtext", "what": what}, func() M {
			_, err := format.GetDumpFormat(".scan")([]byte(text), export.ParseRule(rule))
			return outOf(err)
		})
	}
	for _, b := range bad[:5] {
		damaged := append([]string(nil), lines...)
		damaged[at] = b[1]
		try(b[0], strings.Join(damaged, "\n")+"\n")
	}
	head := append([]string(nil), lines...)
	switch s.r.Intn(4) {
	case 0:
		head[1] = "#### {"
		try("broken version", strings.Join(head, "\n")+"\n")
	case 1:
		try("header cut after the version", strings.Join(lines[:2], "\n")+"\n")
	case 2:
		try("only a title", lines[0]+"\n")
	default:
		try("empty file", "")
	}
}

func famMemip(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("memip", func(s *Scen) {
			fam := fams[i%2]
			t := textTable(s, fam, 1+s.r.Intn(50))
			if s.r.Intn(3) > 0 {
				// few records, differing in single fields
				t.Fields = append([]string(nil), commonFields...)
				s.r.Shuffle(len(t.Fields), func(i, j int) { t.Fields[i], t.Fields[j] = t.Fields[j], t.Fields[i] })
				t.Fields = t.Fields[:2+s.r.Intn(7)]
				base := make([]string, len(t.Fields))
				for j, f := range t.Fields {
					base[j] = pick(s.r, valPool[f])
				}
				n := 1 + s.r.Intn(6)
				t.Recs = nil
				for k := 0; k < n; k++ {
					v := append([]string(nil), base...)
					j := s.r.Intn(len(v))
					if s.r.Intn(4) == 0 {
						v[j] = pick(s.r, separators)
						t.Recs = append(t.Recs, v)
						continue
					}
					v[j] = pick(s.r, append([]string{"", "保留", "保留地址", "保", "默认", "其他", "香港", "澳门", "台湾", "电信", "联通", "移动", "铁通", "AS", "亚洲", "EU", "AN", "OC", "AF", "SA", "NA"}, valPool[t.Fields[j]]...))
					t.Recs = append(t.Recs, v)
				}
				for k := range t.Rows {
					t.Rows[k].Rec = 1 + s.r.Intn(n)
				}
			}
			if s.r.Intn(20) == 0 && len(t.Recs) > 0 {
				t.Recs[0][s.r.Intn(len(t.Fields))] = strings.Repeat("长", 30000)
			}
			if s.r.Intn(12) == 0 {
				s.tag = "norows"
				t.Rows = nil
			}
			s.Table("t", t)
			b := s.TextPack(".memip", "t", "f", fam, t.build(s.r))
			if b == nil && len(t.Rows) > 0 {
				return
			}
			s.TextDump(".memip", "f", "", "u", fam, b)
		})
	}
	for k := 0; k < 2; k++ {
		c.Scenario("memipbig", func(s *Scen) {
			t := randTable(s.r, fams[k], 390, 0.1)
			if len(t.Rows) > 395 {
				t.Rows = t.Rows[:395]
			}
			s.Table("t", t)
			if b := s.TextPack(".memip", "t", "f", fams[k], t.build(s.r)); b != nil {
				s.TextDump(".memip", "f", "", "u", fams[k], b)
			}
		})
	}
}

// -- packing leaves the table alone ----------------------------------------------

var buildTime = regexp.MustCompile(`"build":[ ]*-?\d+`)

// canon is the output without time stamps.
func canon(kind string, b []byte) []byte {
	switch kind {
	case ".scan":
		if i := bytes.IndexByte(b, '\n'); i >= 0 {
			return b[i:]
		}
	case ".ipdb":
		if len(b) < 4 {
			return b
		}
		n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		if n < 0 || n+4 > len(b) {
			return b
		}
		return append(buildTime.ReplaceAll(append([]byte(nil), b[4:4+n]...), []byte(`"build":0`)), b[4+n:]...)
	}
	return b
}

func digest(kind string, b []byte) string {
	h := sha256.Sum256(canon(kind, b))
	return hex.EncodeToString(h[:10])
}

var packKinds = []string{".ipdb", ".scan", ".memip"}

func (s *Scen) PurePack(kind, t, fam string, d *inf.IpData) {
	s.Do(M{"op": "ppack", "kind": kind, "t": t}, func() M {
		b, err := convert.PackBytes(kind, d)
		if err != nil {
			m := outOf(err)
			m["after"] = projTable(d, fam)
			return m
		}
		return M{"out": "ok", "digest": digest(kind, b), "after": projTable(d, fam)}
	})
}

func famPure(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("pure", func(s *Scen) {
			fam := fams[i%3]
			t := textTable(s, fam, s.r.Intn(25))
			t.Share = s.r.Intn(2) == 0
			for i := range t.Recs {
				for j := range t.Recs[i] {
					if s.r.Intn(10) == 0 {
						t.Recs[i][j] = pick(s.r, separators)
					}
				}
			}
			if s.r.Intn(2) == 0 {
				t.Fields[s.r.Intn(len(t.Fields))] = "continent"
				for i := range t.Fields {
					if t.Fields[i] == "continent" {
						for k := range t.Recs {
							t.Recs[k][i] = pick(s.r, valPool["continent"])
						}
					}
				}
				seen := false
				for i := range t.Fields {
					if t.Fields[i] == "continent" {
						if seen {
							t.Fields[i] = "again"
						}
						seen = true
					}
				}
			}
			if fam != "46" && len(t.Rows) > 0 && s.r.Intn(4) == 0 {
				t.overlap(s.r)
			}
			s.Table("t", t)
			for _, k := range packKinds { // each on its own
				s.PurePack(k, "t", fam, t.build(s.r))
			}
			d := t.build(s.r)
			if s.r.Intn(2) == 0 {
				roomy(d, s.r)
			}
			for k := 2 + s.r.Intn(6); k > 0; k-- {
				s.PurePack(pick(s.r, packKinds), "t", fam, d)
			}
		})
	}
}

// -- failing destinations ----------------------------------------------------------

var errFull = errors.New("no space left")

// faulty fails at its call number at (0-based), or when more than room bytes
// were written, once or for good.
type faulty struct {
	at, room int
	once     bool
	calls    int
	fired    bool
	hit      bool
	buf      bytes.Buffer
}

func (f *faulty) Write(b []byte) (int, error) {
	i := f.calls
	f.calls++
	bad := false
	n := 0
	if f.at >= 0 && i >= f.at {
		bad = true
	}
	if f.room >= 0 && f.buf.Len()+len(b) > f.room {
		bad = true
		if n = f.room - f.buf.Len(); n < 0 {
			n = 0
		}
	}
	if bad && !(f.once && f.fired) {
		f.hit, f.fired = true, true
		f.buf.Write(b[:n])
		return n, errFull
	}
	f.buf.Write(b)
	return len(b), nil
}

func (f *faulty) String() string {
	how := " for good"
	if f.once {
		how = " once"
	}
	if f.at >= 0 {
		return fmt.Sprint("write call ", f.at, " failed", how)
	}
	return fmt.Sprint("the destination was full after ", f.room, " bytes", how)
}

func (s *Scen) FaultPack(kind string, d *inf.IpData, f *faulty, want string, fits bool) {
	s.Do(M{"op": "fpack", "kind": kind, "fits": fits, "fault": f.String()}, func() M {
		out, why := safely(func() error { return convert.PackWriter(kind, d, f) })
		return M{"out": out, "why": why, "hit": f.hit, "complete": want == "" || digest(kind, f.buf.Bytes()) == want}
	})
}

func famFault(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("fault", func(s *Scen) {
			fam := fams[i%3]
			n := 1 + s.r.Intn(6)
			if s.r.Intn(6) == 0 {
				n = 200 // more than a buffer holds
			}
			t := textTable(s, fam, n)
			d := t.build(s.r)
			for _, kind := range packKinds {
				ref := &faulty{at: -1, room: -1}
				if out, _ := safely(func() error { return convert.PackWriter(kind, d, ref) }); out != "ok" {
					s.FaultPack(kind, d, &faulty{at: -1, room: -1}, "", true)
					continue
				}
				want := digest(kind, ref.buf.Bytes())
				size, calls := ref.buf.Len(), ref.calls
				var fs []*faulty
				for k := 0; k < 6; k++ {
					fs = append(fs, &faulty{at: s.r.Intn(calls + 1), room: -1, once: s.r.Intn(2) == 0})
				}
				for _, at := range []int{0, 1, 2, 3, calls - 1, calls} {
					if at >= 0 {
						fs = append(fs, &faulty{at: at, room: -1, once: s.r.Intn(2) == 0})
					}
				}
				for _, room := range []int{0, 1, 3, 4, 5, size - 1, size, s.r.Intn(size + 1), s.r.Intn(size + 1), s.r.Intn(size + 1), 4096, 65536} {
					if room >= 0 && room < size {
						fs = append(fs, &faulty{at: -1, room: room, once: s.r.Intn(2) == 0})
					}
				}
				fs = append(fs, &faulty{at: -1, room: -1})
				for _, f := range fs {
					s.FaultPack(kind, d, f, want, true)
				}
			}
		})
	}
	c.Scenario("oversize", func(s *Scen) {
		for _, size := range []int{65535, 65536, 65537, 70000, 131072, 131073, 200000} {
			for _, where := range []int{0, 1, 2} {
				t := randTable(s.r, fams[s.r.Intn(3)], 6, 0)
				t.Fields = []string{"country", "city"}
				t.Recs = [][]string{{"a", "b"}, {"c", strings.Repeat("x", size-2)}, {"e", "f"}}
				if s.r.Intn(2) == 0 {
					t.Recs[1] = []string{strings.Repeat("x", size-2), "c"}
				}
				for i := range t.Rows {
					t.Rows[i].Rec = 1 + 2*s.r.Intn(2)
				}
				t.Rows[(len(t.Rows)-1)*where/2].Rec = 2
				s.FaultPack(".ipdb", t.build(s.r), &faulty{at: -1, room: -1}, "", size <= 65535)
			}
		}
	})
	c.Scenario("files", func(s *Scen) {
		for k := 0; k < 8; k++ {
			fam := fams[s.r.Intn(3)]
			s.packFiles(textTable(s, fam, 1+s.r.Intn(20)), itoa(k))
		}
	})
}

func (s *Scen) packFile(dir, name, want string, d *inf.IpData, before []byte, kind string) {
	p := filepath.Join(dir, name)
	if before != nil {
		os.WriteFile(p, before, 0644)
	}
	s.Do(M{"op": "pfile", "name": name, "want": want}, func() M {
		out, why := safely(func() error { return convert.PackFile(p, d) })
		intact := true
		if want == "ok" {
			got, err := os.ReadFile(p)
			clean, err2 := convert.PackBytes(kind, d)
			intact = err == nil && err2 == nil && digest(kind, got) == digest(kind, clean)
		} else if before != nil {
			got, err := os.ReadFile(p)
			intact = err == nil && bytes.Equal(got, before)
		}
		return M{"out": out, "why": why, "intact": intact}
	})
}

func (s *Scen) packFiles(t *Table, name string) {
	dir := filepath.Join(s.c.work, "files"+name)
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	d := t.build(s.r)
	long := make([]byte, 1<<18)
	s.r.Read(long)
	short := []byte("there was something")
	for _, ext := range []string{".awdb", ".txt", "", ".", ".ipd", ".ipdbx", ".scan.gz", ".qnip", ".json"} {
		before := short
		if s.r.Intn(2) == 0 {
			before = long
		}
		s.packFile(dir, "old"+ext, "err", d, before, "")
		s.packFile(dir, "new"+ext, "err", d, nil, "")
	}
	for _, kind := range packKinds {
		s.packFile(dir, "out"+kind, "ok", d, nil, kind)
		s.packFile(dir, "out.v1.x"+kind, "ok", d, long, kind)
		s.packFile(dir, "tiny"+kind, "ok", d, short, kind)
		s.packFile(dir, "missing/out"+kind, "err", d, nil, kind)
		os.MkdirAll(filepath.Join(dir, "folder"+kind), 0755)
		s.packFile(dir, "folder"+kind, "err", d, nil, kind)
		if len(t.Rows) > 0 || kind != ".memip" { // an empty memip text has nothing to write
			if os.Symlink("/dev/full", filepath.Join(dir, "full"+kind)) == nil {
				s.packFile(dir, "full"+kind, "err", d, nil, kind)
			}
		}
	}
}

// -- damaged files ----------------------------------------------------------------

func (s *Scen) tryFile(kind string, b []byte) (string, string) {
	o, _ := safely(func() error { _, err := query.NewDbFromBytes(kind, b); return err })
	d, _ := safely(func() error { _, err := format.GetDumpFormat(kind)(b, nil); return err })
	return o, d
}

// cuts are the lengths to cut a file of n bytes at.
func (s *Scen) cuts(n, all int, marks ...int) []int {
	var ret []int
	if n <= all {
		for i := 0; i < n; i++ {
			ret = append(ret, i)
		}
		return ret
	}
	seen := map[int]bool{}
	add := func(i int) {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			ret = append(ret, i)
		}
	}
	for i := 0; i < 40; i++ {
		add(i)
		add(n - 1 - i)
	}
	for _, m := range marks {
		for i := -12; i < 12; i++ {
			add(m + i)
		}
	}
	for len(ret) < all/2 {
		add(s.r.Intn(n))
	}
	return ret
}

func (s *Scen) damage(kind string, b []byte, all int, marks ...int) {
	cuts := s.cuts(len(b), all, marks...)
	for len(cuts) > 0 {
		part := cuts[:minI(60, len(cuts))]
		cuts = cuts[len(part):]
		s.Do(M{"op": "cut", "kind": kind, "size": len(b)}, func() M {
			q := A{}
			for _, n := range part {
				o, d := s.tryFile(kind, append([]byte(nil), b[:n]...))
				q = append(q, A{n, o, d})
			}
			return M{"out": "ok", "q": q}
		})
	}
	if kind == ".ipdb" {
		s.Do(M{"op": "pad", "kind": kind, "size": len(b)}, func() M {
			q := A{}
			for _, n := range []int{1, 2, 3, 4, 7, 8, 9, 16, 100, 4096, 1 + s.r.Intn(70000)} {
				pad := make([]byte, n)
				if s.r.Intn(2) == 0 {
					s.r.Read(pad)
				}
				o, d := s.tryFile(kind, append(append([]byte(nil), b...), pad...))
				q = append(q, A{n, o, d})
			}
			return M{"out": "ok", "q": q}
		})
	}
	// the same on disk
	s.Do(M{"op": "cut", "kind": kind + " on disk", "size": len(b)}, func() M {
		q := A{}
		p := filepath.Join(s.c.work, "cut"+kind)
		defer os.Remove(p)
		for _, n := range []int{0, 1, 3, 4, len(b) / 2, len(b) - 1, s.r.Intn(len(b))} {
			if n > len(b) {
				continue
			}
			os.WriteFile(p, b[:n], 0644)
			o, _ := safely(func() error { _, err := query.NewDb(p); return err })
			d, _ := safely(func() error { _, err := convert.DumpFile(p, "", nil); return err })
			q = append(q, A{n, o, d})
		}
		return M{"out": "ok", "q": q}
	})
}

func famDamage(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("ipdbcut", func(s *Scen) {
			s.focus = []string{"C19"}
			fam := fams[i%3]
			n := 1 + s.r.Intn(4)
			all := 700
			if s.r.Intn(4) == 0 {
				n = 40
			}
			if c.tier == "thorough" {
				all = 20000
			}
			gaps := []float64{0, 0.4}[s.r.Intn(2)]
			t := randTable(s.r, fam, n, gaps)
			if s.r.Intn(3) == 0 {
				t.Fields = t.Fields[:1]
				for i := range t.Recs {
					t.Recs[i] = []string{pick(s.r, []string{"", "x"})}
				}
			}
			s.Table("t", t)
			b := s.Pack(".ipdb", "t", "f", t.build(s.r))
			if b == nil {
				return
			}
			if s.Open(".ipdb", "f", "d", b) == nil {
				return
			}
			m := int(b[2])<<8 | int(b[3])
			s.damage(".ipdb", b, all, 4, 4+m, len(b)/2)
		})
	}
	for i := 0; i < c.n/2; i++ {
		i := i
		c.Scenario("awdbcut", func(s *Scen) {
			s.focus = []string{"C19"}
			t := randAw(s.r, fams[i%2], 1+s.r.Intn(8), 0)
			db, b := s.awOpen(t)
			if db == nil {
				return
			}
			all := 900
			if c.tier == "thorough" {
				all = 20000
			}
			s.damage(".awdb", b, all, len(b)/2)
		})
	}
	c.Scenario("nofile", func(s *Scen) {
		dir := filepath.Join(c.work, "nofile")
		os.MkdirAll(dir, 0755)
		defer os.RemoveAll(dir)
		t := randTable(s.r, "4", 5, 0)
		b, _ := convert.PackBytes(".ipdb", t.build(s.r))
		try := func(what string, f func() error) {
			s.Do(M{"op": "nofile", "what": what}, func() M {
				out, why := safely(f)
				return M{"out": out, "why": why}
			})
		}
		for _, name := range []string{"missing.ipdb", "missing.awdb", "missing", "missing.xyz", "folder/missing.ipdb"} {
			p := filepath.Join(dir, name)
			try("missing "+name+" for query", func() error { _, err := query.NewDb(p); return err })
			try("missing "+name+" for dump", func() error { _, err := convert.DumpFile(p, "", nil); return err })
		}
		for _, name := range []string{"a.xyz", "ipdb", "a.ipdb.bak", "a.", "a.memip", "a.scan"} {
			p := filepath.Join(dir, name)
			os.WriteFile(p, b, 0644)
			try(name+" for query", func() error { _, err := query.NewDb(p); return err })
			if !strings.HasSuffix(name, ".scan") && !strings.HasSuffix(name, ".memip") {
				try(name+" for dump", func() error { _, err := convert.DumpFile(p, "country", nil); return err })
			}
			ext := filepath.Ext(p)
			try("bytes of kind "+ext, func() error { _, err := query.NewDbFromBytes(ext, b); return err })
		}
		for _, ext := range []string{".ipdb", ".awdb"} {
			p := filepath.Join(dir, "folder"+ext)
			os.MkdirAll(p, 0755)
			try("folder "+ext+" for query", func() error { _, err := query.NewDb(p); return err })
			try("folder "+ext+" for dump", func() error { _, err := convert.DumpFile(p, "", nil); return err })
			try("no bytes of kind "+ext, func() error { _, err := query.NewDbFromBytes(ext, nil); return err })
		}
	})
}

var _ io.Writer = (*faulty)(nil)

// -- version information --------------------------------------------------------------

var versionPool = []string{"", "v1", "ipip.net-2021-02-03", "qiniu-20240102", "0", " ", " v ", "版本 7", "\"q\"", "a\\b", "<&>", "é", "ipip.net-", strings.Repeat("long", 200), "1.2.3-rc,4", "\u2028", "null", "{}"}

func famVersions(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("versions", func(s *Scen) {
			s.focus = []string{"C28"}
			defer func(l *time.Location) { time.Local = l }(time.Local)
			if s.r.Intn(2) == 0 { // wherever the program runs
				time.Local = time.FixedZone("there", (s.r.Intn(26*60)-12*60)*60)
			}
			fam := fams[i%3]
			t := randTable(s.r, fam, 1+s.r.Intn(4), 0)
			t.Ver = &inf.VersionInfo{IpType: ipType(fam), Count: uint32(s.r.Intn(1000)), Build: int64(s.r.Intn(2000000000)),
				Version:   versionPool[(i+s.r.Intn(2)*s.r.Intn(len(versionPool)))%len(versionPool)],
				Languages: pickS(s.r, [][]string{nil, {}, {"CN"}, {"en"}, {"zh-CN", "en", "de"}, {""}})}
			for k := s.r.Intn(4); k > 0; k-- {
				t.Ver.ExtraInfo = append(t.Ver.ExtraInfo, pick(s.r, versionPool))
			}
			foreign := s.r.Intn(4) == 0
			if foreign && s.r.Intn(2) == 0 {
				t.Ver.Version = ""
			}
			s.Table("t", t)
			if foreign { // a file other tools wrote, at any time
				build := s.r.Int63n(2140000000)
				if s.r.Intn(2) == 0 { // around midnight, first and last days of months
					build = time.Date(1971+s.r.Intn(66), time.Month(1+s.r.Intn(12)), 1, 0, 0, s.r.Intn(7200)-3600, 0, time.UTC).Unix()
				}
				langs := pickS(s.r, [][]string{{"CN"}, {"EN", "CN"}, {"CN", "EN"}})
				s.steps = append(s.steps, M{"op": "pack", "kind": ".ipdb", "t": "t", "h": "g", "out": "ok", "t0": build, "t1": build, "langs": langs})
				s.Open(".ipdb", "g", "d", t.image(s.r, langs, build))
				return
			}
			d := t.build(s.r)
			kind := s.r.Intn(3)
			if kind > 0 { // by way of scan text
				b := s.TextPack(".scan", "t", "f", fam, d)
				if b == nil {
					return
				}
				if d = s.TextDump(".scan", "f", "", "u", fam, b); d == nil {
					return
				}
				b2 := s.Pack(".ipdb", "u", "g", d)
				if b2 == nil {
					return
				}
				s.Open(".ipdb", "g", "d", b2)
				if fam != "46" {
					s.Dump(".ipdb", "g", fam, "o", "", b2)
				}
				return
			}
			b := s.Pack(".ipdb", "t", "g", d)
			if b == nil {
				return
			}
			db := s.Open(".ipdb", "g", "d", b)
			if db == nil {
				return
			}
			if fam != "46" {
				s.Dump(".ipdb", "g", fam, "o", pick(s.r, []string{"", "country", export.DefaultRule}), b)
			}
			// opened later than it was packed
			if s.r.Intn(8) == 0 && t.Ver.Version == "" {
				time.Sleep(1100 * time.Millisecond)
				s.Open(".ipdb", "g", "d2", b)
			}
		})
	}
}
