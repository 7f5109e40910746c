package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

func init() {
	families["readers"] = famReaders
	families["readersraw"] = famReadersRaw
	families["readersrawgen"] = famReadersRaw
}

// other is a reader in another language, in a process of its own.
type other struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startOther(cmdline string) *other {
	args := strings.Fields(cmdline)
	c := exec.Command(args[0], args[1:]...)
	in, err1 := c.StdinPipe()
	out, err2 := c.StdoutPipe()
	if err1 != nil || err2 != nil || c.Start() != nil {
		fmt.Fprintln(os.Stderr, "cannot start", cmdline)
		os.Exit(2)
	}
	return &other{c, in, bufio.NewReaderSize(out, 1<<20)}
}

func (o *other) stop() {
	if o == nil {
		return
	}
	o.in.Close()
	done := make(chan bool)
	go func() { o.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		o.cmd.Process.Kill()
		<-done
	}
}

// again is the same process, or a new one if it is not there any more.
func (o *other) again(env string) *other {
	if o != nil && o.ask("none")["out"] == "unknown request" {
		return o
	}
	o.stop()
	return startOther(os.Getenv(env))
}

// ask sends one request; a process that died or is silent for long is a crash
// or a hang.
func (o *other) ask(req string) M {
	if _, err := io.WriteString(o.in, req+"\n"); err != nil {
		return M{"out": "crash"}
	}
	ret := make(chan M, 1)
	go func() {
		for {
			l, err := o.out.ReadString('\n')
			if err != nil {
				ret <- M{"out": "crash"}
				return
			}
			if strings.HasPrefix(l, "@@") {
				var m M
				if json.Unmarshal([]byte(l[2:]), &m) != nil {
					m = M{"out": "garbled " + l}
				}
				ret <- m
				return
			}
		}
	}()
	select {
	case m := <-ret:
		return m
	case <-time.After(30 * time.Second):
		o.cmd.Process.Kill()
		return M{"out": "hang"}
	}
}

// image writes an ipdb file the way other tools do: several languages, meta
// data members in any order, records in any order.
func (t *Table) image(r *rand.Rand, langs []string, build int64) []byte {
	var node [][2]int // 0 nothing, >0 child, <0 -(record)
	node = append(node, [2]int{})
	add := func(p string, rec int) {
		n := 0
		for i := 0; i < len(p)-1; i++ {
			b := p[i] - '0'
			if node[n][b] == 0 {
				node = append(node, [2]int{})
				node[n][b] = len(node) - 1
			}
			n = node[n][b]
		}
		node[n][p[len(p)-1]-'0'] = -rec
	}
	for _, row := range t.Rows {
		p := row.Net
		if t.Fam == "4" {
			p = mappedPrefix + p
		}
		if p == "" {
			add("0", row.Rec)
			add("1", row.Rec)
		} else {
			add(p, row.Rec)
		}
	}
	data := make([]byte, 8)
	nc := len(node)
	if t.filler > 0 { // what nothing points at
		data = make([]byte, t.filler)
	}
	off := make([]int, len(t.Recs)+1)
	for _, i := range r.Perm(len(t.Recs)) {
		var parts []string
		for _, l := range langs {
			for k, v := range t.Recs[i] {
				if l == "CN" {
					parts = append(parts, v)
				} else {
					parts = append(parts, l+itoa(k))
				}
			}
		}
		s := strings.Join(parts, "\t")
		off[i+1] = len(data)
		data = append(data, byte(len(s)>>8), byte(len(s)))
		data = append(data, s...)
	}
	var nodes []byte
	for _, n := range node {
		for _, x := range n {
			v := x
			if x == 0 {
				v = nc
			} else if x < 0 {
				v = nc + off[-x]
			}
			nodes = binary.BigEndian.AppendUint32(nodes, uint32(v))
		}
	}
	binary.BigEndian.PutUint32(data[0:], uint32(nc))
	binary.BigEndian.PutUint32(data[4:], uint32(nc))
	var fields []string
	for _, f := range t.Fields {
		fields = append(fields, fileField(f))
	}
	meta := [][2]interface{}{{"build", build}, {"ip_version", map[string]int{"4": 1, "6": 2, "46": 3}[t.Fam]}, {"node_count", nc},
		{"total_size", len(nodes) + len(data)}, {"fields", fields}}
	lm := map[string]int{}
	for i, l := range langs {
		lm[l] = i * len(fields)
	}
	meta = append(meta, [2]interface{}{"languages", lm})
	if t.Ver.Version != "" {
		meta = append(meta, [2]interface{}{"version", t.Ver.Version})
	}
	if t.Ver.ExtraInfo != nil {
		meta = append(meta, [2]interface{}{"extra", t.Ver.ExtraInfo})
	}
	if r.Intn(2) == 0 {
		meta = append(meta, [2]interface{}{"remark", map[string]interface{}{"by": []string{"x"}, "n": 1}})
	}
	r.Shuffle(len(meta), func(i, j int) { meta[i], meta[j] = meta[j], meta[i] })
	sp := pick(r, []string{"", " ", "\n  "})
	var parts []string
	for _, kv := range meta {
		k, _ := json.Marshal(kv[0])
		v, _ := json.Marshal(kv[1])
		parts = append(parts, sp+string(k)+":"+sp+string(v))
	}
	m := "{" + strings.Join(parts, ",") + sp + "}"
	ret := binary.BigEndian.AppendUint32(nil, uint32(len(m)))
	ret = append(ret, m...)
	ret = append(ret, nodes...)
	return append(ret, data...)
}

var fileNames = map[string]string{"country": "country_name", "province": "region_name", "city": "city_name", "isp": "isp_domain", "asn": "asn", "continent": "continent_code",
	"utcOffset": "utc_offset", "latitude": "latitude", "longitude": "longitude", "chinaAdminCode": "china_admin_code", "district": "district", "line": "line"}

func fileField(f string) string {
	if x, ok := fileNames[f]; ok {
		return x
	}
	return f
}

// spelled writes an address in one of the plain ways.
func spelled(a, form string) string {
	ip := net.IP(bytesOfBits(a))
	switch form {
	case "mapped":
		return "::ffff:" + text(a)
	case "hexmapped":
		return "0:0:0:0:0:ffff:" + hex2(ip[0], ip[1]) + ":" + hex2(ip[2], ip[3])
	case "long":
		var g []string
		for i := 0; i < 16; i += 2 {
			g = append(g, hex2(ip[i], ip[i+1]))
		}
		return strings.Join(g, ":")
	case "short":
		var g []string
		for i := 0; i < 16; i += 2 {
			g = append(g, fmt.Sprintf("%x", int(ip[i])<<8|int(ip[i+1])))
		}
		return strings.Join(g, ":")
	case "upper":
		return strings.ToUpper(text(a))
	case "dotted":
		var g []string
		for i := 0; i < 12; i += 2 {
			g = append(g, fmt.Sprintf("%x", int(ip[i])<<8|int(ip[i+1])))
		}
		return strings.Join(g, ":") + ":" + net.IP(ip[12:]).String()
	}
	return text(a)
}

func goAsk(db *query.Db, a, form string) (m M) {
	defer func() {
		if e := recover(); e != nil {
			m = M{"out": "panic", "why": fmt.Sprint(e)}
		}
	}()
	var info *inf.IpInfo
	var err error
	switch form {
	case "bytes":
		info, _, err = db.Query(net.IP(bytesOfBits(a)))
	case "num":
		info, _, err = db.QueryU32(uint32OfBits(a))
	default:
		info, _, err = db.QueryStr(spelled(a, form))
	}
	if err != nil {
		return M{"out": "err"}
	}
	return M{"out": "ok", "rec": projInfo(info)}
}

func otherAsk(o *other, a, form string, num bool) M {
	switch {
	case form == "num" && num:
		return o.ask(fmt.Sprint("u32 ", uint32OfBits(a)))
	case form == "bytes" || form == "num":
		return o.ask(fmt.Sprintf("bytes %x", bytesOfBits(a)))
	}
	return o.ask("str " + spelled(a, form))
}

func answer(m M) A {
	rec := A{}
	if l, ok := m["rec"].([]interface{}); ok {
		rec = A(l)
	} else if l, ok := m["rec"].(A); ok {
		rec = l
	}
	out := fmt.Sprint(m["out"])
	if out != "ok" {
		rec = A{}
	}
	return A{out, rec}
}

func verOf(m M) M {
	v, ok := m["ver"].(map[string]interface{})
	if !ok {
		return nil
	}
	fl := func(k string) int { f, _ := v[k].(float64); return int(f) }
	ss := func(k string) A { l, _ := v[k].([]interface{}); return append(A{}, l...) }
	return M{"type": fl("type"), "build": fl("build"), "count": fl("count"), "version": fmt.Sprint(v["version"]), "langs": ss("langs"), "extra": ss("extra"), "v4": v["v4"], "v6": v["v6"]}
}

func (s *Scen) readers(t *Table, b []byte, java, rust *other) {
	if b == nil {
		return
	}
	db := s.Open(".ipdb", "f", "d", b)
	if db == nil {
		return
	}
	p := filepath.Join(s.c.work, "readers.ipdb")
	os.WriteFile(p, b, 0644)
	how := pick(s.r, []string{"open ", "openbytes "})
	st := s.Do(M{"op": "ropen", "h": "f", "r": "r"}, func() M {
		v := db.VersionInfo()
		gv := projVersion(v)
		gv["v4"], gv["v6"] = v.HasIpV4(), v.HasIpV6()
		mj, mr := java.ask(how+p), rust.ask(how+p)
		ret := M{"out": "ok", "outs": A{mj["out"], mr["out"]}}
		vers := A{gv}
		for _, m := range []M{mj, mr} {
			if m["out"] != "ok" {
				ret["out"] = "err"
				ret["why"] = fmt.Sprint(m["why"])
				continue
			}
			vers = append(vers, verOf(m))
		}
		ret["vers"] = vers
		return ret
	})
	if !ok(st) {
		return
	}
	addrs := t.probes(s.r, 60)
	if t.Fam != "6" {
		addrs = append(addrs, t.warmRows(s.r)...)
	}
	s.r.Shuffle(len(addrs), func(i, j int) { addrs[i], addrs[j] = addrs[j], addrs[i] })
	if len(addrs) > 90 {
		addrs = addrs[:90]
	}
	for _, rec := range t.Recs {
		for _, v := range rec {
			if len(v) > 10000 && len(addrs) > 20 {
				addrs = addrs[:20]
			}
		}
	}
	q := A{}
	for _, a := range addrs {
		f := s.spelling(a)
		q = append(q, A{a, f, answer(goAsk(db, a, f)), answer(otherAsk(java, a, f, false)), answer(otherAsk(rust, a, f, true))})
		if s.r.Intn(4) == 0 {
			java.ask("spoil")
		}
	}
	s.Do(M{"op": "rqs", "r": "r", "q": q}, func() M { return M{"out": "ok"} })
}

// spelling is one of the plain ways to ask for an address.
func (s *Scen) spelling(a string) string {
	if len(a) == 32 {
		return pick(s.r, []string{"str", "str", "mapped", "hexmapped", "bytes", "num"})
	}
	if strings.HasPrefix(a, mappedPrefix) { // one address, one spelling
		return "str"
	}
	return pick(s.r, []string{"str", "str", "long", "short", "upper", "dotted", "bytes"})
}

// famReaders opens one file with all three readers.
func famReaders(c *Ctx) {
	var java, rust *other
	defer func() { java.stop(); rust.stop() }()
	revive := func() { java, rust = java.again("UIP_JAVA"), rust.again("UIP_RUST") }
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("readers", func(s *Scen) {
			revive()
			fam := fams[i%3]
			n := 1 + s.r.Intn(40)
			gaps := []float64{0, 0.2, 0.6}[s.r.Intn(3)]
			t := randTable(s.r, fam, n, gaps)
			if s.r.Intn(4) == 0 && fam != "6" { // deep under one /12 or /14
				at := fix(randAddr(s.r, width(fam)), s.r, width(fam))
				til := newTiling(width(fam))
				for k := 0; k < n; k++ {
					til.burrow(at[:len(at)-20]+randBits(s.r, 20), len(at)-20+s.r.Intn(21))
				}
				t.Rows = nil
				for k, p := range til.sorted() {
					if s.r.Float64() >= gaps {
						t.Rows = append(t.Rows, Row{p, 1 + k%len(t.Recs)})
					}
				}
			}
			for _, rec := range t.Recs {
				for j, f := range t.Fields {
					if f == "continent" && s.r.Intn(2) == 0 {
						rec[j] = pick(s.r, []string{"AS", "EU", "NA", "SA", "AF", "OC", "AN", "亚洲", "as", ""})
					}
				}
			}
			if s.r.Intn(10) == 0 { // a long record
				k := s.r.Intn(len(t.Recs))
				t.Recs[k] = append([]string(nil), t.Recs[k]...)
				t.Recs[k][s.r.Intn(len(t.Fields))] = strings.Repeat("l", []int{127, 255, 300, 32600, 33000, 60000}[s.r.Intn(6)])
			}
			if s.r.Intn(3) == 0 { // records that end, or begin, with empty values
				for _, rec := range t.Recs {
					n := s.r.Intn(len(rec) + 1)
					for j := range rec {
						if j >= n == (i%2 == 0) {
							rec[j] = ""
						}
					}
				}
			}
			s.Table("t", t)
			if s.r.Intn(2) == 0 {
				s.readers(t, s.Pack(".ipdb", "t", "f", t.build(s.r)), java, rust)
				return
			}
			s.tag = "foreign"
			langs := pickS(s.r, [][]string{{"CN"}, {"EN", "CN"}, {"CN", "EN"}, {"JA", "CN", "EN"}})
			build := 1600000000 + s.r.Int63n(1<<28)
			if i%20 == 9 {
				t.filler = []int{1 << 16, 1 << 24, 1<<24 - 100, 1 << 25}[s.r.Intn(4)]
			}
			t0 := build
			s.steps = append(s.steps, M{"op": "pack", "kind": ".ipdb", "t": "t", "h": "f", "out": "ok", "t0": t0, "t1": t0, "langs": langs})
			s.readers(t, t.image(s.r, langs, build), java, rust)
		})
	}
}

// famReadersRaw gives the Java and the Rust reader files with odd trees and
// damaged ones.
func famReadersRaw(c *Ctx) {
	who := []string{"Java", "Rust"}
	rd := []*other{nil, nil}
	defer func() { rd[0].stop(); rd[1].stop() }()
	revive := func() { rd[0], rd[1] = rd[0].again("UIP_JAVA"), rd[1].again("UIP_RUST") }
	p := filepath.Join(c.work, "raw.ipdb")
	open := func(s *Scen, b []byte) []M {
		os.WriteFile(p, b, 0644)
		how := pick(s.r, []string{"open ", "openbytes "})
		return []M{rd[0].ask(how + p), rd[1].ask(how + p)}
	}
	for i := 0; i < c.n+len(c.scen); i++ {
		i := i
		c.Scenario("rawreaders", func(s *Scen) {
			revive()
			var f *RawFile
			if i < c.n {
				f = randRaw(s.r, "ipdb", fams[i%3])
			} else {
				f = s.rawFrom(c.scen[i-c.n], "ipdb")
			}
			b := f.image(s.r)
			st := f.step()
			st["h"] = "f"
			s.steps = append(s.steps, st)
			_, err := query.NewDbFromBytes(".ipdb", b)
			o := open(s, b)
			outs := A{fmt.Sprint(outOf(err)["out"]), o[0]["out"], o[1]["out"]}
			s.Do(M{"op": "rawrd", "h": "f", "r": "r", "outs": outs}, func() M { return M{"out": "ok"} })
			all, _ := f.probes(s.r, 25)
			q := A{}
			for _, a := range all {
				how := s.spelling(a)
				e := A{a, how}
				for k, x := range rd {
					ans := answer(M{"out": "closed"})
					if o[k]["out"] == "ok" {
						ans = answer(otherAsk(x, a, how, k == 1))
					}
					e = append(e, ans)
				}
				q = append(q, e)
				if s.r.Intn(4) == 0 {
					rd[0].ask("spoil")
				}
			}
			s.Do(M{"op": "rawrq", "r": "r", "q": q}, func() M { return M{"out": "ok"} })
		})
	}
	use := func(s *Scen, what string, vs []flip, refused bool) {
		for len(vs) > 0 {
			part := vs[:minI(200, len(vs))]
			vs = vs[len(part):]
			bad := A{}
			for _, v := range part {
				for k, m := range open(s, v.b) {
					say := func(at string, m M) {
						if len(bad) < 20 {
							bad = append(bad, A{who[k] + " " + v.what, at + fmt.Sprint(m["out"], " ", m["why"])})
						}
					}
					if refused && m["out"] == "ok" || m["out"] != "ok" && m["out"] != "err" {
						say("open ", m)
						revive()
					}
					for j := 0; j < 5 && m["out"] == "ok"; j++ {
						a := pick(s.r, flipAddrs)
						if m := rd[k].ask("str " + a); m["out"] != "ok" && m["out"] != "err" {
							say(a+" ", m)
							revive()
							break
						}
					}
				}
			}
			s.Do(M{"op": "rflip", "what": what, "n": len(part), "bad": bad}, func() M { return M{"out": "ok"} })
		}
	}
	few, all := 60, 25
	if c.tier == "thorough" {
		few, all = 1000, 1000
	}
	some := func(s *Scen, vs []flip, n int) []flip {
		s.r.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
		return vs[:minI(n, len(vs))]
	}
	for i := 0; i < (c.n+4)/5; i++ {
		i := i
		c.Scenario("rawflip", func(s *Scen) {
			revive()
			t := randTable(s.r, fams[i%3], 1+s.r.Intn(4), []float64{0, 0.4}[s.r.Intn(2)])
			if len(t.Rows) == 0 {
				return
			}
			b := t.image(s.r, pickS(s.r, [][]string{{"CN"}, {"EN", "CN"}, {"CN", "EN"}}), 1600000000)
			use(s, "byte", some(s, s.bytesFlipped(b, all), 2*few), false)
			use(s, "metadata", some(s, s.ipdbMeta(b), 2*few), false)
			m := 4 + int(binary.BigEndian.Uint32(b))
			var vs []flip
			for _, n := range s.cuts(len(b), few, m) {
				vs = append(vs, flip{fmt.Sprint("first ", n, " of ", len(b)), b[:n]})
			}
			use(s, "cut", some(s, vs, few), true)
			vs = nil
			for k := 0; k < 10; k++ {
				x := make([]byte, 1+s.r.Intn(1<<uint(s.r.Intn(12))))
				if k%2 > 0 {
					s.r.Read(x)
				}
				vs = append(vs, flip{fmt.Sprint(len(x), " bytes appended"), append(append([]byte(nil), b...), x...)})
			}
			use(s, "padded", vs, true)
			// a good file, and others that are none
			bad := A{}
			ask := func(k int, req string, refused bool) {
				m := rd[k].ask(req)
				if m["out"] != "err" && (refused || m["out"] != "ok") {
					bad = append(bad, A{who[k] + " " + req, fmt.Sprint(m["out"], " ", m["why"])})
					revive()
				}
			}
			for k := range rd {
				os.WriteFile(p, b, 0644)
				ask(k, "open "+p, false)
				for _, j := range junkStr {
					if !strings.ContainsAny(j, "\r\n") {
						ask(k, "str "+j, false)
					}
				}
				for _, n := range []int{0, 1, 3, 5, 15, 17, 32} {
					ask(k, fmt.Sprintf("bytes %x", make([]byte, n)), true)
				}
				ask(k, "open "+filepath.Join(c.work, "missing.ipdb"), true)
			}
			d, err := os.MkdirTemp("", "x") // without a dot in its name
			if err == nil {
				for _, n := range []string{"raw", "raw.awdb", "raw.", ".raw"} {
					os.WriteFile(filepath.Join(d, n), b, 0644)
					ask(0, "open "+filepath.Join(d, n), true)
				}
				os.RemoveAll(d)
			}
			s.Do(M{"op": "rflip", "what": "other", "n": len(junkStr), "bad": bad}, func() M { return M{"out": "ok"} })
		})
	}
}
