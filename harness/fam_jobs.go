package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/field/export"
	"github.com/qiniu/uip/db/field/operate"
	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

func init() {
	families["jobs"] = famJobs
}

func hash(v interface{}) string {
	b, ok := v.([]byte)
	if !ok {
		b, _ = json.Marshal(v)
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

// jobInput is one of the two inputs of each sort of job.
type jobInput struct {
	t     *Table
	seed  int64
	data  *inf.IpData // packed by several jobs at a time
	files map[string][]byte
	pool  []string
	rule  string
	ops   []int
}

// jobInputs makes two inputs; the second is often like the first but for a
// few values.
func (s *Scen) jobInputs(fam string) [2]*jobInput {
	var ret [2]*jobInput
	n := 3 + s.r.Intn(40)
	for i := range ret {
		in := &jobInput{seed: s.r.Int63(), files: map[string][]byte{}}
		fields := append([]string(nil), commonFields...)
		in.t = opTable(s.r, fam, fields, n)
		if s.r.Intn(3) > 0 { // no gaps, for dumps
			in.t.Rows = nil
			for _, p := range randTiling(s.r, width(fam), n).sorted() {
				in.t.Rows = append(in.t.Rows, Row{p, 1 + s.r.Intn(len(in.t.Recs))})
			}
		}
		if i == 1 && s.r.Intn(2) == 0 {
			t := *ret[0].t
			t.Recs = nil
			for _, v := range ret[0].t.Recs {
				v = append([]string(nil), v...)
				j := s.r.Intn(len(v))
				v[j] = opValue(s.r, t.Fields[j])
				t.Recs = append(t.Recs, v)
			}
			in.t = &t
		}
		sourceVersion(in.t.Ver)
		in.data = in.t.build(rand.New(rand.NewSource(in.seed)))
		for _, k := range packKinds {
			if b, err := convert.PackBytes(k, in.t.build(rand.New(rand.NewSource(in.seed)))); err == nil {
				in.files[k] = b
			}
		}
		aw := randAw(s.r, pick(s.r, []string{"4", "6"}), n, 0)
		in.files[".awdb"] = aw.image(s.r)
		in.pool = append(in.t.probes(s.r, 12), aw.probes(s.r, 12)...)
		in.rule = pick(s.r, []string{"", export.DefaultRule, "country,isp,city", "country,isp,city|country=!中国:country", "isp,province,asn|isp=电信:isp,asn", "isp,province,asn"})
		in.ops = s.r.Perm(4)
		ret[i] = in
	}
	return ret
}

func jobTable(d *inf.IpData, fam, kind string) string {
	m := projTable(d, fam)
	if kind == ".memip" { // the time of the dump
		delete(m["ver"].(M), "build")
		delete(m["ver"].(M), "version")
	} else if d.Version != nil {
		l := append([]string(nil), d.Version.Languages...)
		sort.Strings(l)
		m["ver"].(M)["langs"] = strs(l)
	}
	return "ok " + itoa(len(d.Ips)) + " rows " + hash(m)
}

// job is one piece of work; what it returns tells its result from others.
// later tells it again, of what was returned.
func (in *jobInput) job(what, dir string, line inf.Query, lineFile string) (res string, later func() string) {
	defer func() {
		if e := recover(); e != nil {
			res = "panic " + fmt.Sprint(e)
		}
	}()
	fail := func(err error) (string, func() string) { return "err " + errKind(err), nil }
	stays := func(f func() string) (string, func() string) { return f(), f }
	switch what {
	case "ask ipdb", "ask awdb":
		db, err := query.NewDbFromBytes("."+what[4:], in.files["."+what[4:]])
		if err != nil {
			return fail(err)
		}
		var infos []*inf.IpInfo
		q := A{}
		for _, a := range in.pool {
			i, mask, err := db.QueryStr(text(a))
			infos = append(infos, i)
			q = append(q, A{mask, errKind(err)})
		}
		v := db.VersionInfo()
		sort.Strings(v.Languages)
		return stays(func() string {
			all := append(A{}, q...)
			for _, i := range infos {
				all = append(all, projInfo(i))
			}
			return "ok " + hash(append(all, projVersion(v)))
		})
	case "dump ipdb", "dump awdb", "dump scan", "dump memip":
		kind := "." + what[5:]
		d, err := format.GetDumpFormat(kind)(in.files[kind], export.ParseRule(in.rule))
		if err != nil {
			return fail(err)
		}
		return stays(func() string { return jobTable(d, in.t.Fam, kind) })
	case "pack ipdb", "pack scan", "pack memip":
		kind := "." + what[5:]
		b, err := convert.PackBytes(kind, in.data)
		if err != nil {
			return fail(err)
		}
		return stays(func() string { return "ok " + itoa(len(canon(kind, b))) + " bytes " + digest(kind, b) })
	case "process":
		d := in.t.build(rand.New(rand.NewSource(in.seed)))
		for _, op := range operate.DefaultOperates {
			op(d)
		}
		for _, k := range in.ops {
			switch k {
			case 0:
				operate.AttachLineByCidr(d, line)
			case 1:
				operate.ReplaceLineByCidr(d, line)
			case 2:
				operate.AttachDistrict(d)
			case 3:
				operate.MergeNearNetwork(d)
			}
		}
		return stays(func() string { return jobTable(d, in.t.Fam, "") })
	case "convert":
		kind := pickN(in.seed, ".ipdb", ".scan")
		src := filepath.Join(filepath.Dir(dir), "in"+fmt.Sprint(in.seed)+kind)
		if in.seed%2 == 0 { // all in one directory
			dir += "-"
		} else {
			os.MkdirAll(dir, 0755)
			dir += "/"
		}
		var outs []string
		for _, k := range packKinds {
			outs = append(outs, dir+"out"+k)
		}
		if err := convFunctions(src, outs, in.rule, lineFile, in.seed%3 == 0); err != nil {
			return fail(err)
		}
		res = "ok"
		for i, k := range packKinds {
			b, err := os.ReadFile(outs[i])
			if err != nil {
				return fail(err)
			}
			res += " " + digest(k, b)
		}
		return res, nil
	}
	return "?", nil
}

func pickN(n int64, a ...string) string { return a[int(uint64(n)%uint64(len(a)))] }

func famJobs(c *Ctx) {
	for i, m := range c.scen {
		i, m := i, m
		c.Scenario("jobs", func(s *Scen) {
			fam := fams[i%3]
			ins := s.jobInputs(fam)
			dir, err := os.MkdirTemp(s.c.work, "jobs")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			for _, in := range ins {
				kind := pickN(in.seed, ".ipdb", ".scan")
				os.WriteFile(filepath.Join(dir, "in"+fmt.Sprint(in.seed)+kind), in.files[kind], 0644)
			}
			// a line database for all
			lt := &Table{Fam: "46", Fields: []string{"line"}, Ver: &inf.VersionInfo{IpType: inf.IpAll, Version: "l"}}
			var nets []string
			for _, row := range ins[0].t.Rows {
				nets = append(nets, row.Net)
			}
			til := newTiling(128)
			for _, p := range nets {
				if fam == "4" {
					p = mappedPrefix + p
				}
				til.burrow(firstOf(p, 128), len(p))
			}
			for _, p := range til.sorted() {
				lt.Recs = append(lt.Recs, []string{pick(s.r, lineValues)})
				lt.Rows = append(lt.Rows, Row{p, len(lt.Recs)})
			}
			lb, err := convert.PackBytes(".ipdb", lt.build(s.r))
			if err != nil {
				s.steps = append(s.steps, M{"op": "jobs", "how": "line database", "out": "err", "why": err.Error()})
				return
			}
			lineFile := filepath.Join(dir, "line.ipdb")
			os.WriteFile(lineFile, lb, 0644)
			ldb, err := query.NewDbFromBytes(".ipdb", lb)
			if err != nil {
				s.steps = append(s.steps, M{"op": "jobs", "how": "line database", "out": "err", "why": err.Error()})
				return
			}
			line := query.GetIntern(ldb)
			type job struct {
				what string
				n    int
			}
			var jobs []job
			for _, j := range m["jobs"].([]interface{}) {
				p := j.([]interface{})
				jobs = append(jobs, job{p[0].(string), int(p[1].(float64))})
			}
			digests := func() A {
				ret := A{A{"line database", hash(lb)}}
				for k, in := range ins {
					for _, kind := range sortedNames(in.files) {
						ret = append(ret, A{"file" + kind + " " + itoa(k+1), hash(in.files[kind])})
					}
					ret = append(ret, A{"table " + itoa(k+1), hash(projTable(in.data, fam))})
				}
				return ret
			}
			type kept struct {
				name  string
				later func() string
			}
			var keep []kept
			var lk sync.Mutex
			one := func(j job, n int) A {
				name := j.what + " " + itoa(j.n)
				res, later := ins[j.n-1].job(j.what, filepath.Join(dir, itoa(n)), line, lineFile)
				if later != nil {
					lk.Lock()
					keep = append(keep, kept{name, later})
					lk.Unlock()
				}
				return A{name, res}
			}
			// what was returned before
			again := func(res A) A {
				for _, k := range keep {
					res = append(res, A{k.name, k.later()})
				}
				if len(keep) > 40 {
					keep = keep[20:]
				}
				return res
			}
			alone := func() {
				s.Do(M{"op": "jobs", "how": "alone"}, func() M {
					res := A{}
					for _, j := range jobs {
						res = append(res, one(j, 0))
					}
					return M{"jobs": again(res), "ins": digests(), "out": "ok"}
				})
			}
			s.steps = append(s.steps, M{"op": "jobs", "how": "before", "jobs": A{}, "ins": digests(), "out": "ok"})
			if s.r.Intn(4) > 0 {
				alone()
			}
			for _, p := range m["phases"].([]interface{}) {
				run := p.([]interface{})
				s.Do(M{"op": "jobs", "how": "together"}, func() M {
					const times = 3
					res := make([]A, len(run))
					start := make(chan bool)
					var wg sync.WaitGroup
					for w := range run {
						w := w
						wg.Add(1)
						go func() {
							defer wg.Done()
							<-start
							for k := 0; k < times; k++ {
								res[w] = append(res[w], one(jobs[int(run[w].(float64))-1], w+1))
							}
						}()
					}
					close(start)
					wg.Wait()
					all := A{}
					for _, r := range res {
						all = append(all, r...)
					}
					return M{"jobs": again(all), "ins": digests(), "out": "ok"}
				})
			}
			alone()
		})
	}
}

func sortedNames(m map[string][]byte) []string {
	var ret []string
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}
