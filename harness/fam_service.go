package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/qiniu/uip/db/format"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
)

func init() {
	families["history"] = famHistory
	families["historygen"] = famHistoryGen
	families["concurrent"] = famConcurrent
	families["http"] = famHttp
}

// OpenRaw opens without the standard cache.
func (s *Scen) OpenRaw(kind, h, d string, b []byte) Dbq {
	var ret Dbq
	s.Do(M{"op": "open", "kind": kind, "h": h, "d": d}, func() M {
		q, err := format.GetQueryFormat(kind)(b)
		if err != nil {
			return outOf(err)
		}
		ret = bareQ{q}
		return M{"out": "ok", "ver": projVersion(q.VersionInfo())}
	})
	return ret
}

func spoil(i *inf.IpInfo) {
	if i != nil {
		*i = inf.IpInfo{Country: "spoiled", Province: "spoiled", City: "spoiled", Isp: "spoiled", Asn: "spoiled", Continent: "spoiled", Line: "spoiled", District: "spoiled"}
	}
}

// Vers asks for the version information, and changes what it got.
func (s *Scen) Vers(d Dbq, name string) {
	s.Do(M{"op": "vers", "d": name}, func() M {
		v := intern(d).VersionInfo()
		sort.Strings(v.Languages)
		m := projVersion(v)
		spoilVer(v)
		return M{"out": "ok", "ver": m}
	})
}

func spoilVer(v *inf.VersionInfo) {
	for i := range v.Languages {
		v.Languages[i] = "spoiled"
	}
	for i := range v.ExtraInfo {
		v.ExtraInfo[i] = "spoiled"
	}
	v.ExtraInfo = append(v.ExtraInfo, "spoiled")
	v.Version, v.Build, v.Count, v.IpType = "spoiled", 1, 1, 0
}

// q1keep asks, projects, and returns the record too.
func q1keep(d Dbq, a, form string) (ret A, info *inf.IpInfo) {
	defer func() {
		if e := recover(); e != nil {
			ret = A{a, form, "panic", A{}, 0, ""}
		}
	}()
	info, n, err := ask(d, a, form)
	return qres(a, form, info, n, err), info
}

func (t *Table) warmRows(r *rand.Rand) []string {
	var ret []string
	for k := 0; k < 12; k++ {
		ret = append(ret, bitsOfBytes(net.ParseIP(warm[r.Intn(len(warm))]).To4()))
	}
	return ret
}

func textOf(a string) string { return text(a) }

// service opens one file in several ways.
func (s *Scen) service(i int) (file []byte, kind string, pool []string, dbs []Dbq, names []string) {
	if i%3 == 2 {
		t := randAw(s.r, fams[(i/3)%2], 1+s.r.Intn(20), 0.3)
		kind = ".awdb"
		st := t.step()
		st["h"] = "f"
		file = t.image(s.r)
		s.steps = append(s.steps, st)
		tt := &Table{Fam: t.Fam}
		for _, row := range t.rows() {
			tt.Rows = append(tt.Rows, row)
		}
		pool = tt.probes(s.r, 30)
	} else {
		t := randTable(s.r, fams[s.r.Intn(3)], 1+s.r.Intn(30), []float64{0, 0.3}[s.r.Intn(2)])
		kind = ".ipdb"
		s.Table("t", t)
		file = s.Pack(".ipdb", "t", "f", t.build(s.r))
		if file == nil {
			return
		}
		pool = append(t.probes(s.r, 30), t.warmRows(s.r)...)
	}
	for k, name := range []string{"d1", "d2", "d3"} {
		var d Dbq
		if k == 0 {
			db := s.Open(kind, "f", name, file)
			if db == nil {
				return file, kind, pool, nil, nil
			}
			d = db
		} else {
			if d = s.OpenRaw(kind, "f", name, file); d == nil {
				return file, kind, pool, nil, nil
			}
			if k == 2 {
				var list []string
				for _, a := range pool {
					if s.r.Intn(2) == 0 {
						list = append(list, textOf(a))
					}
				}
				intern(d).BuildCache(list)
			}
		}
		dbs = append(dbs, d)
		names = append(names, name)
	}
	return
}

func famHistory(c *Ctx) {
	// a large file, asked forwards in one database and backwards in another
	c.Scenario("histbig", func(s *Scen) {
		t := s.manyNodes("4", c.tier == "thorough")
		s.Table("t", t)
		b := s.Pack(".ipdb", "t", "f", t.build(s.r))
		if b == nil {
			return
		}
		var pool []string
		seen := map[int]bool{}
		for _, row := range t.Rows {
			if !seen[row.Rec] {
				seen[row.Rec] = true
				pool = append(pool, fix(row.Net, s.r, 32))
			}
		}
		s.r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		if len(pool) > 900 {
			pool = pool[:900]
		}
		for x, name := range []string{"d0", "d1"} {
			db := s.Open(".ipdb", "f", name, b)
			if db == nil {
				return
			}
			s.Do(M{"op": "qs", "d": name, "hist": true}, func() M {
				q := A{}
				var list []string
				for i := x; i < len(pool); i += 2 {
					list = append(list, textOf(pool[i]))
				}
				intern(db).BuildCache(list)
				for i := range pool {
					a := pool[i]
					if x == 1 {
						a = pool[len(pool)-1-i]
					}
					r, info := q1keep(db, a, s.form(a))
					q = append(q, r)
					if i%2 == 0 {
						spoil(info)
					}
				}
				return M{"q": q, "out": "ok"}
			})
		}
	})
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("history", func(s *Scen) {
			_, _, pool, dbs, names := s.service(i)
			if dbs == nil {
				return
			}
			var held []*inf.IpInfo
			for k := 0; k < 12; k++ {
				x := s.r.Intn(len(dbs))
				few := pool
				if s.r.Intn(2) == 0 {
					few = []string{pool[s.r.Intn(len(pool))], pool[s.r.Intn(len(pool))]}
				}
				s.Do(M{"op": "qs", "d": names[x], "hist": true}, func() M {
					q := A{}
					for n := 0; n < 12; n++ {
						a := few[s.r.Intn(len(few))]
						r, info := q1keep(dbs[x], a, s.form(a))
						q = append(q, r)
						if info != nil {
							held = append(held, info)
						}
						if s.r.Intn(3) == 0 {
							for _, h := range held {
								spoil(h)
							}
							held = nil
						}
						if s.r.Intn(6) == 0 {
							q = append(q, s.junk(dbs[x], pool...)...)
						}
					}
					return M{"q": q, "out": "ok"}
				})
				if s.r.Intn(4) == 0 {
					s.Vers(dbs[x], names[x])
				}
				if s.r.Intn(5) == 0 {
					intern(dbs[x]).BuildCache([]string{textOf(pool[s.r.Intn(len(pool))]), pick(s.r, junkStr), ""})
				}
			}
		})
	}
}

// famHistoryGen plays the histories of ServiceGen.
func famHistoryGen(c *Ctx) {
	for i, m := range c.scen {
		i, m := i, m
		c.Scenario("historygen", func(s *Scen) {
			_, _, pool, dbs, names := s.service(i)
			if dbs == nil {
				return
			}
			x := s.r.Intn(len(dbs))
			a := []string{pool[s.r.Intn(len(pool))], pool[s.r.Intn(len(pool))], pool[s.r.Intn(len(pool))]}
			if len(pool) > 12 && s.r.Intn(2) == 0 {
				a[0] = pool[len(pool)-1-s.r.Intn(12)] // one that is cached when there is data
			}
			var held []*inf.IpInfo
			s.Do(M{"op": "qs", "d": names[x], "hist": true}, func() M {
				q := A{}
				one := func(b string) {
					r, info := q1keep(dbs[x], b, s.form(b))
					q = append(q, r)
					if info != nil {
						held = append(held, info)
					}
				}
				for _, act := range m["h"].([]interface{}) {
					switch act {
					case "ask1":
						one(a[0])
					case "ask2":
						one(a[1])
					case "ask3":
						one(a[2])
					case "askNone":
						one(randBits(s.r, 32))
					case "askJunk":
						q = append(q, s.junk(dbs[x], pool...)...)
					case "changeFirst":
						if len(held) > 0 {
							spoil(held[0])
						}
					case "changeLast":
						if len(held) > 0 {
							spoil(held[len(held)-1])
						}
					case "cache1":
						intern(dbs[x]).BuildCache([]string{textOf(a[0])})
					}
				}
				for _, b := range a {
					one(b)
				}
				return M{"q": q, "out": "ok"}
			})
		})
	}
}

func famConcurrent(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("concurrent", func(s *Scen) {
			_, _, pool, dbs, names := s.service(i)
			if dbs == nil {
				return
			}
			for x := range dbs {
				few := pool
				if s.r.Intn(2) == 0 {
					few = []string{pool[s.r.Intn(len(pool))], pool[s.r.Intn(len(pool))]}
				}
				s.Do(M{"op": "qs", "d": names[x], "hist": true}, func() M {
					const workers = 8
					res := make([]A, workers)
					var wg sync.WaitGroup
					start := make(chan bool)
					for w := 0; w < workers; w++ {
						r := rand.New(rand.NewSource(s.r.Int63()))
						w := w
						wg.Add(1)
						go func() {
							defer wg.Done()
							<-start
							for n := 0; n < 25; n++ {
								a := few[r.Intn(len(few))]
								form := "str"
								if len(a) == 32 {
									form = pick(r, forms4)
								} else {
									form = pick(r, forms6)
								}
								q, info := q1keep(dbs[x], a, form)
								res[w] = append(res[w], q)
								spoil(info)
								if n%8 == 0 {
									spoilVer(intern(dbs[x]).VersionInfo())
								}
							}
						}()
					}
					close(start)
					wg.Wait()
					q := A{}
					for _, r := range res {
						q = append(q, r...)
					}
					return M{"q": q, "out": "ok"}
				})
			}
		})
	}
}

// -- HTTP ------------------------------------------------------------------------------

func freePort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return ""
	}
	defer l.Close()
	return l.Addr().String()
}

// serve starts the service on a file; stop it with the returned function.
func (s *Scen) serve(file string) (addr string, stop func(), why string) {
	for try := 0; try < 4; try++ {
		addr = freePort()
		cmd := exec.Command(os.Getenv("UIP_SERVER"), file, addr)
		var log strings.Builder
		cmd.Stderr = &log
		if err := cmd.Start(); err != nil {
			return "", nil, err.Error()
		}
		exited := make(chan error, 1)
		go func() { exited <- cmd.Wait() }()
		stop = func() {
			cmd.Process.Kill()
			<-exited
		}
		for n := 0; n < 400; n++ {
			if conn, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
				conn.Close()
				return addr, stop, ""
			}
			select {
			case <-exited:
				n = 400
				exited <- nil
			case <-time.After(25 * time.Millisecond):
			}
		}
		stop()
		why = "not listening: " + log.String()
	}
	return "", nil, why
}

// starts runs the service where it cannot serve: "ends" is what is expected.
func starts(file, addr string, dial bool) string {
	cmd := exec.Command(os.Getenv("UIP_SERVER"), file, addr)
	var log strings.Builder
	cmd.Stderr = &log
	if err := cmd.Start(); err != nil {
		return err.Error()
	}
	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	for n := 0; n < 400; n++ {
		select {
		case <-exited:
			if strings.Contains(log.String(), "goroutine ") {
				return "panics"
			}
			return "ends"
		case <-time.After(50 * time.Millisecond):
		}
		if dial {
			if conn, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
				conn.Close()
				cmd.Process.Kill()
				<-exited
				return "serves"
			}
		}
	}
	cmd.Process.Kill()
	<-exited
	return "neither ends nor serves"
}

var infoKeys = []string{"country", "province", "city", "isp", "asn", "continent", "line", "district"}

// get asks the service and projects: bits, path, status, record, length of
// the body, shape of the body.
func get(cl *http.Client, addr, a, path string) A {
	resp, err := cl.Get("http://" + addr + path)
	if err != nil {
		return A{a, path, 0, A{}, 0, "no response"}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return A{a, path, 0, A{}, 0, "broken response"}
	}
	rec, shape := A{}, "ok"
	var m map[string]interface{}
	if resp.StatusCode == 200 {
		if err := json.Unmarshal(b, &m); err != nil {
			shape = "not JSON"
		}
		for _, k := range infoKeys {
			v, ok := m[k]
			str, isStr := v.(string)
			if ok && (!isStr || str == "") {
				shape = "odd value of " + k
			}
			rec = append(rec, str)
			delete(m, k)
		}
		if len(m) > 0 {
			shape = fmt.Sprint("further fields ", len(m))
		}
	}
	return A{a, path, resp.StatusCode, rec, len(b), shape}
}

func (s *Scen) paths(a string) string {
	t := text(a)
	switch s.r.Intn(6) {
	case 0:
		if len(a) == 32 {
			return "/::ffff:" + t
		}
	case 1:
		if len(a) == 32 {
			ip := bytesOfBits(a)
			return "/0:0:0:0:0:FFFF:" + strings.ToUpper(hex2(ip[0], ip[1])+":"+hex2(ip[2], ip[3]))
		}
		return "/" + strings.ToUpper(t)
	case 2:
		return "/" + strings.Replace(t, ".", "%2E", 1)
	case 3:
		return "/" + t + "?x=1"
	}
	return "/" + t
}

var badPaths = []string{"/", "/abc", "/1.2.3", "/1.2.3.4.5", "/1.2.3.4/", "/1.2.3.4/24", "/256.1.1.1", "/::g", "/versions", "/version/", "/1.2.3.4%20", "/%201.2.3.4", "/::1%25lo", "/favicon.ico", "/-1", "/16909060", "/a/b"}

func badPath(r *rand.Rand, pool []string) string {
	if r.Intn(2) == 0 {
		return pick(r, badPaths)
	}
	return "/" + url.PathEscape(nearMiss(r, pool))
}

func famHttp(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("http", func(s *Scen) {
			file, kind, pool, dbs, names := s.service(i)
			if dbs == nil {
				return
			}
			// what the library answers
			for n := 0; n < len(pool); n += 20 {
				part := pool[n:minI(n+20, len(pool))]
				s.Do(M{"op": "qs", "d": names[0], "hist": true}, func() M {
					q := A{}
					for _, a := range part {
						q = append(q, q1(dbs[0], a, "str"))
					}
					return M{"q": q, "out": "ok"}
				})
			}
			p := filepath.Join(c.work, "served"+kind)
			if err := os.WriteFile(p, file, 0644); err != nil {
				panic(err)
			}
			defer os.Remove(p)
			if i%3 == 1 {
				what := pick(s.r, []string{"a missing file", "a cut file", "a file of unknown format", "a directory"})
				s.Do(M{"op": "srvbad", "d": names[0], "what": what}, func() M {
					bad := filepath.Join(c.work, "refused"+kind)
					switch what {
					case "a cut file":
						end := len(file)
						if k := bytes.Index(file, []byte("ipplus360.com")); kind == ".awdb" && k > 0 {
							end = k // what lies behind may be of no interest
						}
						os.WriteFile(bad, file[:s.r.Intn(end)], 0644)
					case "a file of unknown format":
						bad = filepath.Join(c.work, "refused.mmdb")
						os.WriteFile(bad, file, 0644)
					case "a directory":
						os.Mkdir(bad, 0755)
					}
					defer os.RemoveAll(bad)
					return M{"out": starts(bad, freePort(), true)}
				})
			}
			addr, stop := "", func() {}
			st := s.Do(M{"op": "http", "d": names[0]}, func() M {
				var why string
				addr, stop, why = s.serve(p)
				if why != "" {
					return M{"out": "down", "why": why, "q": A{}}
				}
				return M{"out": "ok", "q": A{}}
			})
			if !ok(st) {
				return
			}
			defer stop()
			cl := &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 16}}
			if s.r.Intn(3) == 0 {
				cl.Transport = &http.Transport{DisableKeepAlives: true}
			}
			version := func() {
				s.Do(M{"op": "hver", "d": names[0]}, func() M {
					resp, err := cl.Get("http://" + addr + "/version")
					if err != nil {
						return M{"out": "err", "why": err.Error()}
					}
					defer resp.Body.Close()
					b, _ := io.ReadAll(resp.Body)
					var v *inf.VersionInfo
					d := json.NewDecoder(strings.NewReader(string(b)))
					d.DisallowUnknownFields()
					if err := d.Decode(&v); err != nil {
						return M{"out": "err", "why": err.Error()}
					}
					return M{"out": "ok", "status": resp.StatusCode, "ver": projVersion(v)}
				})
			}
			version()
			// what becomes of the file does not matter any more
			switch s.r.Intn(4) {
			case 0:
				os.Remove(p)
			case 1:
				os.WriteFile(p, []byte("something else"), 0644)
			case 2:
				os.WriteFile(p, bytes.Repeat([]byte{0}, len(file)), 0644)
			}
			if i%3 == 0 {
				s.Do(M{"op": "srvbad", "d": names[0], "what": "an address in use"}, func() M {
					good := filepath.Join(c.work, "second"+kind)
					os.WriteFile(good, file, 0644)
					defer os.Remove(good)
					return M{"out": starts(good, addr, false)}
				})
			}
			s.Do(M{"op": "http", "d": names[0]}, func() M {
				q := A{}
				for n := 0; n < 40; n++ {
					if s.r.Intn(5) == 0 {
						q = append(q, get(cl, addr, "", badPath(s.r, pool)))
					} else {
						a := pool[s.r.Intn(len(pool))]
						q = append(q, get(cl, addr, a, s.paths(a)))
					}
				}
				return M{"q": q, "out": "ok"}
			})
			// many at a time
			s.Do(M{"op": "http", "d": names[0]}, func() M {
				const workers = 12
				res := make([]A, workers)
				type job struct{ a, p string }
				jobs := make([][]job, workers)
				for w := range jobs {
					for n := 0; n < 20; n++ {
						if s.r.Intn(6) == 0 {
							jobs[w] = append(jobs[w], job{"", badPath(s.r, pool)})
						} else {
							a := pool[s.r.Intn(len(pool))]
							jobs[w] = append(jobs[w], job{a, s.paths(a)})
						}
					}
				}
				var wg sync.WaitGroup
				for w := range jobs {
					w := w
					wg.Add(1)
					go func() {
						defer wg.Done()
						for _, j := range jobs[w] {
							res[w] = append(res[w], get(cl, addr, j.a, j.p))
						}
					}()
				}
				wg.Wait()
				q := A{}
				for _, r := range res {
					q = append(q, r...)
				}
				return M{"q": q, "out": "ok"}
			})
			version()
		})
	}
}

var _ = query.NewDb
