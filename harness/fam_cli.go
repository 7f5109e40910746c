package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/qiniu/uip/db/inf"
)

func init() {
	families["cli"] = famCli
}

// tool runs a program to its end and returns what it printed.
func tool(args ...string) (out, stdout string) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, args[0], args[1:]...)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	switch {
	case ctx.Err() != nil:
		return "hang", ""
	case strings.Contains(e.String(), "goroutine ") || strings.Contains(e.String(), "panicked at"):
		return "panic", ""
	case err != nil && c.ProcessState == nil:
		fmt.Fprintln(os.Stderr, "cannot run", args[0], err)
		os.Exit(2)
	}
	return "ok", o.String()
}

// famCli runs the command line tools on a file the library was asked before.
func famCli(c *Ctx) {
	simple, rust := os.Getenv("UIP_SIMPLE"), os.Getenv("UIP_QUERY")
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("cli", func(s *Scen) {
			file, kind, pool, dbs, names := s.service(i)
			if dbs == nil {
				return
			}
			pool = append(pool, zeros(128), zeros(127)+"1", zeros(32))
			s.r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
			pool = pool[:minI(len(pool), 16)]
			s.Do(M{"op": "qs", "d": names[0], "hist": true}, func() M {
				q := A{}
				for _, a := range pool {
					q = append(q, q1(dbs[0], a, "str"))
				}
				return M{"q": q, "out": "ok"}
			})
			p := filepath.Join(c.work, "cli"+kind)
			if err := os.WriteFile(p, file, 0644); err != nil {
				panic(err)
			}
			defer os.Remove(p)
			s.Do(M{"op": "cli", "d": names[0]}, func() M {
				q := A{}
				ask := func(a, word string) {
					out, got := tool(simple, p, word)
					q = append(q, A{"simple", a, word, out, got})
					if kind != ".ipdb" {
						return
					}
					out, got = tool(rust, p, word)
					// what comes before the answer is left open
					if k := strings.LastIndex(got, "query ip: "); k >= 0 {
						got = got[k:]
					}
					if k := strings.Index(got, ", error: "); k >= 0 {
						got = got[:k]
					}
					q = append(q, A{"query", a, word, out, got})
				}
				for _, a := range pool {
					how := s.spelling(a)
					if how == "bytes" || how == "num" {
						how = ""
					}
					ask(a, spelled(a, how))
				}
				for k := 0; k < 2; k++ {
					if j := pick(s.r, junkStr); j != "" {
						ask("", j)
					}
					ask("", nearMiss(s.r, pool))
				}
				return M{"out": "ok", "q": q}
			})
			s.Do(M{"op": "cliver", "d": names[0]}, func() M {
				out, got := tool(simple, p, pick(s.r, []string{"v", "version"}))
				var v *inf.VersionInfo
				if out != "ok" {
					return M{"out": out}
				}
				if err := json.Unmarshal([]byte(got), &v); err != nil || v == nil {
					return M{"out": "not the version: " + got}
				}
				return M{"out": "ok", "ver": projVersion(v)}
			})
			s.Do(M{"op": "cli", "d": names[0]}, func() M {
				q := A{}
				miss := filepath.Join(c.work, "missing"+kind)
				out, got := tool(simple, miss, "8.8.8.8")
				q = append(q, A{"simple", "", "8.8.8.8", out, got})
				out, got = tool(rust, miss, "8.8.8.8")
				if strings.Contains(got, "info: ") {
					q = append(q, A{"query", "", "8.8.8.8", out, got})
				}
				return M{"out": "ok", "q": q}
			})
		})
	}
}
