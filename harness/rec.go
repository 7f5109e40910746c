package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"

	"github.com/qiniu/uip/db"
	"github.com/qiniu/uip/db/inf"
)

// M is one recorded step or part of one. Only arrays, objects, strings, bools
// and small integers occur (the judge reads them into TLA+ values).
type M map[string]interface{}
type A []interface{}

// Ctx enumerates the scenarios of a family; every scenario has its own random
// source, so any of them can be run alone.
type Ctx struct {
	family  string
	seed    int64
	n       int // size parameter
	tier    string
	from    int
	only    int // -1: all
	idx     int
	w       *bufio.Writer
	journal *os.File
	scen    []M // scenarios generated by TLC
	work    string
	failed  int
}

type Scen struct {
	c     *Ctx
	r     *rand.Rand
	tag   string
	steps []M
	focus []string // properties that also suffer when the scenario breaks down
}

func (s *Scen) json(i int, steps []M) M {
	m := M{"sid": i, "tag": s.tag, "family": s.c.family, "steps": steps}
	if len(s.focus) > 0 {
		m["focus"] = s.focus
	}
	return m
}

func (c *Ctx) Scenario(tag string, f func(s *Scen)) {
	i := c.idx
	c.idx++
	if i < c.from || (c.only >= 0 && i != c.only) {
		return
	}
	h := int64(1469598103934665603)
	for _, b := range []byte(c.family) {
		h = (h ^ int64(b)) * 1099511628211
	}
	s := &Scen{c: c, r: rand.New(rand.NewSource(c.seed*1000003 + h + int64(i)*7919)), tag: tag}
	func() {
		defer func() {
			if e := recover(); e != nil && e != errAborted {
				panic(e)
			}
		}()
		f(s)
	}()
	if len(s.steps) == 0 {
		s.steps = []M{{"op": "none"}}
	}
	b, err := json.Marshal(s.json(i, s.steps))
	if err != nil {
		panic(err)
	}
	writeASCII(c.w, b)
	c.w.WriteByte('\n')
	c.w.Flush()
}

// writeASCII escapes everything outside ASCII, so that no reader depends on a locale.
func writeASCII(w *bufio.Writer, b []byte) {
	for _, r := range string(b) {
		if r < 0x80 {
			w.WriteByte(byte(r))
		} else if r < 0x10000 {
			fmt.Fprintf(w, "\\u%04x", r)
		} else {
			r -= 0x10000
			fmt.Fprintf(w, "\\u%04x\\u%04x", 0xd800+(r>>10), 0xdc00+(r&0x3ff))
		}
	}
}

var errAborted = errors.New("aborted")

// Do runs one call of the code under test and records it: step has the
// operation and its arguments, f returns the result fields.
func (s *Scen) Do(step M, f func() M) M {
	if s.c.journal != nil {
		step["out"] = "pending"
		b, _ := json.Marshal(s.json(s.c.idx-1, append(append([]M{}, s.steps...), step)))
		s.c.journal.Truncate(0)
		s.c.journal.Seek(0, 0)
		w := bufio.NewWriter(s.c.journal)
		writeASCII(w, b)
		w.Flush()
		delete(step, "out")
	}
	if fail := os.Getenv("UIPVERIF_FAIL"); fail != "" && s.r.Intn(6) == 0 {
		// a failure drill for the judge: the call never returned
		step["out"], step["why"] = fail, "drill"
		s.steps = append(s.steps, step)
		panic(errAborted)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				step["out"] = "panic"
				step["why"] = fmt.Sprint(e)
				if os.Getenv("UIPVERIF_STACK") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", e, debug.Stack())
				}
			}
		}()
		for k, v := range f() {
			step[k] = v
		}
	}()
	s.steps = append(s.steps, step)
	return step
}

func ok(step M) bool { return step["out"] == "ok" }

var errKinds = []struct {
	err  error
	name string
}{
	{db.ErrDataNotExists, "notexist"},
	{db.ErrNoSupportIPv4, "nov4"},
	{db.ErrNoSupportIPv6, "nov6"},
	{db.ErrIPFormat, "format"},
	{db.ErrUnsupportedFormat, "unsupported"},
	{db.ErrCheckFailed, "check"},
}

func errKind(err error) string {
	if err == nil {
		return ""
	}
	for _, k := range errKinds {
		if errors.Is(err, k.err) {
			return k.name
		}
	}
	return "other"
}

func outOf(err error) M {
	if err != nil {
		return M{"out": "err", "err": errKind(err), "why": err.Error()}
	}
	return M{"out": "ok"}
}

// smallInt keeps numbers in the range the judge has; anything else is -1.
func smallInt(v uint64) interface{} {
	if v > 2140000000 {
		return -1
	}
	return v
}

func strs(a []string) A {
	ret := A{}
	for _, v := range a {
		ret = append(ret, v)
	}
	return ret
}

// projInfo lists the reported fields in the order of PUB in spec/Uip.tla.
func projInfo(i *inf.IpInfo) A {
	if i == nil {
		return A{}
	}
	return A{i.Country, i.Province, i.City, i.Isp, i.Asn, i.Continent, i.Line, i.District}
}

func projVersion(v *inf.VersionInfo) M {
	if v == nil {
		return M{"nil": true}
	}
	return M{"type": int(v.IpType), "count": smallInt(uint64(v.Count)), "build": smallInt(uint64(v.Build)),
		"has": A{v.HasIpV4(), v.HasIpV6(), v.IsIpV4(), v.IsIpV6(), v.IsIpAll()},
		"version": v.Version, "langs": strs(v.Languages), "extra": strs(v.ExtraInfo)}
}

// projTable projects a table; values are pooled.
func projTable(d *inf.IpData, fam string) M {
	pool := map[string]int{}
	recs := A{}
	rows := A{}
	for _, r := range d.Ips {
		k := fmt.Sprintf("%q", r.FieldValues)
		i, ok := pool[k]
		if !ok {
			recs = append(recs, strs(r.FieldValues))
			i = len(recs)
			pool[k] = i
		}
		rows = append(rows, A{projNet(r.Cidr, fam), i})
	}
	return M{"fam": fam, "fields": strs(d.Fields), "rows": rows, "recs": recs, "ver": projVersion(d.Version)}
}
