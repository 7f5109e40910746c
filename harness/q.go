package main

import (
	"errors"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/qiniu/uip/db/convert"
	"github.com/qiniu/uip/db/inf"
	"github.com/qiniu/uip/db/query"
	"github.com/qiniu/uip/ipnet"
)

// text writes an address the plain way: IPv4 dotted, IPv6 with colons also
// when it is a mapped one.
func text(a string) string {
	ip := net.IP(bytesOfBits(a))
	if len(a) == 128 && ip.To4() != nil {
		return "::ffff:" + ip.To4().String()
	}
	return ip.String()
}

// Dbq is a database to ask, a query.Db or the reader behind one.
type Dbq interface {
	QueryStr(string) (*inf.IpInfo, int, error)
	QueryU32(uint32) (*inf.IpInfo, int, error)
	Query(net.IP) (*inf.IpInfo, int, error)
}

// bareQ is a reader as the format makes it, without a cache until asked for.
type bareQ struct{ q inf.Query }

func (q bareQ) QueryStr(s string) (*inf.IpInfo, int, error) {
	ip := net.ParseIP(s)
	if ip == nil {
		return nil, 0, errors.New("no ip")
	}
	return q.q.Query(ip)
}
func (q bareQ) QueryU32(i uint32) (*inf.IpInfo, int, error) { return q.q.Query(ipnet.Uint32ToIPv4(i)) }
func (q bareQ) Query(ip net.IP) (*inf.IpInfo, int, error)   { return q.q.Query(ip) }

func intern(d Dbq) inf.Query {
	if q, ok := d.(bareQ); ok {
		return q.q
	}
	return query.GetIntern(d.(*query.Db))
}

// ask runs one query in the given form; forms by 32-bit number and 4 bytes
// are for 32-bit addresses only.
func ask(d Dbq, a, form string) (*inf.IpInfo, int, error) {
	switch form {
	case "str":
		return d.QueryStr(text(a))
	case "mapped":
		return d.QueryStr("::ffff:" + text(a))
	case "hexmapped":
		ip := net.IP(bytesOfBits(a)).To4()
		return d.QueryStr("0:0:0:0:0:ffff:" + hex2(ip[0], ip[1]) + ":" + hex2(ip[2], ip[3]))
	case "u32":
		return d.QueryU32(uint32OfBits(a))
	case "ip4":
		return d.Query(net.IP(bytesOfBits(a)))
	case "ip16":
		return d.Query(net.IP(bytesOfBits(a)).To16())
	case "raw":
		return intern(d).Query(net.IP(bytesOfBits(a)))
	case "ipv4":
		b := bytesOfBits(a)
		return d.Query(net.IPv4(b[0], b[1], b[2], b[3]))
	case "u32ip":
		return d.Query(ipnet.Uint32ToIPv4(uint32OfBits(a)))
	}
	panic("form " + form)
}

func hex2(a, b byte) string {
	const h = "0123456789abcdef"
	return string([]byte{h[a>>4], h[a&15], h[b>>4], h[b&15]})
}

var forms4 = []string{"str", "mapped", "hexmapped", "u32", "ip4", "ip16", "ipv4", "u32ip", "raw"}
var forms6 = []string{"str", "ip16", "raw"}

// q1 asks and projects: [bits, form, out, rec, len, err]
func q1(d Dbq, a, form string) (ret A) {
	defer func() {
		if e := recover(); e != nil {
			ret = A{a, form, "panic", A{}, 0, ""}
		}
	}()
	info, n, err := ask(d, a, form)
	return qres(a, form, info, n, err)
}

func qres(a, form string, info *inf.IpInfo, n int, err error) A {
	if err != nil {
		return A{a, form, "err", projInfo(info), 0, errKind(err)}
	}
	return A{a, form, "ok", projInfo(info), n, ""}
}

var junkStr = []string{"", "abc", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.4 ", "::g", ":", "1.2.3.4/8", "::1/128", "١.2.3.4", "-1.0.0.0", "0x1.2.3.4", "12345::", ":::"}
var junkIP = []net.IP{nil, {}, {1}, {1, 2, 3}, {1, 2, 3, 4, 5}, make(net.IP, 15), make(net.IP, 17)}

// nearMiss is no address, but looks like one of the addresses.
func nearMiss(r *rand.Rand, addrs []string) string {
	if len(addrs) == 0 {
		return pick(r, junkStr)
	}
	a := pick(r, addrs)
	t := text(a)
	if len(a) == 32 {
		return pick(r, []string{t + ":80", t + ".", "." + t, "0" + t, t + "/32", t + "/", " " + t, t + " ", "[" + t + "]", t + "%1", "::ffff:" + t + "%1", t + "\n", t + ",", t + "." + t, t + "x", t[:strings.LastIndex(t, ".")]})
	}
	return pick(r, []string{t + "%eth0", t + "%1", t + "%", "[" + t + "]", t + "/128", t + "/", " " + t, t + " ", t + "\n", t + "]:80", t + "g", "[" + t + "]:80", t + "::" + t})
}

func (s *Scen) junk(d Dbq, near ...string) A {
	q := A{}
	safe := func(form string, f func() (*inf.IpInfo, int, error)) {
		defer func() {
			if e := recover(); e != nil {
				q = append(q, A{"", form, "panic", A{}, 0, ""})
			}
		}()
		info, n, err := f()
		q = append(q, qres("", form, info, n, err))
	}
	j := pick(s.r, junkStr)
	if s.r.Intn(2) == 0 {
		j = nearMiss(s.r, near)
	}
	safe("junk", func() (*inf.IpInfo, int, error) { return d.QueryStr(j) })
	ip := junkIP[s.r.Intn(len(junkIP))]
	safe("badip", func() (*inf.IpInfo, int, error) { return d.Query(ip) })
	return q
}

func (s *Scen) form(a string) string {
	if s.r.Intn(2) == 0 {
		return "str"
	}
	if len(a) == 32 {
		return pick(s.r, forms4)
	}
	return pick(s.r, forms6)
}

// Queries asks for all addresses, one step for up to 40 of them.
func (s *Scen) Queries(d Dbq, h string, addrs []string, extra M) {
	for len(addrs) > 0 {
		n := 40
		if n > len(addrs) {
			n = len(addrs)
		}
		part := addrs[:n]
		addrs = addrs[n:]
		step := M{"op": "qs", "d": h}
		for k, v := range extra {
			step[k] = v
		}
		s.Do(step, func() M {
			q := A{}
			for _, a := range part {
				q = append(q, q1(d, a, s.form(a)))
			}
			q = append(q, s.junk(d, part...)...)
			return M{"q": q, "out": "ok"}
		})
	}
}

func (s *Scen) Table(name string, t *Table) {
	st := t.steps()
	if len(t.Rows) > 400 {
		st = t.bigSteps()
		st["op"] = "big"
	} else {
		st["op"] = "table"
	}
	st["t"] = name
	s.steps = append(s.steps, st)
}

func (s *Scen) Pack(kind, t, h string, d *inf.IpData) []byte {
	var ret []byte
	s.Do(M{"op": "pack", "kind": kind, "t": t, "h": h}, func() M {
		t0 := time.Now().Unix()
		b, err := convert.PackBytes(kind, d)
		ret = b
		m := outOf(err)
		m["t0"], m["t1"] = t0, time.Now().Unix()
		return m
	})
	return ret
}

// openDb opens what is in memory, or a file that changes afterwards.
func (s *Scen) openDb(kind string, b []byte) (*query.Db, error) {
	if s.c.work == "" || len(b) > 1<<20 || s.r.Intn(4) > 0 {
		return query.NewDbFromBytes(kind, b)
	}
	dir, err := os.MkdirTemp(s.c.work, "open")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "db"+kind)
	if err := os.WriteFile(p, b, 0644); err != nil {
		panic(err)
	}
	db, err := query.NewDb(p)
	if f, e := os.OpenFile(p, os.O_RDWR, 0644); e == nil {
		f.Write(make([]byte, len(b)))
		f.Close()
	}
	return db, err
}

func (s *Scen) Open(kind, h, d string, b []byte) *query.Db {
	var ret *query.Db
	step := M{"op": "open", "kind": kind, "h": h, "d": d}
	if n := ipdbNodes(b); kind == ".ipdb" && n > 0 {
		step["nodes"] = smallInt(uint64(n))
	}
	s.Do(step, func() M {
		db, err := s.openDb(kind, b)
		if err != nil {
			return outOf(err)
		}
		ret = db
		return M{"out": "ok", "ver": projVersion(db.VersionInfo())}
	})
	return ret
}
