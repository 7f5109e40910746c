package main

import (
	"fmt"
	"net"
	"sort"

	"github.com/qiniu/uip/ipnet"
)

func init() {
	families["range"] = famRange
	families["rangegen"] = famRangeGen
	families["addr"] = famAddr
}

// ipForm writes an address as a value callers have: 4 or 16 bytes for IPv4.
func (s *Scen) ipForm(a string) net.IP {
	ip := net.IP(bytesOfBits(a))
	if len(a) == 32 && s.r.Intn(2) == 0 {
		return ip.To16()
	}
	return ip
}

type rangeCtx struct {
	fam string
	r   *ipnet.Range
}

func (o *rangeCtx) now() M {
	return M{"s": projIP(o.r.Start, o.fam), "e": projIP(o.r.End, o.fam)}
}

func projNets(nets []*net.IPNet, fam string) A {
	ret := A{}
	for _, n := range nets {
		if n == nil {
			ret = append(ret, "!nil")
			continue
		}
		ret = append(ret, projNet(n, fam))
		if len(ret) > 2000 {
			break
		}
	}
	return ret
}

// randPair is a range, often touching corners of the space.
func (s *Scen) randPair(w int) (string, string) {
	a, b := fix(randAddr(s.r, w), s.r, w), fix(randAddr(s.r, w), s.r, w)
	switch s.r.Intn(6) {
	case 0:
		a = zeros(w)
	case 1:
		b = ones(w)
	case 2:
		k := s.r.Intn(w + 1)
		a, b = a[:k]+zeros(w-k), a[:k]+ones(w-k)
	case 3: // close together
		k := w - 1 - s.r.Intn(12)
		b = a[:k] + randBits(s.r, w-k)
	case 4:
		b = a
	}
	if a > b {
		a, b = b, a
	}
	return a, b
}

// near is an address around one of the given ones.
func (s *Scen) near(w int, as ...string) string {
	a := pick(s.r, as)
	switch s.r.Intn(6) {
	case 0:
		if a != ones(w) {
			return succ(a)
		}
	case 1:
		if a != zeros(w) {
			return pred(a)
		}
	case 2:
		return fix(randAddr(s.r, w), s.r, w)
	case 3:
		k := s.r.Intn(w)
		return a[:k] + randBits(s.r, w-k)
	}
	return a
}

func (s *Scen) rangeStart(fam, a, b string) *rangeCtx {
	o := &rangeCtx{fam: fam}
	w := width(fam)
	s.Do(M{"op": "range", "r": "r", "fam": fam, "lo": a, "hi": b}, func() M {
		k := lcp(a, b)
		if a[k:] == zeros(w-k) && b[k:] == ones(w-k) && s.r.Intn(3) > 0 {
			o.r = ipnet.NewRange(realNet(s.r, a[:k], fam))
		} else {
			o.r = &ipnet.Range{Start: s.ipForm(a), End: s.ipForm(b)}
		}
		m := o.now()
		m["out"] = "ok"
		return m
	})
	return o
}

func lcp(a, b string) int {
	k := 0
	for k < len(a) && a[k] == b[k] {
		k++
	}
	return k
}

func (s *Scen) rangeOps(o *rangeCtx, a, b string, n int) {
	fam, w := o.fam, width(o.fam)
	contains := func() {
		s.Do(M{"op": "rcontains", "r": "r"}, func() M {
			q := A{}
			for k := 0; k < 8; k++ {
				x := s.near(w, a, b)
				ip := s.ipForm(x)
				q = append(q, A{x, o.r.Contains(ip), ipnet.Contains(o.r.Start, o.r.End, ip)})
			}
			m := o.now()
			m["q"], m["out"] = q, "ok"
			return m
		})
	}
	split := func() {
		s.Do(M{"op": "rsplit", "r": "r"}, func() M {
			m := o.now()
			m["nets"] = projNets(o.r.IPNets(), fam)
			m["s"], m["e"] = projIP(o.r.Start, fam), projIP(o.r.End, fam)
			m["out"] = "ok"
			return m
		})
	}
	contains()
	split()
	for ; n > 0; n-- {
		c, d := s.near(w, a, b), s.near(w, a, b)
		if c > d {
			c, d = d, c
		}
		switch s.r.Intn(3) {
		case 0:
			r2 := &ipnet.Range{Start: s.ipForm(c), End: s.ipForm(d)}
			s.Do(M{"op": "rjoin", "r": "r", "lo": c, "hi": d}, func() M {
				ok := o.r.Join(r2)
				m := o.now()
				m["ok"], m["out"] = ok, "ok"
				m["lo2"], m["hi2"] = projIP(r2.Start, fam), projIP(r2.End, fam)
				return m
			})
		case 1:
			k := s.r.Intn(w + 1)
			p := c[:k]
			if s.r.Intn(3) == 0 && a != b {
				// a network that starts right where it must
				p = succStart(b, w, s.r.Intn(w+1))
			}
			nt := realNet(s.r, p, fam)
			before := nt.String()
			s.Do(M{"op": "rjoin", "r": "r", "lo": firstOf(p, w), "hi": lastOf(p, w), "net": p}, func() M {
				ok := o.r.JoinIPNet(nt)
				m := o.now()
				m["ok"], m["out"] = ok, "ok"
				m["lo2"], m["hi2"] = firstOf(p, w), lastOf(p, w)
				if nt.String() != before {
					m["lo2"] = "!" + nt.String()
				}
				return m
			})
		default:
			x := s.near(w, a, b, c, d)
			r2 := &ipnet.Range{Start: s.ipForm(c), End: s.ipForm(d)}
			s.Do(M{"op": "rcommon", "r": "r", "lo": c, "hi": d, "a": x}, func() M {
				ok := o.r.CommonRange(s.ipForm(x), r2)
				m := o.now()
				m["ok"], m["out"] = ok, "ok"
				m["lo2"], m["hi2"] = projIP(r2.Start, fam), projIP(r2.End, fam)
				return m
			})
		}
		a, b = projIP(o.r.Start, fam), projIP(o.r.End, fam)
		if len(a) != w || len(b) != w {
			return
		}
		if s.r.Intn(3) == 0 {
			split()
		}
		if s.r.Intn(3) == 0 {
			contains()
		}
	}
}

// succStart is the largest network of at least k bits that starts right
// behind b, or b itself at the end of the space.
func succStart(b string, w, k int) string {
	if b == ones(w) {
		return b
	}
	n := succ(b)
	z := w
	for z > 0 && n[z-1] == '0' {
		z--
	}
	if k < z {
		k = z
	}
	return n[:k]
}

func famRange(c *Ctx) {
	for i := 0; i < c.n; i++ {
		i := i
		c.Scenario("range", func(s *Scen) {
			fam := fams[i%2]
			for k := 0; k < 4; k++ {
				a, b := s.randPair(width(fam))
				o := s.rangeStart(fam, a, b)
				s.rangeOps(o, a, b, s.r.Intn(6))
			}
		})
	}
}

// famRangeGen embeds every range of a small space.
func famRangeGen(c *Ctx) {
	for i, m := range c.scen {
		i, m := i, m
		c.Scenario("rangegen", func(s *Scen) {
			for k := 0; k < 4; k++ {
				fam := fams[(i+k)%2]
				w := width(fam)
				small := int(m["w"].(float64))
				var a, b string
				lo, hi := m["lo"].(string), m["hi"].(string)
				switch k {
				case 0, 1: // low bits in a corner or anywhere
					base := fix(randAddr(s.r, w), s.r, w)[:w-small]
					if s.r.Intn(2) == 0 {
						base = pick(s.r, []string{zeros(w - small), ones(w - small)})
					}
					a, b = base+lo, base+hi
				case 2: // high bits
					a, b = lo+zeros(w-small), hi+ones(w-small)
				default:
					at := s.r.Intn(w - small)
					base := fix(randAddr(s.r, w), s.r, w)[:at]
					a, b = base+lo+randBits(s.r, w-small-at), base+hi+randBits(s.r, w-small-at)
				}
				if a > b {
					a, b = b, a
				}
				o := s.rangeStart(fam, a, b)
				s.rangeOps(o, a, b, 2)
			}
		})
	}
}

func uint64OfBits(a string) uint64 {
	var v uint64
	for i := 0; i < len(a); i++ {
		v = v<<1 | uint64(a[i]-'0')
	}
	return v
}

func bitsOfUint32(v uint32) string {
	return bitsOfBytes([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
}

func raw(ip net.IP) string {
	if len(ip) != 4 && len(ip) != 16 {
		return fmt.Sprintf("!%v", []byte(ip))
	}
	return bitsOfBytes(ip)
}

// famAddr asks the address functions.
func famAddr(c *Ctx) {
	for i := 0; i < c.n; i++ {
		c.Scenario("addr", func(s *Scen) {
			q := A{}
			s.Do(M{"op": "addrs"}, func() M {
				for k := 0; k < 40; k++ {
					w := 32
					if s.r.Intn(2) == 0 {
						w = 128
					}
					a := fix(randAddr(s.r, w), s.r, w)
					if s.r.Intn(3) == 0 { // carries
						j := s.r.Intn(w)
						a = a[:w-j] + pick(s.r, []string{ones(j), zeros(j)})
					}
					b := s.near(w, a)
					ip, jp := s.ipForm(a), s.ipForm(b)
					ipb := append(net.IP(nil), ip...)
					if w == 32 {
						n := uint32OfBits(a)
						q = append(q, A{"fromu32", a, raw(ipnet.Uint32ToIPv4(n).To4()), ""})
						q = append(q, A{"tou32", a, bitsOfUint32(ipnet.IPv4ToUint32(ip)), ""})
						q = append(q, A{"strtou32", a, bitsOfUint32(ipnet.IPv4StrToUint32(ip.String())), ""})
						q = append(q, A{"back", a, bitsOfUint32(ipnet.IPv4ToUint32(ipnet.Uint32ToIPv4(n))), ""})
					} else {
						hi, lo := uint64OfBits(a[:64]), uint64OfBits(a[64:])
						q = append(q, A{"u64x2", a, raw(ipnet.Uint64ToIP2(hi, lo)), ""})
						q = append(q, A{"u64", a, raw(ipnet.Uint64ToIP(hi)), ""})
					}
					q = append(q, A{"next", a, projFam(ipnet.NextIP(ip), w), ""})
					q = append(q, A{"less", a, b, ipnet.IPLess(ip, jp)})
					q = append(q, A{"less", b, a, ipnet.IPLess(jp, ip)})
					q = append(q, A{"less", a, a, ipnet.IPLess(s.ipForm(a), s.ipForm(a))})
					q = append(q, A{"between", a, b, ipnet.Contains(ip, ip, jp)})
					q = append(q, A{"max", a, "", maxOf(ip, w)})
					q = append(q, A{"first", a, "", ipnet.IsFirstIP(ip, w == 128)})
					m := s.r.Intn(w + 1)
					nt := realNet(s.r, a[:m], famOf(w))
					q = append(q, A{"last", a[:m], projFam(ipnet.LastIP(nt), w), w})
					q = append(q, A{"nextstart", a[:m], projFam(ipnet.NextStart(nt), w), w})
					if w == 32 || a[:96] != mappedPrefix {
						q = append(q, A{"net", a, projNet(ipnet.IpNet(ip, m), famOf(w)), m})
					}
					m2 := s.r.Intn(w + 1)
					q = append(q, A{"maskless", a[:m], b[:m2], ipnet.MaskLess(netOf(a[:m], w), netOf(b[:m2], w))})
					if v := 160 - w; s.r.Intn(3) == 0 {
						c := fix(randAddr(s.r, v), s.r, v)[:s.r.Intn(v+1)]
						if w == 32 {
							q = append(q, A{"masklessfam", a[:m], c, ipnet.MaskLess(netOf(a[:m], w), netOf(c, v)), true})
						} else {
							q = append(q, A{"masklessfam", a[:m], c, ipnet.MaskLess(netOf(a[:m], w), netOf(c, v)), false})
						}
					}
					if !ip.Equal(ipb) {
						q = append(q, A{"mutated", a, raw(ip), ""})
					}
				}
				return M{"q": q, "out": "ok"}
			})
			s.Do(M{"op": "rsort"}, func() M {
				fam := fams[s.r.Intn(2)]
				w := width(fam)
				var rs ipnet.Ranges
				in := A{}
				for k := 0; k < 8; k++ {
					a, b := s.randPair(w)
					in = append(in, A{a, b})
					rs = append(rs, ipnet.Range{Start: s.ipForm(a), End: s.ipForm(b)})
				}
				sort.Sort(rs)
				res := A{}
				for _, x := range rs {
					res = append(res, A{projIP(x.Start, fam), projIP(x.End, fam)})
				}
				return M{"in": in, "res": res, "out": "ok"}
			})
		})
	}
}

func famOf(w int) string {
	if w == 32 {
		return "4"
	}
	return "6"
}
func projFam(ip net.IP, w int) string { return projIP(ip, famOf(w)) }
func maxOf(ip net.IP, w int) bool {
	if w == 32 {
		ip = ip.To4()
	}
	return ipnet.IsAllMask(ip)
}
