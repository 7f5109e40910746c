package main

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
)

// Addresses and networks are strings of '0' and '1', as in spec/Bits.tla.

const mappedPrefix = "00000000000000000000000000000000000000000000000000000000000000000000000000000000" + "1111111111111111"

func zeros(n int) string { return strings.Repeat("0", n) }
func ones(n int) string  { return strings.Repeat("1", n) }

func firstOf(p string, w int) string { return p + zeros(w-len(p)) }
func lastOf(p string, w int) string  { return p + ones(w-len(p)) }

func randBits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(r.Intn(2))
	}
	return string(b)
}

func succ(a string) string {
	i := strings.LastIndexByte(a, '0')
	if i < 0 {
		return zeros(len(a))
	}
	return a[:i] + "1" + zeros(len(a)-i-1)
}

func pred(a string) string {
	i := strings.LastIndexByte(a, '1')
	if i < 0 {
		return ones(len(a))
	}
	return a[:i] + "0" + ones(len(a)-i-1)
}

func bytesOfBits(a string) []byte {
	b := make([]byte, len(a)/8)
	for i := 0; i < len(a); i++ {
		if a[i] == '1' {
			b[i/8] |= 0x80 >> uint(i%8)
		}
	}
	return b
}

func bitsOfBytes(b []byte) string {
	var sb strings.Builder
	for _, c := range b {
		for j := 7; j >= 0; j-- {
			sb.WriteByte('0' + (c>>uint(j))&1)
		}
	}
	return sb.String()
}

func ip4(a string) net.IP { return net.IP(bytesOfBits(a)) }

func uint32OfBits(a string) uint32 {
	var v uint32
	for i := 0; i < len(a); i++ {
		v = v<<1 | uint32(a[i]-'0')
	}
	return v
}

// netOf makes the IPNet of network p in a space of w bits.
func netOf(p string, w int) *net.IPNet {
	return &net.IPNet{IP: net.IP(bytesOfBits(firstOf(p, w))), Mask: net.CIDRMask(len(p), w)}
}

// width of the address space a family is written in.
func width(fam string) int {
	if fam == "4" {
		return 32
	}
	return 128
}

// projNet is the projection of a real network to the specification's.
func projNet(n *net.IPNet, fam string) string {
	if n == nil {
		return "!nil"
	}
	size, bits := n.Mask.Size()
	ip := n.IP
	if bits == 0 || (len(ip) != 4 && len(ip) != 16) {
		return fmt.Sprintf("!%v", n)
	}
	if fam == "4" {
		v4 := ip.To4()
		if v4 == nil {
			return fmt.Sprintf("!%v", n)
		}
		if bits == 128 {
			size -= 96
		}
		if size < 0 {
			return fmt.Sprintf("!%v", n)
		}
		ip = v4
	} else {
		if len(ip) == 4 {
			if bits != 32 {
				return fmt.Sprintf("!%v", n)
			}
			ip = ip.To16()
		}
		if bits == 32 {
			size += 96
		}
	}
	b := bitsOfBytes(ip)
	if strings.Contains(b[size:], "1") {
		return "!" + n.String()
	}
	return b[:size]
}

func projIP(ip net.IP, fam string) string {
	if fam == "4" {
		if v4 := ip.To4(); v4 != nil {
			return bitsOfBytes(v4)
		}
		return "!" + ip.String()
	}
	if v := ip.To16(); v != nil {
		return bitsOfBytes(v)
	}
	return "!" + ip.String()
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}
