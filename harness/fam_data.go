package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"net"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/qiniu/uip/db/format/awdb"
)

func init() {
	families["data"] = famData
	families["datagen"] = famDataGen
}

// -- values -------------------------------------------------------------------

func node(t, p string, c ...interface{}) M {
	if c == nil {
		c = A{}
	}
	return M{"t": t, "p": p, "c": A(c)}
}

func mag(b []byte) string { return hex.EncodeToString(new(big.Int).SetBytes(b).Bytes()) }

func signed(n int64) string {
	b := big.NewInt(n)
	h := hex.EncodeToString(new(big.Int).Abs(b).Bytes())
	if n < 0 {
		return "-" + h
	}
	return h
}

func mapNode(keys []string, get func(i int) interface{}) M {
	c := A{}
	seen := map[string]bool{}
	for i := len(keys) - 1; i >= 0; i-- {
		if !seen[keys[i]] {
			seen[keys[i]] = true
			c = append(c, node("e", hex.EncodeToString([]byte(keys[i])), get(i)))
		}
	}
	return node("m", "", c...)
}

// meant is what a generic decode of the value has to return.
func (v *Val) meant() M {
	switch v.T {
	case "str", "bytes":
		return node("b", hex.EncodeToString(v.B))
	case "u16", "u32", "u64":
		return node("u", mag(v.B))
	case "u128":
		return node("n", mag(v.B))
	case "i32":
		if len(v.B) == 4 && v.B[0] >= 128 {
			return node("i", signed(int64(int32(uint32(v.B[0])<<24|uint32(v.B[1])<<16|uint32(v.B[2])<<8|uint32(v.B[3])))))
		}
		return node("i", mag(v.B))
	case "f32", "f64":
		return node(v.T, hex.EncodeToString(v.B))
	case "bool":
		return node("t", strconv.Itoa(int(v.B[0])))
	case "arr":
		c := A{}
		for _, e := range v.L {
			c = append(c, e.meant())
		}
		return node("a", "", c...)
	}
	return mapNode(v.K, func(i int) interface{} { return v.L[i].meant() })
}

// project turns a decoded Go value into the same shape.
func project(v reflect.Value, offs *[]int) M {
	if v.IsValid() && v.Type() == reflect.TypeOf(big.Int{}) {
		x := v.Interface().(big.Int)
		p := hex.EncodeToString(x.Bytes())
		if x.Sign() < 0 {
			p = "-" + p
		}
		return node("n", p)
	}
	switch v.Kind() {
	case reflect.Invalid:
		return node("nil", "")
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return node("nil", "")
		}
		return project(v.Elem(), offs)
	case reflect.String:
		return node("s", hex.EncodeToString([]byte(v.String())))
	case reflect.Bool:
		if v.Bool() {
			return node("t", "1")
		}
		return node("t", "0")
	case reflect.Uintptr:
		if *offs != nil {
			*offs = append(*offs, int(v.Uint()))
		}
		return node("off", strconv.Itoa(int(v.Uint())))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return node("i", signed(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return node("u", hex.EncodeToString(new(big.Int).SetUint64(v.Uint()).Bytes()))
	case reflect.Float32:
		return node("f32", fmt.Sprintf("%08x", math.Float32bits(v.Interface().(float32))))
	case reflect.Float64:
		return node("f64", fmt.Sprintf("%016x", math.Float64bits(v.Float())))
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return node("b", hex.EncodeToString(v.Bytes()))
		}
		c := A{}
		for i := 0; i < v.Len(); i++ {
			c = append(c, project(v.Index(i), offs))
		}
		return node("a", "", c...)
	case reflect.Map:
		var keys []string
		for _, k := range v.MapKeys() {
			keys = append(keys, k.String())
		}
		sort.Strings(keys)
		return mapNode(keys, func(i int) interface{} { return project(v.MapIndex(reflect.ValueOf(keys[i])), offs) })
	case reflect.Struct:
		var named, emb A
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Anonymous {
				emb = append(emb, node("e", "", project(v.Field(i), offs)))
				continue
			}
			named = append(named, node("e", fieldKey(f), project(v.Field(i), offs)))
		}
		return node("st", "", append(named, emb...)...)
	}
	return node("unknown "+v.Kind().String(), "")
}

// chain flattens a deep value of single elements (no reader of traces nests that deep).
func chain(n M) M {
	kinds := ""
	for {
		c := n["c"].(A)
		if len(c) == 1 && n["t"] == "a" {
			kinds += "a"
			n = c[0].(M)
		} else if len(c) == 1 && n["t"] == "m" {
			kinds += "m"
			n = c[0].(M)["c"].(A)[0].(M)
		} else {
			break
		}
	}
	return node("chain", kinds, n)
}

func fieldKey(f reflect.StructField) string {
	switch tag := f.Tag.Get("awdb"); tag {
	case "":
		return hex.EncodeToString([]byte(f.Name))
	case "-":
		return "none"
	default:
		return hex.EncodeToString([]byte(tag))
	}
}

// -- random values ----------------------------------------------------------------

var someKeys = []string{"k", "names", "zh-CN", "country", "Name", "Geo", "位置", "a b", `q"\`, "iso_code", "x", "confidence", strings.Repeat("long", 8)}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func randNum(r *rand.Rand, t string, max int) *Val {
	n := r.Intn(max + 1)
	b := randBytes(r, n)
	if n > 0 {
		switch r.Intn(5) {
		case 0:
			b[0] = 0
		case 1:
			b[0] = 0x7f
		case 2:
			for i := range b {
				b[i] = 0xff
			}
		case 3:
			for i := range b {
				b[i] = 0
			}
			b[0] = 0x80
		}
	}
	return &Val{T: t, B: b}
}

var someFloats = []float64{0, math.Copysign(0, -1), 1, -1.5, 0.1, 3.25e10, math.MaxFloat32, math.MaxFloat64, math.SmallestNonzeroFloat32, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1e39, 39.9042, -116.4074, 1.0000000596046448}

func f64bytes(f float64) []byte { return uint64bytes(math.Float64bits(f), 8) }
func f32bytes(f float32) []byte { return uint64bytes(uint64(math.Float32bits(f)), 4) }
func uint64bytes(u uint64, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(u)
		u >>= 8
	}
	return b
}

func randLeaf(r *rand.Rand) *Val {
	switch r.Intn(13) {
	case 0, 1, 2:
		return &Val{T: "str", B: []byte(pick(r, []string{"", "x", "中国", "北京市", "Beijing", strings.Repeat("y", r.Intn(40))}))}
	case 3:
		return &Val{T: "bytes", B: randBytes(r, r.Intn(12))}
	case 4:
		return randNum(r, "u16", 2)
	case 5:
		return randNum(r, "u32", 4)
	case 6:
		return randNum(r, "u64", 8)
	case 7:
		return randNum(r, "u128", 16)
	case 8, 9:
		return randNum(r, "i32", 4)
	case 10:
		f := someFloats[r.Intn(len(someFloats))]
		if r.Intn(2) == 0 {
			return &Val{T: "f64", B: randBytes(r, 8)}
		}
		return &Val{T: "f64", B: f64bytes(f)}
	case 11:
		if r.Intn(2) == 0 {
			return &Val{T: "f32", B: randBytes(r, 4)}
		}
		return &Val{T: "f32", B: f32bytes(float32(someFloats[r.Intn(len(someFloats))]))}
	}
	return &Val{T: "bool", B: []byte{byte(r.Intn(2))}}
}

func randVal(r *rand.Rand, depth int) *Val {
	if depth == 0 || r.Intn(4) == 0 {
		return randLeaf(r)
	}
	n := r.Intn(6)
	if r.Intn(3) == 0 {
		v := &Val{T: "arr"}
		proto := randVal(r, depth-1)
		for i := 0; i < n; i++ {
			if r.Intn(3) > 0 {
				v.L = append(v.L, vary(r, proto))
			} else {
				v.L = append(v.L, randVal(r, depth-1))
			}
		}
		return v
	}
	v := &Val{T: "map"}
	for _, i := range r.Perm(len(someKeys))[:n] {
		v.K = append(v.K, someKeys[i])
		v.L = append(v.L, randVal(r, depth-1))
	}
	return v
}

// vary returns another value of the same shape.
func vary(r *rand.Rand, v *Val) *Val {
	w := &Val{T: v.T, B: v.B}
	switch v.T {
	case "str", "bytes":
		w.B = randBytes(r, r.Intn(6))
		if v.T == "str" {
			w.B = []byte(hex.EncodeToString(w.B))
		}
	case "map":
		for i, k := range v.K {
			if r.Intn(5) > 0 {
				w.K = append(w.K, k)
				w.L = append(w.L, vary(r, v.L[i]))
			}
		}
		r.Shuffle(len(w.K), func(i, j int) { w.K[i], w.K[j] = w.K[j], w.K[i]; w.L[i], w.L[j] = w.L[j], w.L[i] })
	case "arr":
		for _, e := range v.L {
			w.L = append(w.L, vary(r, e))
		}
	}
	return w
}

// -- targets ----------------------------------------------------------------------

var anyType = reflect.TypeOf((*interface{})(nil)).Elem()
var anyDesc = M{"k": "any"}
var intTypes = []reflect.Type{reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0))}
var uintTypes = []reflect.Type{reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0))}

func simpleType(k string, r *rand.Rand) (reflect.Type, M) {
	switch k {
	case "int":
		t := intTypes[r.Intn(len(intTypes))]
		return t, M{"k": "int", "bits": t.Bits()}
	case "uint":
		t := uintTypes[r.Intn(len(uintTypes))]
		return t, M{"k": "uint", "bits": t.Bits()}
	case "float":
		if r.Intn(2) == 0 {
			return reflect.TypeOf(float32(0)), M{"k": "float", "bits": 32}
		}
		return reflect.TypeOf(float64(0)), M{"k": "float", "bits": 64}
	case "string":
		return reflect.TypeOf(""), M{"k": "string"}
	case "bytes":
		return reflect.TypeOf([]byte{}), M{"k": "bytes"}
	case "bool":
		return reflect.TypeOf(false), M{"k": "bool"}
	case "big":
		return reflect.TypeOf(big.Int{}), M{"k": "big"}
	case "off":
		return reflect.TypeOf(uintptr(0)), M{"k": "off"}
	}
	return anyType, anyDesc
}

var simpleKinds = []string{"int", "uint", "float", "string", "bytes", "bool", "big", "off", "any"}

// target makes a type for a value; mostly one the value fits into.
func target(r *rand.Rand, v *Val, depth int) (reflect.Type, M) {
	if r.Intn(8) == 0 {
		return anyType, anyDesc
	}
	if r.Intn(8) == 0 {
		t, d := target(r, v, depth)
		if t.Kind() != reflect.Uintptr { // documented for fields only
			return reflect.PtrTo(t), M{"k": "ptr", "e": d}
		}
		return t, d
	}
	if r.Intn(25) == 0 {
		k := pick(r, simpleKinds)
		if k == "off" && depth == 0 {
			k = "any"
		}
		return simpleType(k, r)
	}
	switch v.T {
	case "str":
		return simpleType("string", r)
	case "bytes":
		return simpleType("bytes", r)
	case "u16", "u32", "u64", "i32":
		return simpleType(pick(r, []string{"int", "uint"}), r)
	case "u128":
		return simpleType("big", r)
	case "f32", "f64":
		return simpleType("float", r)
	case "bool":
		return simpleType("bool", r)
	case "arr":
		if len(v.L) == 0 {
			return reflect.TypeOf([]interface{}{}), M{"k": "slice", "e": anyDesc}
		}
		t, d := target(r, v.L[r.Intn(len(v.L))], depth+1)
		if t.Kind() == reflect.Uint8 {
			t, d = anyType, anyDesc
		}
		return reflect.SliceOf(t), M{"k": "slice", "e": d}
	}
	if r.Intn(3) == 0 {
		t, d := anyType, anyDesc
		if len(v.L) > 0 {
			t, d = target(r, v.L[r.Intn(len(v.L))], depth+1)
		}
		return reflect.MapOf(reflect.TypeOf(""), t), M{"k": "map", "e": d}
	}
	return structType(r, v, depth)
}

func structType(r *rand.Rand, v *Val, depth int) (reflect.Type, M) {
	var fs []reflect.StructField
	f, sub := A{}, A{}
	used := map[string]bool{}
	add := func(key string, t reflect.Type, d M) {
		if used[key] || key == "" || key == "-" || !utf8.ValidString(key) {
			return
		}
		used[key] = true
		sf := reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)), Type: t, Tag: reflect.StructTag("awdb:" + strconv.Quote(key))}
		if key == "Name" || key == "Geo" {
			sf.Name, sf.Tag = key, ""
		}
		fs = append(fs, sf)
		f = append(f, A{hex.EncodeToString([]byte(key)), d})
	}
	for i, k := range v.K {
		if r.Intn(3) > 0 {
			t, d := target(r, v.L[i], depth+1)
			add(k, t, d)
		}
	}
	if r.Intn(3) == 0 {
		t, d := simpleType(pick(r, simpleKinds), r)
		add(pick(r, []string{"missing", "k", "x"}), t, d)
	}
	if r.Intn(6) == 0 {
		fs = append(fs, reflect.StructField{Name: "Ignored", Type: anyType, Tag: `awdb:"-"`})
		f = append(f, A{"none", anyDesc})
	}
	for depth < 4 && r.Intn(4) == 0 {
		t, d := structType(r, v, depth+1)
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("E%d", len(fs)), Type: t, Anonymous: true})
		sub = append(sub, d)
	}
	r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	// the description in the order of the fields
	f, sub = reorder(fs, f, sub)
	return reflect.StructOf(fs), M{"k": "struct", "f": f, "s": sub}
}

// reorder sorts descriptions the way the fields were shuffled.
func reorder(fs []reflect.StructField, f, sub A) (A, A) {
	byKey := map[string]interface{}{}
	for _, x := range f {
		byKey[x.(A)[0].(string)] = x
	}
	// embedded ones are named after their position when they were added, which grows
	var names []string
	for _, x := range fs {
		if x.Anonymous {
			names = append(names, x.Name)
		}
	}
	sort.Slice(names, func(i, j int) bool { return atoi(names[i][1:]) < atoi(names[j][1:]) })
	byName := map[string]interface{}{}
	for i, n := range names {
		byName[n] = sub[i]
	}
	f2, s2 := A{}, A{}
	for _, x := range fs {
		if x.Anonymous {
			s2 = append(s2, byName[x.Name])
		} else {
			f2 = append(f2, byKey[fieldKey(x)])
		}
	}
	return f2, s2
}

func atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

// -- the file ---------------------------------------------------------------------

// dataFile is a file whose 16 leaves are the values.
type dataFile struct {
	segs []*region
	size int
	offs []int
	vals []*Val
	deep bool
}

const leafDepth = 4

func (f *dataFile) image(r *rand.Rand, bits int, fam string) []byte {
	count := 1<<leafDepth - 1
	tree := count * bits / 4
	out := make([]byte, tree+16+f.size)
	value := func(i int) uint64 {
		if i < count {
			return uint64(i)
		}
		return uint64(count + 16 + f.offs[(i-count)%len(f.offs)])
	}
	for i := 0; i < count; i++ {
		putNode(out[i*bits/4:], bits, value(2*i+1), value(2*i+2))
	}
	for _, g := range f.segs {
		copy(out[tree+16+g.start:], g.b)
	}
	out = append(out, "\xAB\xCD\xEFipplus360.com"...)
	return append(out, awMeta(r, count, bits, fam, "data", 1, []string{"cn"})...)
}

func (f *dataFile) step() M {
	segs := A{}
	for _, g := range f.segs {
		if len(g.b) > 0 {
			segs = append(segs, M{"o": g.start, "h": hex.EncodeToString(g.b)})
		}
	}
	vals, offs := A{}, A{}
	for i, v := range f.vals {
		if v != nil {
			vals = append(vals, v.meant())
			offs = append(offs, f.offs[i])
		}
	}
	return M{"op": "awdata", "r": "d", "segs": segs, "size": f.size, "offs": offs, "vals": vals}
}

// Data opens the file and decodes with the given targets.
type dataAsk struct {
	i int // which value
	t reflect.Type
	d M
}

func (s *Scen) Data(f *dataFile, asks []dataAsk) {
	fam := pick(s.r, []string{"4", "6"})
	bits := []int{24, 28, 32}[s.r.Intn(3)]
	if bits == 24 && f.size > 1<<24-100 {
		bits = 28
	}
	b := f.image(s.r, bits, fam)
	var rd *awdb.Reader
	st := s.Do(f.step(), func() M {
		var err error
		rd, err = awdb.FromBytes(b)
		return outOf(err)
	})
	if !ok(st) {
		return
	}
	again := []int{}
	for _, a := range asks {
		again = append(again, s.decode(rd, f, a, fam)...)
	}
	for i, o := range again {
		if i > 6 {
			break
		}
		s.decodeAt(rd, o, anyType, anyDesc)
	}
}

// wide skips a list of very many values on the way to what was asked for.
func (s *Scen) wide() {
	n := []int{300, 70000, 900000, 4000000, 16000000}[s.r.Intn(5)]
	kind := []byte{5 << 5, 2 << 5, 7 << 5, 6 << 5}[s.r.Intn(4)] // 0, "", {}, 0
	b := append([]byte{7<<5 | 2}, append(ctrl("str", 1), 97)...)
	b = append(b, ctrl("arr", n)...)
	for i := 0; i < n; i++ {
		b = append(b, kind)
	}
	b = append(append(b, append(ctrl("str", 1), 122)...), append(ctrl("str", 3), "end"...)...)
	f := &dataFile{offs: []int{0}, vals: []*Val{nil}, size: len(b), segs: []*region{{start: 0, b: b}}}
	img := f.image(s.r, 32, "4")
	rd, err := awdb.FromBytes(img)
	how := pick(s.r, []string{"lookup", "offset", "offsets"})
	s.Do(M{"op": "awide", "n": n, "api": how}, func() M {
		if err != nil {
			return outOf(err)
		}
		var v struct {
			Z string `awdb:"z"`
		}
		var o struct {
			A uintptr `awdb:"a"`
			Z string  `awdb:"z"`
		}
		var e error
		switch how {
		case "lookup":
			e = rd.Lookup(net.IP(randBytes(s.r, 4)), &v)
		case "offset":
			e = rd.Decode(0, &v)
		case "offsets":
			e = rd.Decode(0, &o)
			v.Z = o.Z
		}
		ret := outOf(e)
		ret["z"] = v.Z
		return ret
	})
}

func (s *Scen) decodeAt(rd *awdb.Reader, off int, t reflect.Type, d M) []int {
	offs := []int{}
	s.Do(M{"op": "awdec", "h": "d", "api": "decode", "off": off, "ty": d}, func() M {
		p := reflect.New(t)
		ret := outOf(rd.Decode(uintptr(off), p.Interface()))
		if ret["out"] == "ok" {
			ret["v"] = project(p.Elem(), &offs)
		}
		return ret
	})
	return offs
}

// decode asks for the value of a leaf in one of the ways there are.
func (s *Scen) decode(rd *awdb.Reader, f *dataFile, a dataAsk, fam string) []int {
	n := len(f.offs)
	leaf := a.i
	for leaf+n < 1<<leafDepth && s.r.Intn(2) == 0 {
		leaf += n
	}
	if fam == "6" && leaf == 0 {
		// under ::/4, found through an IPv4 address as well
		leaf = 0
	}
	ip := net.IP(randBytes(s.r, 4))
	if fam == "6" {
		ip = net.IP(randBytes(s.r, 16))
	}
	ip[0] = byte(leaf<<4) | ip[0]&15
	if fam == "6" && leaf == 0 && s.r.Intn(2) == 0 {
		ip = net.IP(randBytes(s.r, 4))
	}
	api := pick(s.r, []string{"lookup", "network", "offset", "decode"})
	off := f.offs[a.i]
	offs := []int{}
	s.Do(M{"op": "awdec", "h": "d", "api": api, "off": off, "ty": a.d}, func() M {
		p := reflect.New(a.t)
		var err error
		switch api {
		case "lookup":
			err = rd.Lookup(ip, p.Interface())
		case "network":
			var found bool
			_, found, err = rd.LookupNetwork(ip, p.Interface())
			if err == nil && !found {
				return M{"out": "err", "why": "not found"}
			}
		case "offset":
			var o uintptr
			o, err = rd.LookupOffset(ip)
			if err == nil {
				err = rd.Decode(o, p.Interface())
			}
		case "decode":
			err = rd.Decode(uintptr(off), p.Interface())
		}
		ret := outOf(err)
		if err == nil {
			v := project(p.Elem(), &offs)
			if f.deep {
				v = chain(v)
			}
			ret["v"] = v
		}
		return ret
	})
	return offs
}

// -- scenarios ----------------------------------------------------------------------

var edgeSizes = []int{27, 28, 29, 30, 283, 284, 285, 286}
var hugeSizes = []int{65819, 65820, 65821, 65822}

func (s *Scen) section(vals []*Val, ptr float64, starts ...int) *dataFile {
	d := newDataSec(s.r, ptr, starts...)
	f := &dataFile{vals: vals}
	for _, v := range vals {
		f.offs = append(f.offs, d.put(d.enc(v)))
	}
	f.segs, f.size = d.regions, d.size()
	return f
}

func (s *Scen) starts() []int {
	if s.r.Intn(14) == 0 { // the high bits of three byte pointers
		k := []int{1, 1, 1, 2, 3}[s.r.Intn(5)]
		return []int{0, 526336 + k<<24 - s.r.Intn(60), 526336 + k<<24 + 700 + s.r.Intn(1<<20)}
	}
	if s.r.Intn(120) == 0 { // only four byte pointers reach there
		return []int{0, 526336 + 1<<27 - s.r.Intn(60), 526336 + 1<<27 + 700}
	}
	switch s.r.Intn(4) {
	case 0:
		return []int{0}
	case 1: // around the edges of the pointer sizes
		return []int{0, 2048 - s.r.Intn(120), 2048 + 200 + s.r.Intn(300)}
	case 2:
		return []int{0, 1500, 2048 + 65536 - s.r.Intn(60), 526336 - s.r.Intn(300), 526336 + 700 + s.r.Intn(70000)}
	}
	return []int{0, 256, 500, 526336 + s.r.Intn(100)}
}

func famData(c *Ctx) {
	for i := 0; i < c.n; i++ {
		c.Scenario("values", func(s *Scen) {
			var vals []*Val
			for n := 1 + s.r.Intn(6); n > 0; n-- {
				vals = append(vals, randVal(s.r, 1+s.r.Intn(4)))
			}
			f := s.section(vals, []float64{0, 0.3, 0.7, 1}[s.r.Intn(4)], s.starts()...)
			var asks []dataAsk
			for i, v := range vals {
				asks = append(asks, dataAsk{i, anyType, anyDesc})
				for k := 0; k < 3; k++ {
					t, d := target(s.r, v, 0)
					asks = append(asks, dataAsk{i, t, d})
				}
			}
			s.Data(f, asks)
		})
	}
	for i := 0; i < c.n/5; i++ {
		// one value of every size class behind the others
		c.Scenario("sizes", func(s *Scen) {
			v := &Val{T: "map"}
			var long *Val
			for k := 0; k < 4; k++ {
				n := edgeSizes[s.r.Intn(len(edgeSizes))]
				switch s.r.Intn(4) {
				case 0:
					long = &Val{T: "str", B: []byte(strings.Repeat("s", n))}
				case 1:
					long = &Val{T: "bytes", B: randBytes(s.r, n)}
				case 2:
					long = &Val{T: "arr"}
					for ; n > 0; n-- {
						long.L = append(long.L, randNum(s.r, "u16", 2))
					}
				case 3:
					long = &Val{T: "map"}
					for ; n > 0; n-- {
						long.K = append(long.K, "k"+itoa(n))
						long.L = append(long.L, randNum(s.r, "u32", 3))
					}
				}
				v.K = append(v.K, "v"+itoa(k), strings.Repeat("K", n)+itoa(k))
				v.L = append(v.L, long, randLeaf(s.r))
			}
			vals := []*Val{v, long}
			f := s.section(vals, []float64{0, 0.5}[s.r.Intn(2)], s.starts()[0])
			asks := []dataAsk{{0, anyType, anyDesc}, {1, anyType, anyDesc}}
			for k := 0; k < 3; k++ {
				t, d := structType(s.r, v, 0)
				asks = append(asks, dataAsk{0, t, d})
			}
			s.Data(f, asks)
		})
	}
	for i := 0; i < c.n/25+1; i++ {
		c.Scenario("huge", func(s *Scen) {
			v := &Val{T: "map", K: []string{"a", "b", "c"}, L: []*Val{strVal("first"),
				{T: pick(s.r, []string{"str", "bytes"}), B: []byte(strings.Repeat("h", hugeSizes[s.r.Intn(len(hugeSizes))]))}, strVal("last")}}
			f := s.section([]*Val{v}, []float64{0, 0.5}[s.r.Intn(2)], 0)
			asks := []dataAsk{{0, anyType, anyDesc}}
			t := reflect.StructOf([]reflect.StructField{{Name: "A", Type: anyType, Tag: `awdb:"a"`}, {Name: "C", Type: anyType, Tag: `awdb:"c"`}})
			asks = append(asks, dataAsk{0, t, M{"k": "struct", "f": A{A{"61", anyDesc}, A{"63", anyDesc}}, "s": A{}}})
			s.Data(f, asks)
		})
	}
	for i := 0; i < c.n/40+2; i++ {
		c.Scenario("wide", func(s *Scen) { s.wide() })
	}
	for i := 0; i < c.n/8+1; i++ {
		c.Scenario("nesting", func(s *Scen) {
			depth := []int{100, 150, 199, 350, 720, 1500, 20000}[s.r.Intn(7)]
			ptr := []float64{0, 0.5}[s.r.Intn(2)]
			if depth > 199 {
				ptr = 0
			}
			v := randLeaf(s.r)
			kind := s.r.Intn(3)
			for k := 0; k < depth; k++ {
				if kind == 0 || kind == 2 && s.r.Intn(2) == 0 {
					v = &Val{T: "arr", L: []*Val{v}}
				} else {
					v = &Val{T: "map", K: []string{"k"}, L: []*Val{v}}
				}
			}
			d := newDataSec(s.r, ptr, 0)
			f := &dataFile{offs: []int{d.put(encDeep(d, v))}, vals: []*Val{nil}, deep: true}
			f.segs, f.size = d.regions, d.size()
			s.Data(f, []dataAsk{{0, anyType, anyDesc}})
		})
	}
	for i := 0; i < c.n/2; i++ {
		c.Scenario("cells", func(s *Scen) { s.cells() })
	}
	for i := 0; i < c.n/4; i++ {
		// a section that ends inside the last value
		c.Scenario("cut", func(s *Scen) {
			v := randVal(s.r, 2)
			d := newDataSec(s.r, 0, 0)
			b := d.enc(v)
			if len(b) < 2 {
				return
			}
			cut := 1 + s.r.Intn(len(b)-1)
			f := &dataFile{offs: []int{0}, vals: []*Val{nil}, size: cut, segs: []*region{{start: 0, b: b[:cut]}}}
			asks := []dataAsk{{0, anyType, anyDesc}}
			for k := 0; k < 3; k++ {
				t, d := target(s.r, v, 0)
				asks = append(asks, dataAsk{0, t, d})
			}
			s.Data(f, asks)
		})
	}
}

// encDeep encodes without deep recursion.
func encDeep(d *DataSec, v *Val) []byte {
	var chain []*Val
	for v.T == "arr" || v.T == "map" {
		chain = append(chain, v)
		v = v.L[0]
	}
	b := d.enc(v)
	if d.ptr > 0 {
		b = d.pointer(d.put(b))
	}
	if d.ptr == 0 {
		var head []byte
		for _, c := range chain {
			head = append(head, ctrl(c.T, 1)...)
			if c.T == "map" {
				head = append(head, 0x41, 'k')
			}
		}
		return append(head, b...)
	}
	for i := len(chain) - 1; i >= 0; i-- {
		h := ctrl(chain[i].T, 1)
		if chain[i].T == "map" {
			h = append(h, 0x41, 'k')
		}
		b = append(h, b...)
		if i > 0 && d.r.Float64() < d.ptr {
			b = d.pointer(d.put(b))
		}
	}
	return b
}

// cells that point at each other in any way.
func (s *Scen) cells() {
	n := 2 + s.r.Intn(4)
	base := []int{0, 2048, 4096}[s.r.Intn(3)]
	d := newDataSec(s.r, 0, 0)
	ref := func() []byte { return d.pointer(base + 32*s.r.Intn(n)) }
	g := &region{start: base}
	var offs []int
	for i := 0; i < n; i++ {
		var b []byte
		switch s.r.Intn(9) {
		case 0, 1:
			b = ref()
		case 2:
			b = append(ctrl("arr", 1), ref()...)
		case 3:
			b = append(ctrl("arr", 2), append(ref(), ref()...)...)
		case 4:
			b = append(append(ctrl("map", 1), ref()...), 0x41, 'v')
		case 5:
			b = append(append(ctrl("map", 2), 0x41, 'k'), append(ref(), append([]byte{0x41, 'l'}, ref()...)...)...)
		case 6:
			b = []byte{0x41, 'k'}
		case 7:
			b = append(append(ctrl("map", 1), ref()...), ref()...)
		case 8:
			b = ctrl("bool", 1)
		}
		offs = append(offs, base+32*i)
		g.b = append(g.b, append(b, make([]byte, 32-len(b))...)...)
	}
	f := &dataFile{offs: offs, vals: make([]*Val, n), size: base + 32*n, segs: []*region{g}}
	strs := reflect.TypeOf(map[string]string{})
	st := reflect.StructOf([]reflect.StructField{{Name: "K", Type: anyType, Tag: `awdb:"k"`}, {Name: "X", Type: anyType, Tag: `awdb:"x"`}})
	var asks []dataAsk
	for i := range offs {
		asks = append(asks, dataAsk{i, anyType, anyDesc},
			dataAsk{i, strs, M{"k": "map", "e": M{"k": "string"}}},
			dataAsk{i, st, M{"k": "struct", "f": A{A{"6b", anyDesc}, A{"78", anyDesc}}, "s": A{}}},
			dataAsk{i, reflect.TypeOf(map[string]uintptr{}), M{"k": "map", "e": M{"k": "off"}}})
	}
	s.Data(f, asks)
}

// famDataGen replays the sections of spec/DataAlg.tla.
func famDataGen(c *Ctx) {
	for _, m := range c.scen {
		m := m
		c.Scenario("gen", func(s *Scen) {
			f := &dataFile{size: int(m["size"].(float64)), offs: []int{int(m["at"].(float64))}, vals: []*Val{nil}}
			for _, x := range m["segs"].([]interface{}) {
				g := x.(map[string]interface{})
				b, _ := hex.DecodeString(g["h"].(string))
				f.segs = append(f.segs, &region{start: int(g["o"].(float64)), b: b})
			}
			st := reflect.StructOf([]reflect.StructField{{Name: "K", Type: anyType, Tag: `awdb:"k"`}})
			emb := reflect.StructOf([]reflect.StructField{{Name: "L", Type: anyType, Tag: `awdb:"l"`}, {Name: "E", Type: st, Anonymous: true}})
			asks := []dataAsk{{0, anyType, anyDesc}, {0, emb, M{"k": "struct", "f": A{A{"6c", anyDesc}}, "s": A{M{"k": "struct", "f": A{A{"6b", anyDesc}}, "s": A{}}}}},
				{0, reflect.TypeOf(map[string]string{}), M{"k": "map", "e": M{"k": "string"}}},
				{0, reflect.TypeOf([]string{}), M{"k": "slice", "e": M{"k": "string"}}},
				{0, reflect.TypeOf(map[string]uintptr{}), M{"k": "map", "e": M{"k": "off"}}},
				{0, reflect.TypeOf(uint8(0)), M{"k": "uint", "bits": 8}}}
			s.Data(f, asks)
		})
	}
}
