package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// DocCfg are the knobs of the document generator, in percent.
type DocCfg struct {
	Null     int // null instead of a value
	Unknown  int // unknown field per struct
	Dup      int // repeated key per object
	Case     int // key in other letter case
	EscKey   int // key written with escapes
	Bad      int // wrong type or value that does not fit, per value
	WS       int // white space
	Surplus  int // arrays longer or shorter than the Go array
	Present  int // field present
	Max      int // length of containers
	Depth    int
	Wide     int  // now and then a container with many elements
	Deep     bool // one chain of nested values goes much deeper than the rest
	BadAt    int  // depth of one value of the wrong type
	Rare     int  // unusual spellings of numbers, names and strings
	Huge     int  // size of one list, map, string, name or piece of white space
	HugeAt   int  // which one
	NoSurrog bool
	// NoDupSlice: keys of fields that reach a slice are not repeated. encoding/json
	// shows what was left in the spare capacity of a slice that shrinks and grows again
	// within one document, which is not a behaviour to hold another decoder to.
	NoDupSlice bool
	// uniq numbers texts so that deliveries are distinguishable
	uniq  int
	bads  int
	nodes int
}

func swarmDoc(r *Rng) *DocCfg {
	c := &DocCfg{
		Null: pick(r, 0, 3, 10), Unknown: pick(r, 0, 10, 40), Dup: pick(r, 0, 0, 10),
		Case: pick(r, 0, 0, 5, 30, 30, 80), EscKey: pick(r, 0, 0, 0, 15, 15, 60), WS: pick(r, 0, 0, 10, 50),
		Surplus: pick(r, 10, 40), Present: pick(r, 15, 50, 80, 80, 95), Max: pick(r, 2, 3, 5),
		Depth: pick(r, 2, 3, 4, 5), Wide: pick(r, 0, 0, 2), Rare: pick(r, 0, 5, 25),
	}
	if r.P(8) {
		deepDoc(r, c)
	}
	return c
}

// deepDoc makes one chain of nested values deep.
func deepDoc(r *Rng, c *DocCfg) {
	c.Deep = true
	c.Depth = pick(r, 12, 20, 40, 70, 130)
	c.Present = 95
	c.Null = min(c.Null, 3)
}

// hugeDoc makes one part of the document very large.
func hugeDoc(r *Rng, c *DocCfg) {
	c.Huge = pick(r, 63, 64, 127, 128, 255, 255, 256, 256, 511, 1000, 1023, 1024, 2048) + r.N(3) - r.N(2)
	if r.P(20) {
		c.Huge = pick(r, 4095, 4096, 8192, 16384, 32767, 65535, 65535, 100000) + r.N(3) - r.N(2)
	}
	c.HugeAt = r.N(pick(r, 1, 3, 8, 20))
	if r.P(50) {
		c.Huge = 0
		c.Deep, c.Present, c.Null = true, pick(r, 2, 10, 50), 0
		c.Depth = pick(r, 128, 256, 256, 256, 512)*pick(r, 1, 1, 2, 2, 3, 4) + r.N(12) - r.N(4)
		if r.P(50) {
			c.BadAt = r.Range(1, 7)
		}
	}
}

// huge is the size of this part, if it is the one that is very large.
func (g *docGen) huge() int {
	c := g.c
	if c.Huge == 0 {
		return 0
	}
	if c.HugeAt > 0 {
		c.HugeAt--
		return 0
	}
	n := c.Huge
	c.Huge = 0
	c.WS = 0
	return n
}

// full reports whether a very large part is large enough.
func (g *docGen) full() bool { return len(g.b) > 400000 }

// in is the depth left for a child: one child of every deep container goes on.
func (g *docGen) in(depth, i, n int) int {
	if !g.c.Deep || depth <= 5 {
		return depth - 1
	}
	if i == n {
		return depth - 1
	}
	return 1
}

type docGen struct {
	r *Rng
	c *DocCfg
	b []byte
}

func genDoc(r *Rng, t reflect.Type, c *DocCfg) []byte {
	g := &docGen{r: r, c: c}
	c.nodes = 0
	g.ws()
	g.value(t, c.Depth, "")
	g.ws()
	return g.b
}

func (g *docGen) s(x string) { g.b = append(g.b, x...) }
func (g *docGen) ws() {
	for g.c.WS > 0 && g.r.P(g.c.WS) {
		g.b = append(g.b, " \t\n\r"[g.r.N(4)])
		if g.c.Huge > 0 && g.r.P(5) {
			for n := g.huge(); n > 0; n-- {
				g.b = append(g.b, " \t\n\r"[g.r.N(4)])
			}
		}
	}
}

var mapKeys = []string{"a", "b", "key", "k2", "long key with spaces", "é", "0", "x\"y", "tab\t"}

// fieldInfo is a struct field as encoding/json sees it.
type fieldInfo struct {
	i         int
	name, opt string
	t         reflect.Type
}

// structInfo are the fields of a struct that take part in decoding, and the others.
type structInfo struct {
	in  []fieldInfo
	out []int

	endless []fieldInfo // fields whose values can have any depth
}

var structMemo = map[reflect.Type]*structInfo{}

func memoTypes() {
	for _, tc := range types {
		memoStructs(tc.RT, map[reflect.Type]bool{})
	}
	for t, si := range structMemo {
		for _, f := range si.in {
			if endless(f.t, map[reflect.Type]bool{t: true}) {
				si.endless = append(si.endless, f)
			}
		}
	}
}

// memoStructs fills structMemo before any task runs, it is only read afterwards.
func memoStructs(t reflect.Type, seen map[reflect.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Map:
		memoStructs(t.Key(), seen)
		memoStructs(t.Elem(), seen)
	case reflect.Slice, reflect.Array, reflect.Pointer:
		memoStructs(t.Elem(), seen)
	case reflect.Struct:
		structMemo[t] = newStructInfo(t)
		for i := 0; i < t.NumField(); i++ {
			memoStructs(t.Field(i).Type, seen)
		}
	}
}

func newStructInfo(t reflect.Type) *structInfo {
	si := &structInfo{}
	var l []fieldInfo
	tagged := map[int]bool{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("json")
		if !f.IsExported() || tag == "-" {
			continue
		}
		fi := fieldInfo{i: i, name: f.Name, t: f.Type}
		n, o, _ := strings.Cut(tag, ",")
		if n != "" && strings.IndexFunc(n, func(c rune) bool {
			return !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) && !unicode.IsLetter(c) && !unicode.IsDigit(c)
		}) < 0 {
			fi.name = n
			tagged[i] = true
		}
		for _, x := range strings.Split(o, ",") {
			if x == "string" {
				fi.opt = x
			}
		}
		l = append(l, fi)
	}
	used := map[int]bool{}
	for _, f := range l {
		ok := true
		for _, g := range l {
			if g.i != f.i && g.name == f.name && (tagged[g.i] || !tagged[f.i]) {
				ok = false
			}
		}
		if ok {
			si.in = append(si.in, f)
			used[f.i] = true
		}
	}
	for i := 0; i < t.NumField(); i++ {
		if !used[i] {
			si.out = append(si.out, i)
		}
	}
	return si
}

func infoOf(t reflect.Type) *structInfo {
	if si := structMemo[t]; si != nil {
		return si
	}
	return newStructInfo(t)
}

func (g *docGen) value(t reflect.Type, depth int, opt string) {
	r, c := g.r, g.c
	c.nodes++
	if c.nodes > 4000 && depth > 0 {
		depth = 0
	}
	if (c.Bad > 0 && r.P(c.Bad)) || (c.BadAt > 0 && depth == c.BadAt) {
		c.BadAt = 0
		c.bads++
		g.bad(t, depth, opt)
		return
	}
	if isJSONU(t) {
		g.any(depth)
		return
	}
	if opt != "nonull" && r.P(c.Null) {
		g.s("null")
		return
	}
	if isTextU(t) {
		g.text()
		return
	}
	if isNumber(t) {
		if r.P(20) {
			in := docGen{r: r, c: c}
			in.number()
			if r.P(c.Rare) {
				i := r.N(len(in.b))
				in.b = []byte(string(in.b[:i]) + `\u00` + strconv.FormatInt(int64(in.b[i])+0x100, 16)[1:] + string(in.b[i+1:]))
			}
			g.s(`"` + string(in.b) + `"`)
		} else {
			g.number()
		}
		return
	}
	if opt == "string" {
		switch t.Kind() {
		case reflect.String:
			if r.P(c.Rare) {
				// A string within a string, with escapes of its own.
				in := docGen{r: r, c: &DocCfg{NoSurrog: true}}
				in.str()
				b, _ := json.Marshal(string(in.b))
				g.b = append(g.b, b...)
				return
			}
			g.s(`"\"`)
			g.s(strings.Repeat("q", r.N(5)) + strconv.Itoa(r.N(100)))
			g.s(`\""`)
			return
		case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
			reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64:
			if r.P(c.Rare) {
				// With escapes or leading zeros.
				in := docGen{r: r, c: &DocCfg{}}
				in.value(t, depth, "nonull")
				g.s(`"`)
				g.rareInt(string(in.b), t, false)
				g.s(`"`)
				return
			}
			g.s(`"`)
			g.value(t, depth, "nonull")
			g.s(`"`)
			return
		}
	}
	switch t.Kind() {
	case reflect.Bool:
		g.s(pick(r, "true", "false"))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		g.s(intText(r, t.Bits(), true))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		g.s(intText(r, t.Bits(), false))
	case reflect.Float32, reflect.Float64:
		g.number()
	case reflect.String:
		g.str()
	case reflect.Interface:
		if t.NumMethod() > 0 {
			g.s("null")
			return
		}
		g.any(depth)
	case reflect.Pointer:
		g.value(t.Elem(), depth, "")
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && r.P(40) {
			b := make([]byte, r.N(c.Max*3+1))
			for i := range b {
				b[i] = byte(r.U64())
			}
			s := base64.StdEncoding.EncodeToString(b)
			if r.P(c.Rare) {
				s = strings.ReplaceAll(s, "/", `\/`)
			}
			if r.P(c.Rare) && len(s) > 4 {
				s = s[:4] + `\n` + s[4:]
			}
			g.s(`"` + s + `"`)
			return
		}
		n := r.N(c.Max + 1)
		if depth <= 0 {
			n = 0
		}
		if r.P(c.Wide) {
			n = r.Range(20, 60)
			if c.nodes > 2000 {
				n = 1
			}
		}
		if c.Deep && depth > 5 {
			n = r.Range(1, 2)
		}
		if h := g.huge(); h > 0 {
			n, depth = h, min(depth, 1)
		}
		g.list(n, t.Elem(), depth)
	case reflect.Array:
		n := t.Len()
		if r.P(c.Surplus) {
			n = r.N(t.Len() + 3)
		}
		if depth <= -3 {
			n = 0
		}
		if n > t.Len() {
			if h := g.huge(); h > 0 {
				n, depth = h, min(depth, 1)
			}
		}
		g.list(n, t.Elem(), depth)
	case reflect.Map:
		n := r.N(c.Max + 1)
		if depth <= 0 {
			n = 0
		}
		if r.P(c.Wide) && c.nodes < 2000 {
			n = r.Range(9, 30)
		}
		if c.Deep && depth > 5 {
			n = r.Range(1, 2)
		}
		if h := g.huge(); h > 0 {
			n, depth = h, min(depth, 1)
		}
		g.s("{")
		g.ws()
		for i := 0; i < n && (i < 100 || !g.full()); i++ {
			if i > 0 {
				g.s(",")
				g.ws()
			}
			g.mapKey(t.Key(), i, n)
			g.ws()
			g.s(":")
			g.ws()
			g.value(t.Elem(), g.in(depth, i, n-1), "")
			g.ws()
		}
		g.s("}")
	case reflect.Struct:
		g.strukt(t, depth)
	default:
		g.s("null")
	}
}

func (g *docGen) list(n int, e reflect.Type, depth int) {
	g.s("[")
	g.ws()
	for i := 0; i < n && (i < 100 || !g.full()); i++ {
		if i > 0 {
			g.s(",")
			g.ws()
		}
		g.value(e, g.in(depth, i, n-1), "")
		g.ws()
	}
	g.s("]")
}

// rareInt writes the text of a quoted literal in an unusual way.
func (g *docGen) rareInt(s string, t reflect.Type, plus bool) {
	r := g.r
	switch r.N(3) {
	case 0:
		if s[0] != '-' && t.Kind() >= reflect.Int && t.Kind() <= reflect.Int64 && plus {
			g.s("+")
		}
		g.s(s)
	case 1:
		if c := s[0]; t.Kind() != reflect.Bool && t.Kind() != reflect.Float32 && t.Kind() != reflect.Float64 {
			if c == '-' {
				g.s("-")
				s = s[1:]
			}
			g.s(strings.Repeat("0", pick(r, 1, 1, 2, 30)))
		}
		g.s(s)
	default:
		i := r.N(len(s))
		g.s(s[:i])
		g.s(`\u00`)
		g.s(strconv.FormatInt(int64(s[i])+0x100, 16)[1:])
		g.s(s[i+1:])
	}
}

func (g *docGen) mapKey(t reflect.Type, i, n int) {
	r := g.r
	if isTextKey(t) {
		g.text()
		return
	}
	switch t.Kind() {
	case reflect.String:
		if n > 6 {
			g.s(strconv.Quote("wide" + strconv.Itoa(i)))
			return
		}
		if r.P(70) {
			b, _ := json.Marshal(mapKeys[r.N(len(mapKeys))])
			g.b = append(g.b, b...)
		} else {
			g.str()
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		g.s(`"`)
		if n > 60 && r.P(80) {
			g.s(strconv.Itoa(i & (1<<(t.Bits()-1) - 1)))
		} else if r.P(g.c.Rare) {
			g.rareInt(strconv.Itoa(r.N(120)-20), t, true)
		} else if r.P(60) {
			g.s(strconv.Itoa(r.N(6) - 2))
		} else {
			g.s(intText(r, t.Bits(), true))
		}
		g.s(`"`)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		g.s(`"`)
		if n > 60 && r.P(80) {
			g.s(strconv.Itoa(i & (1<<(t.Bits()-1) - 1)))
		} else if r.P(g.c.Rare) {
			g.rareInt(strconv.Itoa(r.N(120)), t, true)
		} else if r.P(60) {
			g.s(strconv.Itoa(r.N(6)))
		} else {
			g.s(intText(r, t.Bits(), false))
		}
		g.s(`"`)
	default:
		g.str()
	}
}

func (g *docGen) strukt(t reflect.Type, depth int) {
	r, c := g.r, g.c
	type fld struct {
		name, opt string
		t         reflect.Type
	}
	var l []fld
	si := infoOf(t)
	for _, f := range si.in {
		if r.P(c.Present) && (depth > 0 || f.t.Kind() != reflect.Pointer) {
			l = append(l, fld{f.name, f.opt, f.t})
			if r.P(c.Dup) && !(c.NoDupSlice && mayDupSlice(f.t)) {
				l = append(l, fld{f.name, f.opt, f.t})
			}
		}
	}
	for _, i := range si.out {
		if r.P(15) {
			// Not names of fields, unless another one has it.
			for _, n := range []string{"-", t.Field(i).Name, tagName(t.Field(i))} {
				if _, ok := findField(t, n, false); !ok && json.Valid([]byte(`"`+n+`"`)) {
					l = append(l, fld{n, "", nil})
				}
			}
		}
	}
	if c.Huge > 0 && c.Huge < 3000 && c.Unknown > 0 && r.P(20) {
		for n := g.huge(); n > 0; n-- {
			l = append(l, fld{"unknown" + strconv.Itoa(n), "", nil})
		}
		depth = 0
	}
	if c.Huge > 0 && c.Unknown > 0 && r.P(20) {
		if n := g.huge(); n > 0 {
			l = append(l, fld{strings.Repeat("unknown", n/7+1)[:n], "", nil})
		}
	}
	for r.P(c.Unknown) {
		l = append(l, fld{pick(r, "unknown", "zz", "", "İd", "x-y", "Ünï", "nope\\n"), "", nil})
	}
	if r.P(30) {
		for i := len(l) - 1; i > 0; i-- {
			j := r.N(i + 1)
			l[i], l[j] = l[j], l[i]
		}
	}
	chain := 0
	if e := si.endless; c.Deep && depth > 5 && len(e) > 0 {
		// A field that can go on.
		f := e[r.N(len(e))]
		for chain < len(l) && l[chain].name != f.name {
			chain++
		}
		if chain == len(l) {
			l = append(l, fld{f.name, f.opt, f.t})
		}
	} else if c.Deep && len(l) > 0 {
		chain = r.N(len(l))
		for try := 0; try < 8 && (l[chain].t == nil || !nests(l[chain].t)); try++ {
			chain = r.N(len(l))
		}
	}
	g.s("{")
	g.ws()
	for i, f := range l {
		if i > 0 {
			g.s(",")
			g.ws()
		}
		name := f.name
		if f.t != nil && r.P(c.Case) {
			name = flipCase(r, name)
		}
		g.s(`"`)
		if r.P(c.EscKey) && name != "" && f.t != nil {
			k := r.N(len(name))
			if name[k] < utf8.RuneSelf {
				g.s(name[:k])
				g.s(`\u00`)
				g.s(strconv.FormatInt(int64(name[k])+0x100, 16)[1:])
				g.s(name[k+1:])
			} else {
				g.s(name)
			}
		} else {
			g.s(name)
		}
		g.s(`"`)
		g.ws()
		g.s(":")
		g.ws()
		if f.t == nil {
			g.any(min(depth, 4))
		} else {
			g.value(f.t, g.in(depth, i, chain), f.opt)
		}
		g.ws()
	}
	g.s("}")
}

// endless reports whether values of type t can have any depth.
func endless(t reflect.Type, in map[reflect.Type]bool) bool {
	if in[t] {
		return true
	}
	in[t] = true
	defer delete(in, t)
	switch {
	case isJSONU(t):
		return true
	case isTextU(t):
		return false
	}
	switch t.Kind() {
	case reflect.Interface:
		return t.NumMethod() == 0
	case reflect.Array:
		return t.Len() > 0 && endless(t.Elem(), in)
	case reflect.Pointer, reflect.Slice, reflect.Map:
		return endless(t.Elem(), in)
	case reflect.Struct:
		for _, f := range infoOf(t).in {
			if endless(f.t, in) {
				return true
			}
		}
	}
	return false
}

// nests reports whether values of type t contain other values.
func nests(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct, reflect.Slice, reflect.Map, reflect.Interface:
		return true
	case reflect.Array, reflect.Pointer:
		return nests(t.Elem())
	}
	return false
}

// rareNumber is a number that is hard to convert: halfway between two floats, with more
// digits than a float holds, denormal, or a negative zero.
func rareNumber(r *Rng) string {
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = '0' + byte(r.N(10))
		}
		b[0] = '1' + byte(r.N(9))
		return string(b)
	}
	switch r.N(9) {
	case 0:
		// Halfway between two neighbouring float32 values, or next to it.
		f := math.Float32frombits(uint32(r.N(0x7f000000)))
		g := math.Nextafter32(f, math.MaxFloat32)
		h := new(big.Float).SetPrec(300).Add(new(big.Float).SetPrec(300).SetFloat64(float64(f)), new(big.Float).SetFloat64(float64(g)))
		h.Quo(h, big.NewFloat(2))
		return h.Text('e', pick(r, 30, 60, 90)) + ""
	case 1:
		f := math.Float64frombits(r.U64() % 0x7fe0000000000000)
		h := new(big.Float).SetPrec(2000).SetFloat64(f)
		h.Add(h, new(big.Float).SetPrec(2000).SetFloat64(math.Nextafter(f, math.MaxFloat64)))
		h.Quo(h, big.NewFloat(2))
		return h.Text('e', pick(r, 20, 50, 100))
	case 2:
		return digits(r.Range(17, 40))
	case 3:
		return digits(r.Range(1, 20)) + "." + digits(r.Range(1, 25))
	case 4:
		return "-" + digits(r.Range(1, 20)) + "." + digits(r.Range(1, 25)) + "e" + strconv.Itoa(r.N(40)-30)
	case 5:
		return pick(r, "-0", "-0.0", "-0e5", "0e-5", "0.000", "-0.0e-0", "-1e-400", "1e-400", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324")
	case 6:
		return strconv.FormatFloat(math.Float64frombits(r.U64()%0x7ff0000000000000), pick(r, byte('e'), byte('g'), byte('f')), -1, 64)
	case 7:
		return strconv.FormatFloat(float64(math.Float32frombits(uint32(r.N(0x7f800000)))), pick(r, byte('e'), byte('f')), -1, pick(r, 32, 64))
	default:
		return "0." + strings.Repeat("0", r.N(30)) + digits(r.Range(1, 20)) + pick(r, "", "E+10", "e-3", "e20")
	}
}

func tagName(f reflect.StructField) string {
	n, _, _ := strings.Cut(f.Tag.Get("json"), ",")
	return n
}

var sliceMemo = map[reflect.Type]bool{}

func mayDupSlice(t reflect.Type) bool {
	v, ok := sliceMemo[t]
	if !ok {
		v = reachesSlice(t, map[reflect.Type]bool{})
		sliceMemo[t] = v
	}
	return v
}

func reachesSlice(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Slice:
		return true
	case reflect.Pointer, reflect.Array:
		return reachesSlice(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if reachesSlice(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

func flipCase(r *Rng, s string) string {
	if r.P(20) {
		// These fold to k and s.
		s = strings.Replace(s, pick(r, "k", "K"), "\u212a", 1)
		s = strings.Replace(s, pick(r, "s", "S"), "\u017f", 1)
	}
	if r.P(20) {
		return pick(r, strings.ToUpper, strings.ToLower)(s)
	}
	b := []byte(s)
	for i, ch := range b {
		if r.P(50) {
			if ch >= 'a' && ch <= 'z' {
				b[i] = ch - 32
			} else if ch >= 'A' && ch <= 'Z' {
				b[i] = ch + 32
			}
		}
	}
	return string(b)
}

func intText(r *Rng, bits int, signed bool) string {
	if signed {
		max := int64(1)<<(bits-1) - 1
		min := -max - 1
		switch r.N(8) {
		case 0:
			return strconv.FormatInt(max-int64(r.N(2)), 10)
		case 1:
			return strconv.FormatInt(min+int64(r.N(2)), 10)
		case 2, 3:
			return strconv.FormatInt(int64(r.U64()>>(64-uint(bits)))>>uint(r.N(bits)), 10)
		case 4:
			return strconv.FormatInt((-(int64(r.U64() >> (65 - uint(bits)))))>>uint(r.N(bits)), 10)
		default:
			return strconv.Itoa(r.N(200) - 100)
		}
	}
	max := ^uint64(0) >> (64 - uint(bits))
	switch r.N(6) {
	case 0:
		return strconv.FormatUint(max-uint64(r.N(2)), 10)
	case 1, 2:
		return strconv.FormatUint((r.U64()&max)>>uint(r.N(bits)), 10)
	default:
		return strconv.Itoa(r.N(200))
	}
}

// overflowText is an integer that does not fit.
func overflowText(r *Rng, bits int, signed bool) string {
	if bits == 64 {
		if signed {
			return pick(r, "9223372036854775808", "-9223372036854775809", "92233720368547758070", "18446744073709551615", "-10000000000000000000")
		}
		return pick(r, "18446744073709551616", "20000000000000000000", "184467440737095516150", "-1")
	}
	if signed {
		max := int64(1)<<(bits-1) - 1
		switch r.N(4) {
		case 0:
			return strconv.FormatInt(max+1, 10)
		case 1:
			return strconv.FormatInt(-max-2, 10)
		case 2:
			return strconv.FormatInt((max+1)*2+int64(r.N(100)), 10)
		default:
			return strconv.FormatInt(max+1, 10) + strconv.Itoa(r.N(1000))
		}
	}
	max := int64(1) << bits
	return pick(r, strconv.FormatInt(max, 10), strconv.FormatInt(max+int64(r.N(1000)), 10), "-1", strconv.FormatInt(max, 10)+"0")
}

func (g *docGen) number() {
	r := g.r
	if r.P(g.c.Rare) {
		g.s(rareNumber(r))
		return
	}
	if r.P(4) {
		// More digits than a float has.
		g.s(strconv.FormatUint(1+r.U64()>>uint(1+r.N(60)), 10) + "." + strconv.FormatUint(r.U64(), 10) + pick(r, "", "", "e3", "E-7", strconv.FormatUint(r.U64(), 10)))
		return
	}
	switch r.N(9) {
	case 0:
		g.s("0")
	case 1:
		g.s(strconv.Itoa(r.N(100000) - 50000))
	case 2:
		g.s(strconv.FormatFloat(float64(r.N(1000000))/1000, 'f', -1, 64))
	case 3:
		g.s(strconv.FormatFloat(-float64(r.N(1000000))/64, 'f', -1, 64))
	case 4:
		g.s(strconv.Itoa(r.N(1000)) + pick(r, "e", "E") + pick(r, "", "+", "-") + strconv.Itoa(r.N(20)))
	case 5:
		g.s(strconv.FormatInt(int64(r.U64()>>uint(r.N(60)))>>1, 10))
	case 6:
		g.s(pick(r, "16777216", "16777217", "9007199254740992", "9007199254740993", "1234567", "12345678", "-9999999", "999999999999999", "-99999999999999"))
	case 7:
		g.s(pick(r, "0.1", "-0.5", "1.0", "0e0", "0.0", "3.4028234663852886e38", "1e-45", "100000000000000000000000"))
	default:
		g.s(strconv.Itoa(r.N(10)))
	}
}

var strPieces = []string{
	"a", "bc", "hello", " ", "0123456789", `\n`, `\t`, `\"`, `\\`, `\/`, `\b`, `\f`, `\r`,
	`\u0041`, `\u00e9`, `\u30C4`, "é", "ツ", "😀", `\u0000`, `\u007f`, `\u0800`, `\uFFFF`, `\u07ff`, "\u2028", "<&>",
	"abcdefgh", "zzzzzzz",
}
var surrogPieces = []string{`\ud83d\ude00`, `\uD834\uDD1E`, `\ud800`, `\udfff`, `\ud83dx`, `\ud83d\u0041`, `\ude00\ud83d`}

func (g *docGen) pieces(n int) {
	for ; n > 0; n-- {
		if g.r.P(3) {
			g.escape()
			continue
		}
		if !g.c.NoSurrog && g.r.P(6) {
			g.s(surrogPieces[g.r.N(len(surrogPieces))])
			continue
		}
		g.s(strPieces[g.r.N(len(strPieces))])
	}
}

// escape writes a \u escape of any code point: one code unit below the
// surrogates or above them, or a pair of surrogates.
func (g *docGen) escape() {
	u := func(v int) {
		f := pick(g.r, "%04x", "%04X")
		g.s(`\u` + fmt.Sprintf(f, v))
	}
	if !g.c.NoSurrog && g.r.P(50) {
		u(0xD800 + g.r.N(0x400))
		u(0xDC00 + g.r.N(0x400))
		return
	}
	v := g.r.N(1 << pick(g.r, 7, 11, 16))
	if 0xD800 <= v && v <= 0xDFFF {
		v ^= 0x8000
	}
	u(v)
}

func (g *docGen) str() {
	g.s(`"`)
	n := g.huge()
	switch {
	case n > 0:
		// Long, with or without a few escapes.
		k := g.r.N(pick(g.r, n, 2*n))
		g.longText(n, k)
		if g.r.P(20) {
			g.pieces(g.r.N(5))
		}
	case g.r.P(10):
	case g.r.P(5):
		g.pieces(g.r.Range(10, 40))
	case g.r.P(3):
		// Long, with or without a single escape.
		n := g.r.Range(60, 700)
		k := g.r.N(2 * n)
		g.longText(n, k)
	default:
		g.pieces(g.r.N(5))
	}
	g.s(`"`)
}

// longText writes n characters with an escape before the k-th.
func (g *docGen) longText(n, k int) {
	for i := 0; i < n; i++ {
		if i == k {
			g.s(pick(g.r, `\n`, `\u00fc`, `\\`))
		}
		g.b = append(g.b, "abcdefghijklmnopqrstuvwxyz 0123456789"[g.r.N(37)])
	}
}

// text is a string that occurs once in the document.
func (g *docGen) text() {
	g.c.uniq++
	g.s(`"`)
	if g.r.P(10) {
		g.s("k")
	} else {
		g.s("u" + strconv.Itoa(g.c.uniq) + "_")
	}
	if n := g.huge(); n > 0 {
		g.longText(n, -1)
	}
	g.pieces(g.r.N(3))
	g.s(`"`)
}

func (g *docGen) any(depth int) {
	r := g.r
	n := 9
	if depth <= 0 {
		n = 6
	}
	k := r.N(n)
	if g.c.Deep && depth > 5 {
		k = r.Range(6, 8)
	}
	switch k {
	case 0:
		g.s("null")
	case 1:
		g.s(pick(r, "true", "false"))
	case 2, 3:
		g.number()
	case 4, 5:
		g.str()
	case 6, 7:
		g.s("[")
		g.ws()
		n := r.N(g.c.Max + 1)
		if g.c.Deep && depth > 5 {
			n = r.Range(1, 2)
		}
		if h := g.huge(); h > 0 {
			n, depth = h, min(depth, 1)
		}
		for i := 0; i < n && (i < 100 || !g.full()); i++ {
			if i > 0 {
				g.s(",")
				g.ws()
			}
			g.any(g.in(depth, i, n-1))
			g.ws()
		}
		g.s("]")
	default:
		g.s("{")
		g.ws()
		n := r.N(g.c.Max + 1)
		if g.c.Deep && depth > 5 {
			n = r.Range(1, 2)
		}
		if h := g.huge(); h > 0 {
			n, depth = h, min(depth, 1)
		}
		for i := 0; i < n && (i < 100 || !g.full()); i++ {
			if i > 0 {
				g.s(",")
				g.ws()
			}
			if r.P(60) {
				b, _ := json.Marshal(mapKeys[r.N(len(mapKeys))])
				g.b = append(g.b, b...)
			} else {
				g.str()
			}
			g.ws()
			g.s(":")
			g.ws()
			g.any(g.in(depth, i, n-1))
			g.ws()
		}
		g.s("}")
	}
}

// bad writes a value of another type, or one that does not fit.
func (g *docGen) bad(t reflect.Type, depth int, opt string) {
	r := g.r
	if opt == "nonull" {
		g.s(pick(r, "", "x", "1x", " 1", "nul", "tru", "-", "1.5.5"))
		return
	}
	if r.P(40) {
		switch t.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			g.s(overflowText(r, t.Bits(), true))
			return
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			g.s(overflowText(r, t.Bits(), false))
			return
		case reflect.Float32:
			g.s(pick(r, "1e39", "-4e38", "3.4028235677973366e38", "3.4028236e38"))
			return
		case reflect.Slice:
			if t.Elem().Kind() == reflect.Uint8 {
				g.s(pick(r, `"!"`, `"QQ"`, `"QQ==="`, `"Q"`, `"QUJD QUJD"`, `"QQ==QQ=="`, `"-_-_"`, `"QUJD\u00e9"`))
				return
			}
		case reflect.Float64:
			g.s(pick(r, "1e309", "-1e400"))
			return
		case reflect.Interface:
			g.s(pick(r, "1e309", "[0,-1e400]", `{"a":{"b":1e999},"c":[1e999]}`, `[[],[{},[1e309]]]`))
			return
		}
	}
	switch r.N(7) {
	case 0:
		g.s("true")
	case 1:
		g.s(`"bad"`)
	case 2:
		g.s("17")
	case 3:
		g.s("1.5")
	case 4:
		g.s("[]")
	case 5:
		g.s("{}")
	default:
		g.any(depth)
	}
}

// ---- transport faults ------------------------------------------------------------

// damage applies faults of the transport to a document until it is not a
// well-formed document any more. It reports the fault kinds used.
func damage(r *Rng, doc []byte) ([]byte, string) {
	for try := 0; try < 40; try++ {
		b := append([]byte(nil), doc...)
		note := ""
		for n := r.Range(1, 2); n > 0; n-- {
			k := ""
			b, k = damageOnce(r, b)
			if note != "" {
				note += "+"
			}
			note += k
		}
		if !json.Valid(b) {
			return b, note
		}
	}
	return append(append([]byte(nil), doc...), '}'), "trailing"
}

func damageOnce(r *Rng, b []byte) ([]byte, string) {
	ins := func(at int, x ...byte) []byte {
		return append(append(append([]byte(nil), b[:at]...), x...), b[at:]...)
	}
	n := len(b)
	switch r.N(10) {
	case 0, 1:
		return b[:r.N(n+1)], "truncated"
	case 2:
		if n == 0 {
			return b, "none"
		}
		i := r.N(n)
		b[i] ^= 1 << uint(r.N(8))
		return b, "bitflip"
	case 3:
		if n == 0 {
			return b, "none"
		}
		i := r.N(n)
		j := i + r.N(min(n-i, 8)+1)
		return append(b[:i:i], b[j:]...), "lost"
	case 4:
		if n == 0 {
			return b, "none"
		}
		i := r.N(n)
		j := i + r.N(min(n-i, 8)+1)
		return ins(j, append([]byte(nil), b[i:j]...)...), "duplicated"
	case 5:
		if n < 2 {
			return b, "none"
		}
		i := r.N(n - 1)
		j := i + 1 + r.N(n-i-1)
		return append(append([]byte(nil), b[j:]...), append([]byte(nil), b[i:j]...)...), "reordered"
	case 6:
		return ins(n, []byte(pick(r, "x", "}", "]", ",", "1", "\"", " {}", " null", "\x00", " 0", "\n[]", "true", ":",
			"\v", "\f", "\x00 ", "\u00a0", "\ufeff", "\u0085", "\u2028", " \x1a", "//", "/**/", ";", " ,", "\n\t\r\v\n", "\b", "\x1f", "!", "        x", "        ]"))...), "trailing"
	case 7:
		return ins(n, b...), "twice"
	case 8:
		return ins(r.N(n+1), []byte(pick(r, ",", ":", "]", "}", "{", "[", "\"", "\\", "\x01", "-", "e", ".", "\\u12", "nul"))...), "inserted"
	default:
		if n == 0 {
			return b, "none"
		}
		b[r.N(n)] = byte(r.N(256))
		return b, "overwritten"
	}
}
