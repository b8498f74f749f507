package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	jscandec "github.com/romshark/jscan-experimental-decoder"
)

var (
	rtJSON   = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()
	rtText   = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
	rtNumber = reflect.TypeOf(jscandec.Number(""))
	rtNumE   = reflect.TypeOf(json.Number(""))
)

func isJSONU(t reflect.Type) bool {
	return t.Kind() != reflect.Pointer && t.Kind() != reflect.Interface && reflect.PointerTo(t).Implements(rtJSON)
}

func isTextU(t reflect.Type) bool {
	return t.Kind() != reflect.Pointer && t.Kind() != reflect.Interface && !isJSONU(t) && reflect.PointerTo(t).Implements(rtText)
}

// isTextKey reports whether map keys of type t are given to a user unmarshaler.
func isTextKey(t reflect.Type) bool {
	return t.Kind() != reflect.Pointer && reflect.PointerTo(t).Implements(rtText)
}

// keyable types can be decoded into from a key.
func keyable(t reflect.Type) bool {
	return isTextKey(t) || t.Kind() == reflect.String || t.Kind() >= reflect.Int && t.Kind() <= reflect.Uintptr
}

func isUserUnmarshaler(t reflect.Type) bool { return isJSONU(t) || isTextU(t) }

func isNumber(t reflect.Type) bool { return t == rtNumber || t == rtNumE }

// ---- deep clone ---------------------------------------------------------------

// field is a field of an addressable struct, even if it is not exported.
func field(v reflect.Value, i int) reflect.Value {
	f := v.Field(i)
	if f.CanSet() {
		return f
	}
	return reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
}

// clone copies src to dst (addressable) deeply, preserving lengths, capacities,
// the contents between length and capacity, and nil-ness.
func clone(dst, src reflect.Value) { cloner{}.clone(dst, src) }

// cloner knows the copies it made, so that what refers to the same memory does so in
// the copy.
type cloner map[cloneKey]reflect.Value

type cloneKey struct {
	t   reflect.Type
	p   unsafe.Pointer
	cap int
}

func (c cloner) clone(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Pointer:
		if src.IsNil() {
			dst.SetZero()
			return
		}
		k := cloneKey{src.Type(), src.UnsafePointer(), 1}
		if x, ok := c[k]; ok {
			dst.Set(x)
			return
		}
		p := reflect.New(src.Type().Elem())
		x := p.Convert(dst.Type())
		c[k] = x // It may refer to itself.
		c.clone(p.Elem(), src.Elem())
		dst.Set(x)
	case reflect.Slice:
		if src.IsNil() {
			dst.SetZero()
			return
		}
		n, cp := src.Len(), src.Cap()
		if src.Type().Elem().Size() == 0 {
			dst.Set(reflect.MakeSlice(src.Type(), n, cp))
			return
		}
		// Slices of different lengths may share their elements.
		k := cloneKey{src.Type(), src.UnsafePointer(), cp}
		if x, ok := c[k]; ok && cp > 0 {
			dst.Set(x.Slice3(0, n, cp))
			return
		}
		full := src.Slice(0, cp)
		s := reflect.MakeSlice(src.Type(), cp, cp)
		for i := 0; i < cp; i++ {
			c.clone(s.Index(i), full.Index(i))
		}
		c[k] = s
		dst.Set(s.Slice3(0, n, cp))
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			c.clone(dst.Index(i), src.Index(i))
		}
	case reflect.Struct:
		if !src.CanAddr() {
			x := reflect.New(src.Type()).Elem()
			x.Set(src)
			src = x
		}
		for i := 0; i < src.NumField(); i++ {
			c.clone(field(dst, i), field(src, i))
		}
	case reflect.Map:
		if src.IsNil() {
			dst.SetZero()
			return
		}
		mk := cloneKey{src.Type(), src.UnsafePointer(), 0}
		if x, ok := c[mk]; ok {
			dst.Set(x)
			return
		}
		m := reflect.MakeMapWithSize(src.Type(), src.Len())
		it := src.MapRange()
		for it.Next() {
			k := reflect.New(src.Type().Key()).Elem()
			v := reflect.New(src.Type().Elem()).Elem()
			c.clone(k, it.Key())
			c.clone(v, it.Value())
			m.SetMapIndex(k, v)
		}
		c[mk] = m
		dst.Set(m)
	case reflect.Interface:
		if src.IsNil() {
			dst.SetZero()
			return
		}
		v := reflect.New(src.Elem().Type()).Elem()
		c.clone(v, src.Elem())
		dst.Set(v)
	case reflect.String:
		dst.SetString(strings.Clone(src.String()))
	default:
		dst.Set(src)
	}
}

// ---- dump ----------------------------------------------------------------------

// cyclic tells that pointers in values may lead back to where they are, dumpPath has
// those followed to the current one.
var (
	cyclic   bool
	dumpPath = map[cloneKey]int{}
)

// dump renders a value canonically. tail includes slice capacity and the
// elements between length and capacity.
func dump(v reflect.Value, tail bool) string {
	var b strings.Builder
	dumpTo(&b, v, tail, 0)
	return b.String()
}

func dumpTo(b *strings.Builder, v reflect.Value, tail bool, depth int) {
	if depth > 2000 {
		b.WriteString("<too deep>")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		// Read the byte: a corrupted bool is neither true nor false.
		if v.CanAddr() {
			if x := *(*byte)(v.Addr().UnsafePointer()); x > 1 {
				b.WriteString("bool?" + strconv.Itoa(int(x)))
				return
			}
		}
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		b.WriteString(strconv.FormatFloat(f, 'g', -1, 64))
		if f == 0 && math.Signbit(f) {
			b.WriteString("(neg)")
		}
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if cyclic {
			k := cloneKey{v.Type(), v.UnsafePointer(), 1}
			if d, ok := dumpPath[k]; ok {
				b.WriteString("^" + strconv.Itoa(len(dumpPath)-d))
				return
			}
			dumpPath[k] = len(dumpPath)
			defer delete(dumpPath, k)
		}
		b.WriteString("&")
		dumpTo(b, v.Elem(), tail, depth+1)
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil[]")
			return
		}
		n := v.Len()
		b.WriteByte('[')
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dumpTo(b, v.Index(i), tail, depth+1)
		}
		if tail && v.Type().Elem().Size() > 0 {
			c := v.Cap()
			b.WriteString(" |" + strconv.Itoa(c) + "|")
			full := v.Slice(0, c)
			for i := n; i < c; i++ {
				b.WriteByte(' ')
				dumpTo(b, full.Index(i), tail, depth+1)
			}
		}
		b.WriteByte(']')
	case reflect.Array:
		b.WriteByte('(')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dumpTo(b, v.Index(i), tail, depth+1)
		}
		b.WriteByte(')')
	case reflect.Struct:
		b.WriteByte('{')
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(t.Field(i).Name)
			b.WriteByte(':')
			dumpTo(b, v.Field(i), tail, depth+1)
		}
		b.WriteByte('}')
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil-map")
			return
		}
		l := make([]string, 0, v.Len())
		it := v.MapRange()
		for it.Next() {
			var e strings.Builder
			dumpTo(&e, it.Key(), tail, depth+1)
			e.WriteByte('=')
			// Read through the map again: a damaged map yields entries by
			// iteration that a look-up does not find.
			x := v.MapIndex(it.Key())
			if !x.IsValid() {
				e.WriteString("<not found>")
			} else {
				dumpTo(&e, x, tail, depth+1)
			}
			l = append(l, e.String())
		}
		sort.Strings(l)
		b.WriteString("map" + strconv.Itoa(v.Len()) + "{")
		b.WriteString(strings.Join(l, " "))
		b.WriteByte('}')
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil-any")
			return
		}
		b.WriteString("<")
		b.WriteString(v.Elem().Type().String())
		b.WriteString(">")
		dumpTo(b, v.Elem(), tail, depth+1)
	default:
		b.WriteString("?" + v.Kind().String())
	}
}

// firstDiff shows where two dumps part.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-40, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return "…" + s[lo:hi] + "…"
	}
	return "got " + cut(a) + " want " + cut(b)
}

// numberArray matches arrays that may be decoded into the elements of a []byte.
var numberArray = regexp.MustCompile(`\[\s*[-0-9n]`)

// A heldRef is something a caller may hold a reference to besides the destination.
type heldRef struct {
	reflect.Value
	within []sliceVar // see kept
}

type sliceVar struct {
	v   reflect.Value
	ptr uintptr
}

// kept returns false if a slice on the way to the reference was replaced.
func (h heldRef) kept() bool {
	for _, s := range h.within {
		if s.v.Pointer() != s.ptr {
			return false
		}
	}
	return true
}

// held lists what a caller may hold references to besides the destination: the pointees,
// maps and slices reachable from v. Equal values give lists in the same order. If doc has
// an array that may be decoded into its elements, then a slice is nothing to compare
// with unless encoding/json keeps it (see kept): it writes to the elements of slices that
// it replaces.
func held(v reflect.Value, doc []byte) (l []heldRef) {
	slices := !bytes.ContainsRune(doc, '[')
	byteSlices := slices || !numberArray.Match(doc)
	var within []sliceVar
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if len(l) >= 48 || depth > 60 {
			return
		}
		if v.Kind() == reflect.Slice && v.Len() > 0 {
			defer func(n int) { within = within[:n] }(len(within))
			within = append(within, sliceVar{v, v.Pointer()})
			m := reflect.New(v.Type()).Elem()
			m.Set(v)
			h := heldRef{Value: m}
			e := v.Type().Elem()
			if !slices && !(byteSlices && e.Kind() == reflect.Uint8 && !isUserUnmarshaler(e) && !isUserUnmarshaler(reflect.PointerTo(e))) {
				h.within = append(h.within, within...)
			}
			l = append(l, h)
		}
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				l = append(l, heldRef{Value: v.Elem()})
				walk(v.Elem(), depth+1)
			}
		case reflect.Slice, reflect.Array:
			if !nests(v.Type().Elem()) {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i), depth+1)
				}
			}
		case reflect.Map:
			if v.IsNil() {
				return
			}
			m := reflect.New(v.Type()).Elem() // not the variable that holds it
			m.Set(v)
			l = append(l, heldRef{Value: m})
			if !nests(v.Type().Elem()) {
				return
			}
			keys := v.MapKeys()
			name := make(map[any]string, len(keys))
			for _, k := range keys {
				name[k.Interface()] = dump(k, false)
			}
			sort.Slice(keys, func(i, j int) bool { return name[keys[i].Interface()] < name[keys[j].Interface()] })
			for _, k := range keys {
				walk(v.MapIndex(k), depth+1)
			}
		}
	}
	walk(v, 0)
	return l
}

// ---- fill ----------------------------------------------------------------------

// FillCfg controls prior contents.
type FillCfg struct {
	Tail  bool // spare capacity with contents
	Guard bool // backing arrays extend beyond the capacity
	Alias int  // several pointers and maps (1), slices too (2), may refer to the same memory
	Cyc   bool // pointers may lead back
	Big   bool // one slice or map has many elements
	Depth int
	guard *[]guardRange
	pool  map[reflect.Type][]reflect.Value
}

// alias makes v refer to something that there already is.
func (c *FillCfg) alias(r *Rng, v reflect.Value) bool {
	l := c.pool[v.Type()]
	if len(l) == 0 || !r.P(30) {
		return false
	}
	v.Set(l[r.N(len(l))])
	return true
}

// offer makes what v refers to available to others.
func (c *FillCfg) offer(v reflect.Value) {
	// What encoding/json leaves in the spare capacity of a slice that shrinks and grows
	// again within a document is not to be compared.
	if c.Alias == 0 || c.Alias == 1 && v.Kind() == reflect.Slice || v.Kind() != reflect.Map && mayDupSlice(v.Type().Elem()) {
		return
	}
	if c.pool == nil {
		c.pool = map[reflect.Type][]reflect.Value{}
	}
	x := reflect.New(v.Type()).Elem()
	x.Set(v)
	c.pool[v.Type()] = append(c.pool[v.Type()], x)
}

// many is the number of elements of a slice or map that has many, or 0.
func (c *FillCfg) many(r *Rng) int {
	if !c.Big || !r.P(40) {
		return 0
	}
	c.Big = false
	return pick(r, 9, 17, 33, 64, 65, 100, 128, 255, 256, 257, 300) + r.N(2)
}

type guardRange struct {
	p    unsafe.Pointer
	n    uintptr
	copy []byte
	keep any
}

func fill(r *Rng, v reflect.Value, c *FillCfg, depth int) {
	t := v.Type()
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.P(50))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.U64() >> (64 - uint(t.Bits()) + uint(r.N(t.Bits()-1)))))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(r.U64() >> (64 - uint(t.Bits()) + uint(r.N(t.Bits()-1))))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(int(r.N(2000))-1000) / 8)
	case reflect.String:
		if isNumber(t) {
			v.SetString(strconv.Itoa(r.N(1000)))
			return
		}
		if r.P(15) {
			v.SetString("")
		} else {
			v.SetString("old" + strconv.Itoa(r.N(100000)) + strings.Repeat("~", r.N(20)))
		}
	case reflect.Pointer:
		if r.P(40) || depth <= 0 {
			v.SetZero()
			return
		}
		if c.alias(r, v) {
			return
		}
		p := reflect.New(t.Elem())
		if es := t.Elem().Size(); c.Guard && c.guard != nil && es > 0 && r.P(50) {
			// A pointer into the middle of an array.
			arr := reflect.MakeSlice(reflect.SliceOf(t.Elem()), 3, 3)
			p = arr.Index(1).Addr()
			for _, i := range []int{0, 2} {
				fill(r, arr.Index(i), c, 0)
				q := arr.Index(i).Addr().UnsafePointer()
				g := guardRange{p: q, n: es, keep: arr.Interface()}
				g.copy = append(g.copy, unsafe.Slice((*byte)(q), es)...)
				*c.guard = append(*c.guard, g)
			}
			if v.Type().Name() != "" {
				p = p.Convert(v.Type())
			}
		}
		if v.Type().Name() != "" {
			p = p.Convert(v.Type())
		}
		v.Set(p)
		if c.Cyc {
			c.offer(v)
		}
		fill(r, p.Elem(), c, depth-1)
		if !c.Cyc {
			c.offer(v)
		}
	case reflect.Slice:
		if r.P(25) {
			v.SetZero()
			return
		}
		if c.alias(r, v) {
			return
		}
		n := r.N(4)
		if depth <= 0 {
			n = 0
		} else if m := c.many(r); m > 0 {
			n, depth = m, min(depth, 2)
		}
		cp := n
		if r.P(40) {
			cp += r.N(4)
		}
		if depth <= 0 {
			cp = 0
		}
		extra := 0
		if c.Guard && cp > 0 {
			extra = 2
		}
		s := reflect.MakeSlice(t, cp+extra, cp+extra)
		for i := 0; i < cp+extra; i++ {
			if i < n || c.Tail || i >= cp {
				d := depth - 1
				if i >= cp && d > 0 {
					d = 0
				}
				fill(r, s.Index(i), c, d)
			}
		}
		if es := t.Elem().Size(); extra > 0 && es > 0 && c.guard != nil {
			p := s.Index(cp).Addr().UnsafePointer()
			g := guardRange{p: p, n: es * uintptr(extra), keep: s.Interface()}
			g.copy = append(g.copy, unsafe.Slice((*byte)(p), g.n)...)
			*c.guard = append(*c.guard, g)
		}
		v.Set(s.Slice3(0, n, cp))
		c.offer(v)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(r, v.Index(i), c, depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(r, field(v, i), c, depth-1)
		}
	case reflect.Map:
		if r.P(25) {
			v.SetZero()
			return
		}
		if c.alias(r, v) {
			return
		}
		m := reflect.MakeMap(t)
		n := r.N(4)
		if depth <= 0 {
			n = 0
		} else if x := c.many(r); x > 0 {
			n, depth = x, min(depth, 2)
		}
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			if !keyable(t.Key()) {
				n = 1
			} else if k.Kind() == reflect.String {
				k.SetString(mapKeys[r.N(len(mapKeys))])
				if n > 6 {
					k.SetString("wide" + strconv.Itoa(i))
				}
			} else if k.Kind() == reflect.Struct {
				s := mapKeys[r.N(len(mapKeys))]
				if n > 6 {
					s = "wide" + strconv.Itoa(i)
				}
				k.Field(0).SetString(s)
				k.Field(1).SetInt(int64(len(s)))
			} else {
				fillSmallInt(r, k)
				if n > 6 && k.CanInt() && i < 128 {
					k.SetInt(int64(i))
				}
			}
			e := reflect.New(t.Elem()).Elem()
			fill(r, e, c, depth-1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
		c.offer(v)
	case reflect.Interface:
		if t.NumMethod() > 0 {
			if v.SetZero(); r.P(60) {
				v.Set(reflect.ValueOf(Word("word" + strconv.Itoa(r.N(1000)))))
			}
			return
		}
		x := genAnyValue(r, depth)
		if x == nil {
			v.SetZero()
		} else {
			v.Set(reflect.ValueOf(x))
		}
	}
}

func fillSmallInt(r *Rng, v reflect.Value) {
	if v.CanInt() {
		v.SetInt(int64(r.N(6) - 2))
	} else if v.CanUint() {
		v.SetUint(uint64(r.N(6)))
	}
}

func genAnyValue(r *Rng, depth int) any {
	n := 8
	if depth <= 0 {
		n = 5
	}
	switch r.N(n) {
	case 0:
		return nil
	case 1:
		return r.P(50)
	case 2:
		return float64(r.N(1000))
	case 3:
		return "oldany" + strconv.Itoa(r.N(1000))
	case 4:
		return r.N(100) // not a type a decoder would produce
	case 5:
		l := make([]any, r.N(3))
		for i := range l {
			l[i] = genAnyValue(r, depth-1)
		}
		return l
	case 6:
		m := map[string]any{}
		for i := r.N(3); i > 0; i-- {
			m[mapKeys[r.N(len(mapKeys))]] = genAnyValue(r, depth-1)
		}
		return m
	default:
		return Point{r.N(100), r.N(100)}
	}
}

// clip removes spare capacity everywhere.
func clip(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			if cyclic {
				k := cloneKey{v.Type(), v.UnsafePointer(), 1}
				if _, ok := dumpPath[k]; ok {
					return
				}
				dumpPath[k] = 0
				defer delete(dumpPath, k)
			}
			clip(v.Elem())
		}
	case reflect.Slice:
		if !v.IsNil() {
			if v.CanSet() {
				v.Set(v.Slice3(0, v.Len(), v.Len()))
			}
			for i := 0; i < v.Len(); i++ {
				clip(v.Index(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			clip(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			clip(field(v, i))
		}
	case reflect.Map:
		if v.IsNil() || !hasSlice(v.Type().Elem()) {
			return
		}
		it := v.MapRange()
		type kv struct{ k, v reflect.Value }
		var l []kv
		for it.Next() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(it.Value())
			clip(e)
			l = append(l, kv{it.Key(), e})
		}
		for _, x := range l {
			v.SetMapIndex(x.k, x.v)
		}
	}
}

func hasSlice(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Slice, reflect.Struct, reflect.Pointer, reflect.Array, reflect.Map:
		return true
	}
	return false
}
