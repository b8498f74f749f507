package main

import (
	"encoding/json"
	"reflect"
	"strings"
)

// node is a parsed JSON value with its place in the document.
type node struct {
	kind     byte // n t f 0 " [ {
	from, to int
	lit      string  // replaces its text (editor)
	keys     []*node // object keys (strings)
	kids     []*node
}

type jparser struct {
	b []byte
	i int
}

// parse parses a document known to be valid.
func parse(b []byte) *node {
	p := &jparser{b: b}
	p.ws()
	return p.value()
}

func (p *jparser) ws() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\t' || p.b[p.i] == '\n' || p.b[p.i] == '\r') {
		p.i++
	}
}

func (p *jparser) value() *node {
	n := &node{from: p.i}
	switch c := p.b[p.i]; c {
	case '{':
		n.kind = '{'
		p.i++
		p.ws()
		for p.b[p.i] != '}' {
			n.keys = append(n.keys, p.str())
			p.ws()
			p.i++ // :
			p.ws()
			n.kids = append(n.kids, p.value())
			p.ws()
			if p.b[p.i] == ',' {
				p.i++
				p.ws()
			}
		}
		p.i++
	case '[':
		n.kind = '['
		p.i++
		p.ws()
		for p.b[p.i] != ']' {
			n.kids = append(n.kids, p.value())
			p.ws()
			if p.b[p.i] == ',' {
				p.i++
				p.ws()
			}
		}
		p.i++
	case '"':
		return p.str()
	case 't', 'n':
		n.kind = c
		p.i += 4
	case 'f':
		n.kind = c
		p.i += 5
	default:
		n.kind = '0'
		for p.i < len(p.b) && strings.IndexByte("+-0123456789.eE", p.b[p.i]) >= 0 {
			p.i++
		}
	}
	n.to = p.i
	return n
}

func (p *jparser) str() *node {
	n := &node{from: p.i, kind: '"'}
	p.i++
	for p.b[p.i] != '"' {
		if p.b[p.i] == '\\' {
			p.i++
		}
		p.i++
	}
	p.i++
	n.to = p.i
	return n
}

func (n *node) text(doc []byte) string {
	var s string
	_ = json.Unmarshal(doc[n.from:n.to], &s)
	return s
}

// Delivery is one expected or observed invocation of a user unmarshaler.
type Delivery struct {
	Typ  string `json:"typ"`
	Data string `json:"data"`
	At   int    `json:"at"` // expected position in the document
}

// expectDeliveries walks a well-typed document along a type and lists what the
// user unmarshalers must be given, in order.
func expectDeliveries(doc []byte, t reflect.Type, exactCase bool, noUnescape bool) []Delivery {
	w := &walker{doc: doc, exact: exactCase, raw: noUnescape}
	w.walk(parse(doc), t)
	return w.out
}

type walker struct {
	doc        []byte
	exact, raw bool
	out        []Delivery
}

func (w *walker) walk(n *node, t reflect.Type) {
	if t.Kind() == reflect.Pointer {
		if n.kind != 'n' {
			w.walk(n, t.Elem())
		}
		return
	}
	if isJSONU(t) {
		w.out = append(w.out, Delivery{t.Name(), string(w.doc[n.from:n.to]), n.from})
		return
	}
	if n.kind == 'n' {
		return
	}
	if isTextU(t) {
		w.out = append(w.out, Delivery{t.Name(), n.text(w.doc), n.from})
		return
	}
	switch k := t.Kind(); {
	case (k == reflect.Map || k == reflect.Struct) != (n.kind == '{') || (k == reflect.Slice || k == reflect.Array) != (n.kind == '['):
		return // not a value for this type
	}
	switch t.Kind() {
	case reflect.Slice:
		for _, k := range n.kids {
			w.walk(k, t.Elem())
		}
	case reflect.Array:
		for i, k := range n.kids {
			if i < t.Len() {
				w.walk(k, t.Elem())
			}
		}
	case reflect.Map:
		for i, k := range n.kids {
			if k := n.keys[i]; isTextKey(t.Key()) {
				text := k.text(w.doc)
				if isJSONU(t.Key()) {
					text = string(w.doc[k.from:k.to])
				}
				w.out = append(w.out, Delivery{t.Key().Name(), text, k.from})
			}
			w.walk(k, t.Elem())
		}
	case reflect.Struct:
		for i, k := range n.kids {
			key := n.keys[i].text(w.doc)
			if w.raw {
				key = string(w.doc[n.keys[i].from+1 : n.keys[i].to-1])
			}
			if f, ok := findField(t, key, w.exact); ok {
				w.walk(k, t.Field(f).Type)
			}
		}
	}
}

func findField(t reflect.Type, key string, exact bool) (int, bool) {
	si := infoOf(t)
	for _, f := range si.in {
		if f.name == key {
			return f.i, true
		}
	}
	if !exact {
		for _, f := range si.in {
			if strings.EqualFold(f.name, key) {
				return f.i, true
			}
		}
	}
	return 0, false
}

// underOptions rewrites a valid document: keys that the options rule out as names of
// struct fields become the name of no field. Decoding the result without these options
// is what decoding the document with them must do.
func underOptions(doc []byte, t reflect.Type, exactCase, noUnescape bool) []byte {
	w := &rewriter{walker: walker{doc: doc, exact: exactCase, raw: noUnescape}}
	w.keys(parse(doc), t)
	out, at := []byte(nil), 0
	for _, n := range w.ruled {
		out = append(append(out, doc[at:n.from]...), `"\u0001 no field"`...)
		at = n.to
	}
	return append(out, doc[at:]...)
}

type rewriter struct {
	walker
	ruled []*node
}

func (w *rewriter) keys(n *node, t reflect.Type) {
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if isUserUnmarshaler(t) {
		return
	}
	switch k := t.Kind(); {
	case (k == reflect.Slice || k == reflect.Array) && n.kind == '[', k == reflect.Map && n.kind == '{':
		for _, x := range n.kids {
			w.keys(x, t.Elem())
		}
	case k == reflect.Struct && n.kind == '{':
		for i, x := range n.kids {
			key := n.keys[i].text(w.doc)
			if w.raw {
				key = string(w.doc[n.keys[i].from+1 : n.keys[i].to-1])
			}
			f, ok := findField(t, key, w.exact)
			if !ok {
				w.ruled = append(w.ruled, n.keys[i])
				continue
			}
			w.keys(x, t.Field(f).Type)
		}
	}
}
