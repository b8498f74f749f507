package main

import (
	"encoding/json"
	"strings"
	"unicode/utf8"
)

// relate derives a document from one that the decoder was given before: what a call
// leaves behind shows up in documents that agree with the earlier one in some way and
// differ from it in another. The result is valid, it may be mistyped.
func relate(r *Rng, doc []byte) []byte {
	if !json.Valid(doc) || !utf8.Valid(doc) {
		return doc
	}
	for n := pick(r, 0, 1, 1, 2, 3); n > 0; n-- {
		e := &editor{r: r, doc: doc}
		root := parse(doc)
		e.collect(root)
		at := e.all[r.N(len(e.all))]
		if len(e.full) > 0 && r.P(60) {
			at = e.full[r.N(len(e.full))]
		}
		e.edit(at)
		e.emit(root)
		if json.Valid(e.out) {
			doc = e.out
		}
	}
	return doc
}

type editor struct {
	r         *Rng
	doc, out  []byte
	all, full []*node
}

func (e *editor) collect(n *node) {
	e.all = append(e.all, n)
	if len(n.kids) > 0 {
		e.full = append(e.full, n)
	}
	for _, k := range n.kids {
		e.collect(k)
	}
}

func (e *editor) src(n *node) string {
	if n.lit != "" {
		return n.lit
	}
	return string(e.doc[n.from:n.to])
}

func (e *editor) edit(n *node) {
	r := e.r
	m := len(n.kids)
	if m > 0 {
		i, j := r.N(m), r.N(m)
		cut := func(a, b int) {
			n.kids = append(append([]*node(nil), n.kids[:a]...), n.kids[b:]...)
			if n.kind == '{' {
				n.keys = append(append([]*node(nil), n.keys[:a]...), n.keys[b:]...)
			}
		}
		switch r.N(9) {
		case 0:
			cut(i, i+1)
		case 1:
			cut(0, i) // the first members are left out
		case 2:
			cut(i, m)
		case 3:
			n.kids[i], n.kids[j] = n.kids[j], n.kids[i]
			if n.kind == '{' {
				n.keys[i], n.keys[j] = n.keys[j], n.keys[i]
			}
		case 4:
			n.kids[i], n.kids[j] = n.kids[j], n.kids[i] // the values only
		case 5:
			if n.kind == '[' {
				for k := r.Range(1, 3); k > 0; k-- {
					n.kids = append(n.kids, n.kids[i])
				}
				return
			}
			n.keys[i].lit = e.otherCase(e.src(n.keys[i]))
		case 6:
			if n.kind == '{' {
				for _, k := range n.keys {
					if r.P(50) {
						k.lit = e.otherCase(e.src(k))
					}
				}
			}
		case 7:
			if n.kind == '{' {
				n.keys[i].lit = e.escape(e.src(n.keys[i]))
				if r.P(30) {
					n.keys[i].lit = e.similar(e.src(n.keys[i]))
				}
			}
		default:
			n.kids, n.keys = nil, nil
		}
		return
	}
	s := e.src(n)
	if (n.kind == '"' || n.kind == '0') && r.P(50) {
		n.lit = e.similar(s)
		return
	}
	switch n.kind {
	case '"':
		n.lit = pick(r, e.otherCase(s), e.escape(s), `""`, s[:len(s)-1]+`x"`, "0", "null", "{}", "[]")
	case '0':
		n.lit = pick(r, `"`+s+`"`, "0", "-1", "null", "1e9", "true", s+"0", "[]", "{}")
	case '{':
		n.lit = pick(r, "[]", "null", `{"":0}`, "0", `""`)
	case '[':
		n.lit = pick(r, "{}", "null", "[null]", "0", `""`)
	default:
		n.lit = pick(r, "null", "true", "false", "0", `"null"`, "[]", "{}")
	}
}

// similar is a string or number of the same length with one character changed.
func (e *editor) similar(s string) string {
	from := strings.LastIndexByte(s, '\\') + 6 // not within an escape
	if from < 6 {
		from = 0
	}
	var at []int
	for i := from; i < len(s); i++ {
		if c := s[i]; '1' <= c && c <= '9' && (i == 0 || s[i-1] != '0' || i > 1 && s[i-2] != '-') || c|' ' >= 'a' && c|' ' <= 'z' && s[0] == '"' {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return s
	}
	b := []byte(s)
	i := at[e.r.N(len(at))]
	if len(at) > 4 && e.r.P(60) {
		i = at[len(at)/2+e.r.N(3)-1] // in the middle
	}
	if c := b[i]; '1' <= c && c <= '9' {
		b[i] = "123456789"[(int(c-'1')+1+e.r.N(8))%9]
	} else {
		b[i] = c&^31 | byte(1+(int(c&31)+e.r.N(25))%26)
	}
	return string(b)
}

// otherCase changes the case of the letters of a string that is written without escapes.
func (e *editor) otherCase(s string) string {
	if strings.IndexByte(s, '\\') >= 0 {
		return s
	}
	return flipCase(e.r, s)
}

// escape writes one character of a string as an escape sequence.
func (e *editor) escape(s string) string {
	if len(s) < 3 || strings.IndexByte(s, '\\') >= 0 {
		return s
	}
	i := 1 + e.r.N(len(s)-2)
	if s[i] >= utf8.RuneSelf {
		return s
	}
	const hex = "0123456789abcdef"
	return s[:i] + `\u00` + string(hex[s[i]>>4]) + string(hex[s[i]&15]) + s[i+1:]
}

func (e *editor) emit(n *node) {
	w := func(s string) { e.out = append(e.out, s...) }
	switch {
	case n.lit != "" || n.kind != '{' && n.kind != '[':
		w(e.src(n))
	case n.kind == '[':
		w("[")
		for i, k := range n.kids {
			if i > 0 {
				w(",")
			}
			e.emit(k)
		}
		w("]")
	default:
		w("{")
		for i, k := range n.kids {
			if i > 0 {
				w(",")
			}
			w(e.src(n.keys[i]))
			w(":")
			e.emit(k)
		}
		w("}")
	}
}
