package main

import (
	"encoding/json"
	"errors"
	"reflect"

	jscandec "github.com/romshark/jscan-experimental-decoder"
)

// ---- C17: rejected values are reported at their position --------------------------

func genC17(r *Rng) *Plan {
	var tcs []*TypeCase
	for i := r.Range(1, 2); i > 0; i-- {
		tcs = append(tcs, pickType(r, nil))
	}
	h := &HistCfg{
		Long: 2, Huge: 4,
		Buf: 25,
		Ops: [2]int{1, 7}, Slots: 2, Damaged: pick(r, 0, 5), Bad: 70, Fresh: 30, Fill: 50, Nil: 2,
		Opt: pick(r, 0, 40, 70), Kinds: []int{kBytes, kString}, Tail: true, Relate: pick(r, 0, 30),
		Fail: pick(r, 0, 10), Exit: true,
		Doc: func(r *Rng) *DocCfg {
			c := swarmDoc(r)
			c.Bad = pick(r, 1, 3) // one or a few misfits in larger documents
			return c
		},
	}
	return &Plan{Tasks: []TaskPlan{genTask(r, tcs, 1, h)}, Toks: 1}
}

func execC17(p *Plan) (v *Violation) {
	tp := &p.Tasks[0]
	lastHash = single(func(w *world) {
		a := newActor(tp, mkToks(1))
		for i := range tp.Ops {
			op := &tp.Ops[i]
			s := a.slot(op)
			a.warm(op)
			got := a.run(op, a.dec(op.Dec), s, a.in(op), false)
			if s == nil || len(op.Acts) > 0 || !json.Valid(op.Doc) {
				continue // other properties are about these
			}
			var want *misfit
			withCtx(&opCtx{}, func() { want = firstMisfit(op.Doc, s.T.RT, op.Opt) })
			name := tp.Decs[op.Dec].Type
			switch {
			case got.Panic != "":
				v = viol(p, i, "call %d (%s): %s", i, name, got.Panic)
			case want == nil && got.Err != "":
				v = viol(p, i, "call %d (%s): error %q at %d although every value fits", i, name, got.Err, got.Idx)
			case want == nil:
				if got.Idx != -1 {
					v = viol(p, i, "call %d (%s) succeeded and returned the error position %d", i, name, got.Idx)
				}
			case got.Err == "":
				v = viol(p, i, "call %d (%s): the value at %d does not fit but was accepted", i, name, want.at)
			case got.Idx != want.at && got.Idx != want.or:
				v = viol(p, i, "call %d (%s): error %q at %d, but the first value that does not fit is at %d", i, name, got.Err, got.Idx, want.at)
			case want.unknown != errors.Is(got.err, jscandec.ErrUnknownField):
				v = viol(p, i, "call %d (%s): error %q at %d, unknown field: %v", i, name, got.Err, got.Idx, want.unknown)
			case want.overflow != errors.Is(got.err, jscandec.ErrIntegerOverflow):
				v = viol(p, i, "call %d (%s): error %q at %d, integer overflow: %v", i, name, got.Err, got.Idx, want.overflow)
			}
			if v != nil {
				return
			}
		}
	})
	return v
}

// misfit is the first value, key or field of a document that a type has no place for.
type misfit struct {
	at, or   int
	unknown  bool
	overflow bool
}

// firstMisfit walks a valid document along a type. Whether a single value fits a type
// that is not composite is left to encoding/json.
func firstMisfit(doc []byte, t reflect.Type, opt int) *misfit {
	f := &fitter{walker: walker{doc: doc, exact: opt&oExactCase != 0, raw: opt&oNoUnescape != 0}, strict: opt&oUnknown != 0}
	return f.fit(parse(doc), t, "")
}

type fitter struct {
	walker
	strict bool
}

func (f *fitter) fit(n *node, t reflect.Type, opt string) *misfit {
	for t.Kind() == reflect.Pointer {
		if n.kind == 'n' {
			return nil
		}
		t = t.Elem()
	}
	no := &misfit{at: n.from, or: n.from}
	if isJSONU(t) || n.kind == 'n' {
		return nil
	}
	if isTextU(t) {
		if n.kind != '"' {
			return no
		}
		return nil
	}
	switch k := t.Kind(); {
	case k == reflect.Slice && n.kind == '"', k == reflect.Interface, k != reflect.Slice && k != reflect.Array && k != reflect.Map && k != reflect.Struct:
		return f.leaf(n, t, opt)
	case (k == reflect.Map || k == reflect.Struct) != (n.kind == '{') || (k == reflect.Slice || k == reflect.Array) != (n.kind == '['):
		return no
	}
	if t.Kind() == reflect.Map && !keyable(t.Key()) {
		return no
	}
	for i, x := range n.kids {
		var m *misfit
		switch t.Kind() {
		case reflect.Slice:
			m = f.fit(x, t.Elem(), "")
		case reflect.Array:
			if i < t.Len() {
				m = f.fit(x, t.Elem(), "")
			}
		case reflect.Map:
			if !f.keyFits(n.keys[i], t.Key()) {
				return &misfit{at: n.keys[i].from, or: n.keys[i].from}
			}
			m = f.fit(x, t.Elem(), "")
		case reflect.Struct:
			key := n.keys[i].text(f.doc)
			if f.raw {
				key = string(f.doc[n.keys[i].from+1 : n.keys[i].to-1])
			}
			fi, ok := findField(t, key, f.exact)
			if ok {
				opt := ""
				for _, x := range infoOf(t).in {
					if x.i == fi {
						opt = x.opt
					}
				}
				m = f.fit(x, t.Field(fi).Type, opt)
			} else if f.strict {
				return &misfit{at: n.keys[i].from, or: n.keys[i].from, unknown: true}
			}
		}
		if m != nil {
			return m
		}
	}
	return nil
}

func (f *fitter) keyFits(k *node, t reflect.Type) bool {
	if isTextKey(t) {
		return true
	}
	doc := "{" + string(f.doc[k.from:k.to]) + ":0}"
	return json.Unmarshal([]byte(doc), reflect.New(reflect.MapOf(t, reflect.TypeOf(0))).Interface()) == nil
}

func (f *fitter) leaf(n *node, t reflect.Type, opt string) *misfit {
	val := string(f.doc[n.from:n.to])
	if isNumber(t) {
		t = rtNumE
	}
	no := &misfit{at: n.from, or: n.from}
	if opt == "string" {
		st := reflect.StructOf([]reflect.StructField{{Name: "X", Type: t, Tag: `json:"x,string"`}})
		if json.Unmarshal([]byte(`{"x":`+val+`}`), reflect.New(st).Interface()) != nil {
			return no
		}
		return nil
	}
	if json.Unmarshal([]byte(val), reflect.New(t).Interface()) == nil {
		return nil
	}
	switch {
	case t.Kind() == reflect.Interface && t.NumMethod() == 0:
		// The value of type any, or the number within it.
		if x := f.badNumber(n); x != nil {
			no.or = x.from
		}
	case t.Kind() >= reflect.Int && t.Kind() <= reflect.Uintptr && n.kind == '0':
		no.overflow = isIntegerLiteral(val, t.Kind() >= reflect.Uint)
	}
	return no
}

func (f *fitter) badNumber(n *node) *node {
	if n.kind == '0' {
		var x float64
		if json.Unmarshal(f.doc[n.from:n.to], &x) != nil {
			return n
		}
	}
	for _, k := range n.kids {
		if x := f.badNumber(k); x != nil {
			return x
		}
	}
	return nil
}

func isIntegerLiteral(s string, unsigned bool) bool {
	if s[0] == '-' {
		if unsigned {
			return false
		}
		s = s[1:]
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}
