package main

import (
	"fmt"
	"reflect"
	"unicode/utf8"

	jscandec "github.com/romshark/jscan-experimental-decoder"
)

// Violation is a property found broken.
type Violation struct {
	Prop            string `json:"property"`
	Msg             string `json:"message"`
	Op              int    `json:"op"`
	crash, external bool

	// Trace is the schedule of a run that had its switches decided as it went.
	Trace []Switch `json:"trace,omitempty"`
}

func viol(p *Plan, op int, f string, a ...any) *Violation {
	return &Violation{Prop: p.Prop, Op: op, Msg: fmt.Sprintf(f, a...)}
}

// HistCfg are the knobs of the history generator.
type HistCfg struct {
	Ops     [2]int
	Slots   int
	Damaged int // damaged document, percent of calls
	Bad     int // document with a value of the wrong type
	Nil     int // nil destination
	Fail    int // a user unmarshaler fails (types with callbacks)
	Exit    bool
	Opt     int // non-default options
	Fresh   int // call goes to a slot that was not used before
	Fill    int // slots with prior contents
	Tail    bool
	Cyc     bool // pointers in prior contents may lead back
	Alias   int  // prior contents refer to the same memory from several places
	// No two slices of the prior contents share an array. (encoding/json writes into
	// the array of a slice before it finds that it must be replaced by a larger one,
	// which is nothing to compare with.)
	OwnSlices bool
	Guard     bool
	Kinds     []int
	Nest      int
	Doc       func(r *Rng) *DocCfg
	Faults    int
	Relate    int // documents derived from earlier ones of the same decoder
	Buf       int // all inputs of the caller are read into one buffer
	Huge      int // documents with a very large part, per mille
	Long      int // histories with many calls, per mille
}

func pickType(r *Rng, f func(*TypeCase) bool) *TypeCase {
	for {
		t := types[r.N(len(types))]
		if f == nil || f(t) {
			return t
		}
	}
}

// akin draws a type that has something in common with another one, or that one.
func akin(r *Rng, t *TypeCase) *TypeCase {
	var l []*TypeCase
	for _, x := range types {
		if base(x.RT).String() == base(t.RT).String() || x.Size == t.Size && x.RT.Kind() == t.RT.Kind() {
			l = append(l, x)
		}
	}
	return l[r.N(len(l))]
}

// base is the type that pointers, slices, arrays and maps are made of.
func base(t reflect.Type) reflect.Type {
	for t.Name() == "" {
		switch t.Kind() {
		case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
			t = t.Elem()
		default:
			return t
		}
	}
	return t
}

// genTask draws the history of one caller thread over some destination types.
func genTask(r *Rng, tcs []*TypeCase, toks int, h *HistCfg) TaskPlan {
	var tp TaskPlan
	for i, tc := range tcs {
		k := h.Kinds[r.N(len(h.Kinds))]
		tok := i
		if toks > 0 {
			tok = r.N(toks)
		}
		tp.Decs = append(tp.Decs, DecPlan{Type: tc.Name, Kind: k, Tok: tok, Strict: r.P(15)})
	}
	base := map[int][]int{}
	newSlot := func(d int) int {
		s := SlotPlan{Type: tcs[d].Name, Tail: h.Tail && r.P(50), Guard: h.Guard}
		if r.P(h.Fill) {
			s.Seed = r.U64() | 1
			if r.P(h.Alias) {
				s.Alias = 2
				if h.OwnSlices {
					s.Alias = 1
				}
				s.Cyc = h.Cyc && r.P(25)
			}
			s.Big = h.Huge > 0 && r.P(1)
		}
		tp.Slots = append(tp.Slots, s)
		base[d] = append(base[d], len(tp.Slots)-1)
		return len(tp.Slots) - 1
	}
	n := r.Range(h.Ops[0], h.Ops[1])
	buf := r.P(h.Buf)
	for i := 0; i < n; i++ {
		d := r.N(len(tcs))
		tp.Ops = append(tp.Ops, genOp(r, tcs[d], d, h))
		op := &tp.Ops[len(tp.Ops)-1]
		if op.Slot == 0 {
			if l := base[d]; len(l) == 0 || (len(l) < h.Slots && r.P(50)) || r.P(h.Fresh) {
				op.Slot = newSlot(d)
			} else {
				op.Slot = l[r.N(len(l))]
			}
		}
		if r.P(h.Relate) {
			// Not of the last call only, and not of a changed document only.
			if j := r.N(len(tp.Ops)); j < len(tp.Ops)-1 && tp.Ops[j].Dec == d {
				op.Doc, op.Note = relate(r, tp.Ops[j].Doc), "related"
			}
		}
		if op.Buf = buf; buf && i > 0 && r.P(50) {
			sameLength(r, op, tp.Ops[r.N(i)].Doc)
		}
	}
	tp.OneOpt = h.Opt > 0 && r.P(30)
	if h.Long > 0 && r.N(1000) < h.Long {
		for i := range tp.Ops {
			if op := &tp.Ops[i]; r.P(50) {
				op.Rep, op.Mix = manyCalls(r, len(op.Doc)), r.P(30)
			}
		}
	}
	return tp
}

// manyCalls draws a number of calls; around those at which counters end.
func manyCalls(r *Rng, size int) int {
	n := pick(r, 3, 7, 15, 31, 63, 64, 99, 127, 127, 255, 255, 255, 511, 999, 1023)
	if r.P(4) {
		n = pick(r, 4095, 9999, 32767, 65535, 65535)
	}
	n += r.N(3) - r.N(2)
	return min(n, max(3000000/(size+30), 3))
}

// sameLength makes the document as long as another one.
func sameLength(r *Rng, op *OpPlan, other []byte) {
	if r.P(30) {
		// The other document itself with a part of it overwritten.
		doc := append([]byte(nil), other...)
		if len(doc) > 0 {
			i := r.N(len(doc))
			if r.P(50) {
				i = len(doc) - 1 - r.N(min(len(doc), 4))
			}
			if doc[i] >= utf8.RuneSelf {
				i = len(doc) - 1 // invalid UTF-8 is another matter
			}
			doc[i] = pick(r, byte(' '), '}', ']', ',', '0', '9', 'x', '"', '{')
		}
		op.Doc, op.Note = doc, "overwritten"
		return
	}
	n := len(other) - len(op.Doc)
	if n <= 0 {
		return
	}
	pad := make([]byte, n)
	for i := range pad {
		pad[i] = pick(r, byte(' '), '\n', '\t', '\r')
	}
	if r.P(30) {
		pad[r.N(n)] = pick(r, byte(','), '}', ']', '0', 'x')
		op.Note = "padded"
	}
	op.Doc = append(append([]byte(nil), op.Doc...), pad...)
}

func genOp(r *Rng, tc *TypeCase, d int, h *HistCfg) OpPlan {
	op := OpPlan{Op: "decode", Dec: d}
	c := swarmDoc(r)
	if h.Doc != nil {
		c = h.Doc(r)
	}
	if h.Huge > 0 && r.N(1000) < h.Huge {
		hugeDoc(r, c)
	}
	what := r.N(100)
	switch {
	case what < h.Damaged:
		doc := genDoc(r, tc.RT, c)
		op.Doc, op.Note = damage(r, doc)
	case what < h.Damaged+h.Bad:
		c.Bad = pick(r, 3, 10, 30)
		op.Doc = genDoc(r, tc.RT, c)
		op.Note = "mistyped"
	default:
		op.Doc = genDoc(r, tc.RT, c)
	}
	if r.P(h.Nil) {
		op.Slot = -1
	}
	if r.P(h.Opt) {
		op.Opt = r.N(8)
	}
	if tc.F.CB && r.P(h.Fail) {
		do := "err"
		if r.P(45) {
			do = "panic"
		} else if h.Exit && r.P(30) {
			do = "goexit"
		}
		op.Acts = append(op.Acts, Act{At: smallN(r), Do: do, How: how(r)})
	}
	for i := r.N(h.Faults + 1); i > 0; i-- {
		op.Faults = append(op.Faults, Fault{Step: r.N(10001), Do: pick(r, "gc", "gc", "grow", "churn")})
	}
	// Ordered, as they are met.
	for i := range op.Faults {
		for j := i; j > 0 && op.Faults[j].Step < op.Faults[j-1].Step; j-- {
			op.Faults[j], op.Faults[j-1] = op.Faults[j-1], op.Faults[j]
		}
	}
	if tc.F.CB && r.P(h.Nest) {
		for i := r.Range(1, 3); i > 0; i-- {
			op.Acts = append(op.Acts, Act{At: smallN(r), Do: "nest", Nest: genNest(r, tc, 2)})
		}
	}
	return op
}

func smallN(r *Rng) int { return r.N(pick(r, 1, 3, 8)) }

func genNest(r *Rng, outer *TypeCase, depth int) *NestPlan {
	tc := outer // the same type again
	if r.P(65) {
		tc = pickType(r, nil)
	}
	n := &NestPlan{Type: tc.Name, Kind: r.N(nKinds), Keep: r.P(40)}
	if r.P(40) {
		n.Seed = r.U64() | 1
	}
	c := swarmDoc(r)
	if r.P(15) {
		c.Bad = 20
	}
	n.Doc = genDoc(r, tc.RT, c)
	if r.P(15) {
		n.Doc, _ = damage(r, n.Doc)
	}
	if tc.F.CB && r.P(4) {
		// Unmarshalers that decode what is within, level by level.
		n.Deep = pick(r, 5, 9, 17, 33, 40, 65, 70, 130)
	}
	if tc.F.CB && depth > 0 && n.Deep == 0 {
		if r.P(40) {
			n.Acts = append(n.Acts, Act{At: smallN(r), Do: "nest", Nest: genNest(r, tc, depth-1)})
		}
		if r.P(25) {
			n.Acts = append(n.Acts, Act{At: smallN(r), Do: pick(r, "err", "panic"), How: how(r)})
		}
	}
	return n
}

// actor executes the history of one caller thread.
type actor struct {
	tp     *TaskPlan
	toks   []*Tok
	decs   []Dec
	slots  []*Slot
	guards [][]guardRange
	kept   map[string]Dec
	buf    []byte
	opts   jscandec.DecodeOptions
	inner  []innerCall
}

func newActor(tp *TaskPlan, toks []*Tok) *actor {
	a := &actor{tp: tp, toks: toks, decs: make([]Dec, len(tp.Decs)), kept: map[string]Dec{}}
	for _, s := range tp.Slots {
		sl, g := mkSlot(s)
		a.slots = append(a.slots, sl)
		a.guards = append(a.guards, g)
	}
	return a
}

func mkSlot(s SlotPlan) (*Slot, []guardRange) {
	tc := typeByName[s.Type]
	sl := tc.New()
	var g []guardRange
	if s.Seed != 0 {
		fill(newRng(s.Seed), sl.Val, &FillCfg{Tail: s.Tail, Guard: s.Guard, Alias: s.Alias, Big: s.Big, Cyc: s.Cyc, guard: &g}, 3)
	}
	return sl, g
}

func (a *actor) tok(i int) *Tok {
	if a.toks == nil {
		return newTok()
	}
	return a.toks[i]
}

func (a *actor) dec(i int) Dec {
	if a.decs[i] == nil {
		a.decs[i] = mkDec(a.tp.Decs[i], a.tok(a.tp.Decs[i].Tok))
	}
	return a.decs[i]
}

func mkDec(dp DecPlan, tk *Tok) Dec {
	tc := typeByName[dp.Type]
	init := jscandec.DefaultInitOptions
	if dp.Strict {
		init = &jscandec.InitOptions{DisallowStringTagOptOnUnsupportedTypes: true}
	}
	d, err := tc.NewDec(dp.Kind, tk, init)
	if dp.Strict && (*init != jscandec.InitOptions{DisallowStringTagOptOnUnsupportedTypes: true}) {
		panic("NewDecoder modified its options")
	}
	if dp.Strict && err == jscandec.ErrStringTagOptionOnUnsupportedType {
		d, err = tc.NewDec(dp.Kind, tk, jscandec.DefaultInitOptions)
	}
	if err != nil {
		panic(fmt.Sprintf("NewDecoder(%s): %v", dp.Type, err))
	}
	return d
}

// cloneSlot copies a destination to fresh memory.
func cloneSlot(s *Slot) *Slot {
	n := s.T.New()
	clone(n.Val, s.Val)
	return n
}

func input(doc []byte) Input { return Input{B: append([]byte(nil), doc...), S: string(doc)} }

// in is the input of an operation.
func (a *actor) in(op *OpPlan) Input {
	in := input(op.Doc)
	if op.Buf {
		if a.buf == nil {
			n := 0
			for i := range a.tp.Ops {
				n = max(n, len(a.tp.Ops[i].Doc))
			}
			a.buf = make([]byte, n)
		}
		in.B = a.buf[:copy(a.buf, op.Doc)]
	}
	return in
}

// innerCall is a call that was made from a user unmarshaler, at any depth.
type innerCall struct {
	np  *NestPlan
	res Res
}

// ctxFor prepares the user unmarshalers' script of a call.
func (a *actor) ctxFor(acts []Act, nest bool) *opCtx {
	c := &opCtx{acts: acts}
	if !nest {
		c.acts = nil
		for _, x := range acts {
			if x.Do != "nest" {
				c.acts = append(c.acts, x)
			}
		}
		return c
	}
	c.nest = func(np *NestPlan) {
		tc := typeByName[np.Type]
		var d Dec
		key := fmt.Sprint(np.Type, np.Kind)
		if np.Keep && a.kept[key] != nil {
			d = a.kept[key]
		} else {
			// Making it is not charged to the call from which it is made.
			t := theWorld.cur
			steps, limit := t.steps, t.limit
			t.limit = 0
			d = mkDec(DecPlan{Type: np.Type, Kind: np.Kind}, newTok())
			if limit > 0 {
				t.limit = limit + t.steps - steps
			}
		}
		a.kept[key] = nil // in use
		sl, _ := mkSlot(SlotPlan{Type: np.Type, Seed: np.Seed})
		in := input(np.Doc)
		acts := np.Acts
		if np.Deep > 0 {
			again := *np
			again.Deep--
			acts = append([]Act{{Do: "nest", Nest: &again}}, acts...)
		}
		r := call(d, in, sl.Ptr, optTable[0], a.ctxFor(acts, true), stepBudget(tc, np.Doc))
		r.Dump = dump(sl.Val, false)
		a.kept[key] = d
		c.ran = append(c.ran, r)
		a.inner = append(a.inner, innerCall{np, r})
	}
	return c
}

// opt is the options of an operation.
func (a *actor) opt(op *OpPlan) *jscandec.DecodeOptions {
	if !a.tp.OneOpt {
		return optTable[op.Opt&7]
	}
	a.opts = *optTable[op.Opt&7]
	return &a.opts
}

// run executes one operation on a destination.
func (a *actor) run(op *OpPlan, d Dec, s *Slot, in Input, nest bool) Res {
	return a.runCtx(op, d, s, in, a.ctxFor(op.Acts, nest))
}

func (a *actor) runCtx(op *OpPlan, d Dec, s *Slot, in Input, c *opCtx) Res {
	var dest any
	tc := typeByName[a.tp.Decs[op.Dec].Type]
	if s == nil {
		dest = tc.Nil
	} else {
		dest = s.Ptr
	}
	r := call(d, in, dest, a.opt(op), c, stepBudget(tc, op.Doc))
	if s != nil {
		r.Dump = dump(s.Val, false)
	}
	return r
}

// warm makes the calls that precede an operation.
func (a *actor) warm(op *OpPlan) {
	if op.Rep == 0 {
		return
	}
	docs := []Doc{op.Doc}
	if op.Mix {
		for i := range a.tp.Ops {
			o := &a.tp.Ops[i]
			if o == op {
				break
			}
			if o.Dec == op.Dec && len(o.Doc) <= 2*len(op.Doc) {
				docs = append(docs, o.Doc)
			}
		}
	}
	var ins []Input
	for _, d := range docs {
		ins = append(ins, input(d))
	}
	tc := typeByName[a.tp.Decs[op.Dec].Type]
	for i := 0; i < op.Rep; i++ {
		c := a.ctxFor(op.Acts, false)
		c.quiet = true
		k := i % len(docs)
		call(a.dec(op.Dec), ins[k], tc.New().Ptr, a.opt(op), c, stepBudget(tc, docs[k]))
	}
	statWarm += uint64(op.Rep)
}

func (a *actor) slot(op *OpPlan) *Slot {
	if op.Slot < 0 || op.Slot >= len(a.slots) {
		return nil
	}
	return a.slots[op.Slot]
}

func mkToks(n int) []*Tok {
	var l []*Tok
	for i := 0; i < n; i++ {
		l = append(l, newTok())
	}
	return l
}
