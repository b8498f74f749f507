package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"unsafe"

	jscandec "github.com/romshark/jscan-experimental-decoder"
)

// Profile is the workload and the oracle of one property.
type Profile struct {
	ID   string
	Gen  func(r *Rng) *Plan
	Exec func(p *Plan) *Violation
}

var profiles = map[string]*Profile{}

func profile(id string, gen func(r *Rng) *Plan, exec func(p *Plan) *Violation) {
	profiles[id] = &Profile{id, gen, exec}
}

var lastHash uint64 // statement trace of the last execution

func init() {
	profile("C01", genC01, execC01)
	profile("C02", genC02, execC02)
	profile("C03", genC03, execC03)
	profile("C04", genC04, execC04)
	profile("C05", genC05, execC05)
	profile("C06", genC06, execC06)
	profile("C07", genC07, execC07)
	profile("C08", genC08, execC08)
	profile("C09", genC09, execC09)
	profile("C10", genC10, execC10)
	profile("C11", genC11, execC11)
	profile("C12", genC12, execC12)
	profile("C13", genC13, execC13)
	profile("C17", genC17, execC17)
}

// ---- C01: a reused decoder behaves like a new one -------------------------------

func genC01(r *Rng) *Plan {
	tc := pickType(r, nil)
	h := &HistCfg{
		Alias: 15, Cyc: true,
		Long: 4, Huge: 6,
		Buf: 25,
		Ops: [2]int{2, 9}, Slots: 3, Damaged: pick(r, 0, 15, 30), Bad: pick(r, 0, 20, 50), Nil: 4,
		Fail: pick(r, 0, 30, 60), Exit: true, Opt: pick(r, 0, 30), Fresh: 40, Fill: 60, Tail: true,
		Kinds: []int{kBytes, kString}, Relate: pick(r, 0, 30, 70),
	}
	return &Plan{Tasks: []TaskPlan{genTask(r, []*TypeCase{tc}, 1, h)}, Toks: 1}
}

func execC01(p *Plan) (v *Violation) {
	lastHash = single(func(*world) {
		tp := &p.Tasks[0]
		a := newActor(tp, mkToks(1))
		var held []Res
		for i := range tp.Ops {
			op := &tp.Ops[i]
			s := a.slot(op)
			in := input(op.Doc)
			var s2 *Slot
			if s != nil {
				s2 = cloneSlot(s)
			}
			fresh := mkDec(tp.Decs[op.Dec], newTok())
			want := a.run(op, fresh, s2, in, false)
			a.warm(op)
			got := a.run(op, a.dec(op.Dec), s, a.in(op), false)
			if d := got.same(&want, true); d != "" {
				v = viol(p, i, "call %d on a reused decoder of %s differs from a new decoder: %s", i, tp.Decs[op.Dec].Type, d)
				return
			}
			if !op.Buf && got.err != nil {
				held = append(held, got)
			}
		}
		v = errorsHeld(p, held)
	})
	return v
}

// errorsHeld checks that errors returned by calls are not changed by later ones.
func errorsHeld(p *Plan, l []Res) *Violation {
	for i := range l {
		if now := errText(l[i].err); now != l[i].Err {
			return viol(p, len(p.Tasks[0].Ops), "an error returned by an earlier call has changed: %q, it was %q", now, l[i].Err)
		}
	}
	return nil
}

// ---- C02: decoders sharing a tokenizer ------------------------------------------

func genC02(r *Rng) *Plan {
	n := r.Range(2, 4)
	var tcs []*TypeCase
	for i := 0; i < n; i++ {
		if i > 0 && r.P(30) {
			t := tcs[r.N(i)] // several decoders of one type, or of types alike
			if r.P(40) {
				t = akin(r, t)
			}
			tcs = append(tcs, t)
			continue
		}
		tcs = append(tcs, pickType(r, nil))
	}
	h := &HistCfg{
		Alias: 10,
		Long:  4, Huge: 3,
		Buf: 20,
		Ops: [2]int{3, 12}, Slots: 2, Damaged: pick(r, 10, 30), Bad: pick(r, 0, 20, 40), Nil: 3,
		Fail: pick(r, 0, 30, 60), Exit: true, Opt: pick(r, 0, 30), Fresh: 40, Fill: 50,
		Kinds: []int{kBytes, kString}, Tail: true, Relate: pick(r, 0, 20, 50),
	}
	toks := r.Range(1, 2)
	return &Plan{Tasks: []TaskPlan{genTask(r, tcs, toks, h)}, Toks: toks}
}

func execC02(p *Plan) (v *Violation) {
	lastHash = single(func(*world) {
		tp := &p.Tasks[0]
		var held []Res
		priv := newActor(tp, nil)
		shared := newActor(tp, mkToks(p.Toks))
		for i := range tp.Decs {
			shared.dec(i)
			priv.dec(i)
		}
		for i := range tp.Ops {
			op := &tp.Ops[i]
			in := input(op.Doc)
			want := priv.run(op, priv.dec(op.Dec), priv.slot(op), in, false)
			shared.warm(op)
			got := shared.run(op, shared.dec(op.Dec), shared.slot(op), shared.in(op), false)
			if d := got.same(&want, true); d != "" {
				v = viol(p, i, "call %d (%s) on a shared tokenizer differs from a private one: %s", i, tp.Decs[op.Dec].Type, d)
				return
			}
			if !op.Buf && got.err != nil {
				held = append(held, got)
			}
		}
		for i := range shared.slots {
			if a, b := dump(shared.slots[i].Val, false), dump(priv.slots[i].Val, false); a != b {
				v = viol(p, len(tp.Ops), "destination %d changed by calls of other decoders: %s", i, firstDiff(a, b))
				return
			}
		}
		v = errorsHeld(p, held)
	})
	return v
}

// ---- C03: concurrent use of separate decoders ------------------------------------

func genC03(r *Rng) *Plan {
	p := &Plan{}
	n := r.Range(2, 4)
	crowd := r.P(3)
	if crowd {
		n = pick(r, 9, 12, 17, 24, 33, 40)
	}
	// Those with user unmarshalers give others time in between.
	var calls func(*TypeCase) bool
	stalls := !crowd && r.P(20)
	if stalls {
		n = r.Range(3, 5)
		calls = func(tc *TypeCase) bool { return tc.F.CB && tc.Size < 40 }
	}
	var pool []*TypeCase
	for i := 0; i < 3; i++ {
		tc := pickType(r, calls)
		if i > 0 && r.P(15) {
			tc = akin(r, pool[0])
		}
		pool = append(pool, tc)
	}
	same := r.P(50)
	if stalls {
		same, pool = true, pool[:r.Range(1, 2)]
	}
	for i := 0; i < n; i++ {
		var tcs []*TypeCase
		for j := r.Range(1, 2); j > 0; j-- {
			if same {
				tcs = append(tcs, pool[r.N(len(pool))])
			} else {
				tcs = append(tcs, pickType(r, calls))
			}
		}
		h := &HistCfg{
			Ops: [2]int{1, 4}, Slots: 2, Damaged: 10, Bad: pick(r, 0, 15), Nil: 1,
			Fail: pick(r, 0, 20), Exit: true, Opt: pick(r, 0, 30), Fresh: 40, Fill: 50,
			Kinds: []int{kBytes, kString, kOneBytes, kOneString}, Tail: true, Nest: pick(r, 0, 10),
			Doc: func(r *Rng) *DocCfg { c := swarmDoc(r); c.Depth = min(c.Depth, 3); c.Wide = 0; return c },
		}
		if crowd {
			h.Ops, h.Damaged, h.Nil = [2]int{1, 1}, 3, 0
		}
		if stalls {
			h.Ops, h.Damaged, h.Nil = [2]int{1, 2}, 0, 0
			h.Doc = func(r *Rng) *DocCfg {
				c := swarmDoc(r)
				c.Depth, c.Wide, c.Max, c.Present, c.Null = min(c.Depth, 3), 0, r.Range(3, 9), 90, 0
				return c
			}
		}
		tp := genTask(r, tcs, 0, h)
		if r.P(40) {
			tp.Ops = append(tp.Ops, OpPlan{Op: "new", Dec: r.N(len(tcs))})
			k := r.N(len(tp.Ops))
			tp.Ops[k], tp.Ops[len(tp.Ops)-1] = tp.Ops[len(tp.Ops)-1], tp.Ops[k]
		}
		if i > 0 && r.P(40) {
			// The same document as another task: the input memory is shared.
			for k := range tp.Ops {
				o := &p.Tasks[0].Ops[r.N(len(p.Tasks[0].Ops))]
				if o.Op == "decode" && tp.Ops[k].Op == "decode" && p.Tasks[0].Decs[o.Dec].Type == tp.Decs[tp.Ops[k].Dec].Type {
					tp.Ops[k].Doc = o.Doc
					if r.P(40) {
						tp.Ops[k].Doc = relate(r, o.Doc)
					}
				}
			}
		}
		p.Tasks = append(p.Tasks, tp)
	}
	if r.P(40) {
		p.Hot = &Hot{Percent: pick(r, 5, 20, 50, 80), Seed: r.U64()}
	}
	if stalls {
		p.Hot = &Hot{Percent: pick(r, 20, 50, 80), Seed: r.U64(), Stall: pick(r, 5, 20, 60, 300)}
	}
	k := pick(r, 2, 6, 20, 60, 300)
	scale := pick(r, 3, 30, 300, 1500)
	if crowd {
		// All are within a call before any of them ends.
		for round := pick(r, 1, 3, 8); round > 0; round-- {
			for i := 0; i < n; i++ {
				p.Switches = append(p.Switches, Switch{After: 1 + r.N(pick(r, 10, 40, 100)), To: (i + 1) % n})
			}
		}
	}
	for i := 0; i < k; i++ {
		p.Switches = append(p.Switches, Switch{After: 1 + r.N(scale), To: r.N(n)})
	}
	return p
}

type inputPool map[string]Input

func (ip inputPool) get(doc []byte) Input {
	if in, ok := ip[string(doc)]; ok {
		return in
	}
	in := input(doc)
	ip[string(doc)] = in
	return in
}

func runTask(a *actor, pool inputPool, out *[]Res) {
	for i := range a.tp.Ops {
		op := &a.tp.Ops[i]
		if op.Op == "new" {
			a.decs[op.Dec] = nil
			a.dec(op.Dec)
			*out = append(*out, Res{})
			continue
		}
		r := a.runCtx(op, a.dec(op.Dec), a.slot(op), pool[string(op.Doc)], a.ctxFor(op.Acts, true))
		*out = append(*out, r)
	}
}

func execC03(p *Plan) (v *Violation) {
	pool := inputPool{}
	for _, t := range p.Tasks {
		for _, o := range t.Ops {
			pool.get(o.Doc)
		}
	}
	n := len(p.Tasks)
	got := make([][]Res, n)
	var fs []func()
	for i := range p.Tasks {
		i := i
		a := newActor(&p.Tasks[i], nil)
		fs = append(fs, func() { runTask(a, pool, &got[i]) })
	}
	h, trace := multi(p, fs)
	defer func() {
		if v != nil && p.Hot != nil {
			v.Trace = trace
		}
	}()
	lastHash = h
	for i := range p.Tasks {
		var want []Res
		a := newActor(&p.Tasks[i], nil)
		single(func(*world) { runTask(a, pool, &want) })
		if len(want) != len(got[i]) {
			return viol(p, i, "task %d ended after %d of %d calls", i, len(got[i]), len(want))
		}
		for k := range want {
			if d := got[i][k].same(&want[k], true); d != "" {
				return viol(p, k, "task %d call %d (%s): result differs from running alone: %s", i, k, p.Tasks[i].Decs[p.Tasks[i].Ops[k].Dec].Type, d)
			}
			if now := errText(got[i][k].err); now != got[i][k].Err {
				return viol(p, k, "task %d call %d: the error it returned has changed: %q, it was %q", i, k, now, got[i][k].Err)
			}
		}
	}
	for d, in := range pool {
		if string(in.B) != d || in.S != d {
			return viol(p, 0, "shared read-only input %q was modified", d)
		}
	}
	return nil
}

// ---- C04: re-entrant calls ---------------------------------------------------------

func isCB(t *TypeCase) bool { return t.F.CB }

func genC04(r *Rng) *Plan {
	tc := pickType(r, isCB)
	h := &HistCfg{
		Alias: 10,
		Huge:  1,
		Ops:   [2]int{1, 4}, Slots: 2, Bad: pick(r, 0, 10), Fail: pick(r, 0, 15), Exit: true, Opt: pick(r, 0, 20),
		Fresh: 40, Fill: 50, Tail: true, Kinds: []int{kBytes, kString, kOneBytes, kOneString}, Nest: 95,
		Doc: func(r *Rng) *DocCfg {
			c := swarmDoc(r)
			c.Present = 95
			c.Null = pick(r, 0, 3)
			c.Depth = max(c.Depth, 3)
			return c
		},
	}
	return &Plan{Tasks: []TaskPlan{genTask(r, []*TypeCase{tc}, 1, h)}, Toks: 1}
}

func execC04(p *Plan) (v *Violation) {
	tp := &p.Tasks[0]
	var got, want []Res
	var nested [][]Res
	var plans [][]*NestPlan
	lastHash = single(func(*world) {
		a := newActor(tp, mkToks(1))
		for i := range tp.Ops {
			op := &tp.Ops[i]
			c := a.ctxFor(op.Acts, true)
			var np []*NestPlan
			f := c.nest
			c.nest = func(x *NestPlan) { np = append(np, x); f(x) }
			got = append(got, a.runCtx(op, a.dec(op.Dec), a.slot(op), a.in(op), c))
			nested = append(nested, c.ran)
			plans = append(plans, np)
		}
		alone := map[string]Res{}
		for _, in := range a.inner {
			np := *in.np
			np.Deep = 0
			k := fmt.Sprintf("%+v", np)
			x, ok := alone[k]
			if !ok {
				solo := newActor(tp, nil)
				c := solo.ctxFor(nil, true)
				np.Acts = solo.ctxFor(np.Acts, false).acts
				c.nest(&np)
				x = c.ran[0]
				alone[k] = x
			}
			if d := in.res.same(&x, true); d != "" {
				v = viol(p, 0, "inner call (%s, %d more from within) differs from running alone: %s", np.Type, in.np.Deep, d)
				return
			}
		}
		b := newActor(tp, mkToks(1))
		for i := range tp.Ops {
			op := &tp.Ops[i]
			want = append(want, b.runCtx(op, b.dec(op.Dec), b.slot(op), input(op.Doc), b.ctxFor(op.Acts, false)))
		}
		for i := range tp.Ops {
			if d := got[i].same(&want[i], true); d != "" {
				v = viol(p, i, "call %d (%s) is disturbed by calls made from its user unmarshalers: %s", i, tp.Decs[tp.Ops[i].Dec].Type, d)
				return
			}
			for k, np := range plans[i] {
				if k >= len(nested[i]) {
					v = viol(p, i, "inner call %d of call %d never returned", k, i)
					return
				}
				solo := newActor(tp, nil)
				c := solo.ctxFor(nil, true)
				c.nest(np)
				if d := nested[i][k].same(&c.ran[0], true); d != "" {
					v = viol(p, i, "inner call %d (%s) of call %d differs from running alone: %s", k, np.Type, i, d)
					return
				}
			}
		}
	})
	return v
}

// ---- C05: collections and stack growth ----------------------------------------------

func genC05(r *Rng) *Plan {
	var tcs []*TypeCase
	for i := r.Range(1, 2); i > 0; i-- {
		tcs = append(tcs, pickType(r, func(t *TypeCase) bool { return t.F.Ptrs || r.P(10) }))
	}
	h := &HistCfg{
		Alias: 15,
		Huge:  1,
		Ops:   [2]int{1, 4}, Slots: 2, Bad: pick(r, 0, 10), Damaged: pick(r, 0, 5), Fail: pick(r, 0, 10), Fresh: 40, Fill: 60, Tail: true,
		Kinds: []int{kBytes, kString, kOneBytes, kOneString}, Faults: pick(r, 1, 3, 6), Opt: 10, Nest: pick(r, 0, 0, 20),
	}
	p := &Plan{Tasks: []TaskPlan{genTask(r, tcs, 1, h)}, Toks: 1}
	for i := range p.Tasks[0].Ops {
		op := &p.Tasks[0].Ops[i]
		if r.P(30) {
			op.Acts = append(op.Acts, Act{At: smallN(r), Do: pick(r, "gc", "grow", "churn")})
		}
		op.Stack = r.P(40)
	}
	return p
}

func execC05(p *Plan) (v *Violation) {
	tp := &p.Tasks[0]
	var want, got []Res
	lastHash = single(func(w *world) {
		a := newActor(tp, mkToks(p.Toks))
		for i := range tp.Ops {
			op := &tp.Ops[i]
			c := a.ctxFor(op.Acts, true)
			var acts []Act
			for _, x := range c.acts {
				if x.Do != "gc" && x.Do != "grow" && x.Do != "churn" {
					acts = append(acts, x)
				}
			}
			c.acts = acts
			want = append(want, a.runCtx(op, a.dec(op.Dec), a.slot(op), input(op.Doc), c))
		}
		a = nil
		b := newActor(tp, mkToks(p.Toks))
		t := w.cur
		last := map[int]string{}
		for i := range tp.Ops {
			op := &tp.Ops[i]
			d := b.dec(op.Dec)
			in := input(op.Doc)
			t.flt, t.nf = nil, 0
			for _, f := range op.Faults {
				t.flt = append(t.flt, Fault{Step: f.Step * want[i].Steps / 10000, Do: f.Do})
			}
			c := b.ctxFor(op.Acts, true)
			c.stack = op.Stack && op.Slot >= 0
			var dest any = typeByName[tp.Decs[op.Dec].Type].Nil
			s := b.slot(op)
			if s != nil {
				dest = s.Ptr
			}
			r := call(d, in, dest, b.opt(op), c, stepBudget(typeByName[tp.Decs[op.Dec].Type], op.Doc))
			t.flt = nil
			in = Input{}
			// The input is garbage now; collect and reuse memory before looking.
			if len(op.Faults) > 0 {
				w.fault("churn")
			}
			if s != nil {
				r.Dump = dump(s.Val, false)
				last[op.Slot] = dump(s.Val, true)
			}
			got = append(got, r)
			if d := r.same(&want[i], true); d != "" {
				v = viol(p, i, "call %d (%s) differs when the collector or stack growth strikes: %s", i, tp.Decs[op.Dec].Type, d)
				return
			}
		}
		runtime.GC()
		churn()
		runtime.GC()
		for k, old := range last {
			if now := dump(b.slots[k].Val, true); now != old {
				v = viol(p, len(tp.Ops), "decoded value %d did not survive a collection: %s", k, firstDiff(now, old))
				return
			}
		}
		runtime.KeepAlive(b)
	})
	return v
}

// ---- C06: only the destination is written ---------------------------------------------

func genC06(r *Rng) *Plan {
	tc := pickType(r, nil)
	h := &HistCfg{
		Huge: 4,
		Ops:  [2]int{1, 6}, Slots: 2, Damaged: pick(r, 0, 15), Bad: pick(r, 0, 20), Nil: 2, Fail: pick(r, 0, 15), Exit: true,
		Opt: pick(r, 0, 30), Fresh: 30, Fill: 75, Tail: true, Guard: true, Kinds: []int{kBytes, kString, kOneBytes, kOneString},
		Doc: func(r *Rng) *DocCfg { c := swarmDoc(r); c.Surplus = pick(r, 10, 60); return c },
	}
	return &Plan{Tasks: []TaskPlan{genTask(r, []*TypeCase{tc}, 1, h)}, Toks: 1}
}

const inPad = 48

// paddedInput places the document between guard bytes; the byte slice has spare
// capacity.
func paddedInput(doc []byte) (in Input, buf []byte) {
	buf = make([]byte, len(doc)+2*inPad)
	for i := range buf {
		buf[i] = byte(0xC0 + i%7)
	}
	copy(buf[inPad:], doc)
	in.B = buf[inPad : inPad+len(doc)]
	sb := append([]byte(nil), doc...)
	in.S = unsafe.String(unsafe.SliceData(sb), len(sb))
	return in, buf
}

func execC06(p *Plan) (v *Violation) {
	tp := &p.Tasks[0]
	lastHash = single(func(*world) {
		a := newActor(tp, mkToks(1))
		opts := make([]jscandec.DecodeOptions, 8)
		for i := range opts {
			opts[i] = *optTable[i]
		}
		def, defi := *jscandec.DefaultOptions, *jscandec.DefaultInitOptions
		// A second destination of the same type next in memory.
		for i := range tp.Ops {
			op := &tp.Ops[i]
			in, buf := paddedInput(op.Doc)
			before := append([]byte(nil), buf...)
			s := a.slot(op)
			others := map[int]string{}
			for k, o := range a.slots {
				if o != s {
					others[k] = dump(o.Val, true)
				}
			}
			var excl []exclLoc
			if s != nil {
				excl = excluded(s.Val)
			}
			a.run(op, a.dec(op.Dec), s, in, false)
			name := tp.Decs[op.Dec].Type
			if !bytes.Equal(buf, before) {
				v = viol(p, i, "call %d (%s) modified its input buffer", i, name)
				return
			}
			if in.S != string(op.Doc) {
				v = viol(p, i, "call %d (%s) modified its input string", i, name)
				return
			}
			for k, o := range a.slots {
				if !o.guardOK() {
					v = viol(p, i, "call %d (%s) wrote to memory next to destination %d", i, name, k)
					return
				}
				for _, g := range a.guards[k] {
					if !bytes.Equal(unsafe.Slice((*byte)(g.p), g.n), g.copy) {
						v = viol(p, i, "call %d (%s) wrote beyond the capacity of a slice of destination %d", i, name, k)
						return
					}
				}
				if old, ok := others[k]; ok && dump(o.Val, true) != old {
					v = viol(p, i, "call %d (%s) modified another destination: %s", i, name, firstDiff(dump(o.Val, true), old))
					return
				}
			}
			if d := changedExcluded(excl); d != "" {
				v = viol(p, i, "call %d (%s) wrote to a field excluded from decoding: %s", i, name, d)
				return
			}
			for k := range opts {
				if opts[k] != *optTable[k] {
					v = viol(p, i, "call %d (%s) modified its options", i, name)
					return
				}
			}
			if def != *jscandec.DefaultOptions || defi != *jscandec.DefaultInitOptions {
				v = viol(p, i, "call %d (%s) modified the default options", i, name)
				return
			}
		}
	})
	return v
}

// exclLoc is a field excluded from decoding.
type exclLoc struct {
	v       reflect.Value
	name    string
	old     string
	inArray bool // elements beyond the JSON array are zeroed as a whole
}

// excluded finds the fields excluded from decoding in a destination, in the arrays
// it contains and behind its pointers.
func excluded(v reflect.Value) (out []exclLoc) {
	var walk func(v reflect.Value, inArray bool)
	walk = func(v reflect.Value, inArray bool) {
		if isUserUnmarshaler(v.Type()) {
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				walk(v.Elem(), false)
			}
		case reflect.Struct:
			si := infoOf(v.Type())
			for _, i := range si.out {
				f := field(v, i)
				out = append(out, exclLoc{f, v.Type().Field(i).Name, dump(f, true), inArray})
			}
			for _, f := range si.in {
				walk(v.Field(f.i), inArray)
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), true)
			}
		}
	}
	walk(v, false)
	return out
}

// changedExcluded compares the fields found by excluded with what they were.
func changedExcluded(l []exclLoc) string {
	for _, x := range l {
		if now := dump(x.v, true); now != x.old && !(x.inArray && x.v.IsZero()) {
			return x.name + ": " + firstDiff(now, x.old)
		}
	}
	return ""
}

// ---- C07: ownership and stability -----------------------------------------------------

func genC07(r *Rng) *Plan {
	var tcs []*TypeCase
	for i := r.Range(1, 2); i > 0; i-- {
		tcs = append(tcs, pickType(r, func(t *TypeCase) bool { return t.F.Ptrs }))
	}
	h := &HistCfg{
		Long: 4, Huge: 2,
		Ops: [2]int{2, 7}, Slots: 6, Damaged: pick(r, 0, 10), Bad: pick(r, 0, 10), Fail: pick(r, 0, 10), Fresh: 60, Fill: 40, Tail: true,
		Opt: pick(r, 0, 20), Kinds: []int{kBytes, kBytes, kString, kOneBytes, kOneString},
		Doc: func(r *Rng) *DocCfg { c := swarmDoc(r); c.Max = 4; return c },
	}
	toks := 1
	p := &Plan{Tasks: []TaskPlan{genTask(r, tcs, toks, h)}, Toks: toks}
	tp := &p.Tasks[0]
	// The same document again: values must not be shared between calls.
	for i := range tp.Ops {
		if i > 0 && r.P(40) {
			for k := i - 1; k >= 0; k-- {
				if tp.Ops[k].Dec == tp.Ops[i].Dec {
					tp.Ops[i].Doc = tp.Ops[k].Doc
					break
				}
			}
		}
		if r.P(30) {
			tp.Ops[i].Seed = r.U64() | 1 // the caller modifies a value afterwards
		}
	}
	p.Mode = pick(r, "own-buffer", "one-buffer")
	return p
}

type memRange struct {
	lo, hi uintptr
	who    string
}

// footprint lists the mutable memory of a value.
func footprint(v reflect.Value, who string, out *[]memRange) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			if sz := v.Type().Elem().Size(); sz > 0 {
				lo := v.Pointer()
				*out = append(*out, memRange{lo, lo + sz, who + "*"})
			}
			footprint(v.Elem(), who+"*", out)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		if sz := v.Type().Elem().Size(); sz > 0 && v.Cap() > 0 {
			lo := v.Pointer()
			*out = append(*out, memRange{lo, lo + sz*uintptr(v.Cap()), who + "[]"})
		}
		if !hasMem(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			footprint(v.Index(i), fmt.Sprintf("%s[%d]", who, i), out)
		}
	case reflect.Array:
		if hasMem(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				footprint(v.Index(i), fmt.Sprintf("%s[%d]", who, i), out)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if hasMem(v.Type().Field(i).Type) {
				footprint(v.Field(i), who+"."+v.Type().Field(i).Name, out)
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		lo := v.Pointer()
		*out = append(*out, memRange{lo, lo + 48, who + "{map}"})
		if !hasMem(v.Type().Elem()) {
			return
		}
		it := v.MapRange()
		for it.Next() {
			footprint(it.Value(), who+"{}", out)
		}
	case reflect.Interface:
		if !v.IsNil() {
			footprint(v.Elem(), who+"<>", out)
		}
	}
}

func hasMem(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Map, reflect.Interface:
		return true
	case reflect.Array:
		return hasMem(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasMem(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

func execC07(p *Plan) (v *Violation) {
	tp := &p.Tasks[0]
	lastHash = single(func(*world) {
		a := newActor(tp, mkToks(p.Toks))
		known := map[int]string{}
		var one []byte
		n := 0
		for i := range tp.Ops {
			n = max(n, len(tp.Ops[i].Doc))
		}
		one = make([]byte, n)
		for i := range tp.Ops {
			op := &tp.Ops[i]
			s := a.slot(op)
			if s == nil {
				continue
			}
			name := tp.Decs[op.Dec].Type
			in := input(op.Doc)
			if p.Mode == "one-buffer" {
				in.B = one[:copy(one, op.Doc)]
			}
			a.warm(op)
			a.run(op, a.dec(op.Dec), s, in, false)
			known[op.Slot] = dump(s.Val, true)
			// The caller reuses the input memory.
			full := in.B[:cap(in.B)]
			for k := range full {
				full[k] = 'A' + byte(k%26)
			}
			if d := stable(a, known); d != "" {
				v = viol(p, i, "after call %d (%s) and reuse of its input: %s", i, name, d)
				return
			}
			// Decoded values share no mutable memory.
			var fp []memRange
			for k := range a.slots {
				if _, ok := known[k]; ok {
					footprint(a.slots[k].Val, fmt.Sprintf("value %d", k), &fp)
				}
			}
			if len(full) > 0 {
				lo := uintptr(unsafe.Pointer(unsafe.SliceData(full)))
				fp = append(fp, memRange{lo, lo + uintptr(len(full)), "the input"})
			}
			if d := overlap(fp); d != "" {
				v = viol(p, i, "after call %d (%s): %s", i, name, d)
				return
			}
			if op.Seed != 0 {
				// The caller modifies everything it was given.
				scramble(newRng(op.Seed), s.Val, 0)
				known[op.Slot] = dump(s.Val, true)
				if d := stable(a, known); d != "" {
					v = viol(p, i, "modifying the value of call %d (%s) changed another: %s", i, name, d)
					return
				}
			}
		}
	})
	return v
}

func stable(a *actor, known map[int]string) string {
	for k := range a.slots {
		old, ok := known[k]
		if !ok {
			continue
		}
		if now := dump(a.slots[k].Val, true); now != old {
			return fmt.Sprintf("value %d changed: %s", k, firstDiff(now, old))
		}
	}
	return ""
}

func overlap(l []memRange) string {
	// Few ranges: quadratic is fine up to a few hundred.
	if len(l) > 600 {
		l = l[:600]
	}
	for i := range l {
		for j := 0; j < i; j++ {
			a, b := l[i], l[j]
			if a.lo < b.hi && b.lo < a.hi {
				return fmt.Sprintf("%s and %s share memory", b.who, a.who)
			}
		}
	}
	return ""
}

// scramble overwrites all mutable memory of a value, including spare capacity.
func scramble(r *Rng, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			scramble(r, v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		full := v.Slice(0, v.Cap())
		for i := 0; i < full.Len(); i++ {
			scramble(r, full.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(r, v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(r, field(v, i), depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		if v.Type().Key().Kind() == reflect.String {
			k := reflect.New(v.Type().Key()).Elem()
			k.SetString("added by the caller")
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
		it := v.MapRange()
		for it.Next() {
			e := it.Value()
			if e.Kind() == reflect.Slice || e.Kind() == reflect.Pointer || e.Kind() == reflect.Map || e.Kind() == reflect.Interface {
				scramble(r, e, depth+1)
			}
		}
	case reflect.Interface:
		if !v.IsNil() {
			switch v.Elem().Kind() {
			case reflect.Slice, reflect.Map:
				scramble(r, v.Elem(), depth+1)
			}
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrambled")
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(int64(r.N(100)))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if v.CanSet() {
			v.SetUint(uint64(r.N(100)))
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(float64(r.N(100)))
		}
	}
}

// ---- C08: damaged documents --------------------------------------------------------------

func genC08(r *Rng) *Plan {
	tc := pickType(r, nil)
	h := &HistCfg{
		Alias: 15, Cyc: true,
		Long: 2, Huge: 4,
		Buf: 45,
		Ops: [2]int{1, 6}, Slots: 3, Damaged: 70, Bad: pick(r, 0, 10), Fail: pick(r, 0, 10), Fresh: 40, Fill: 75, Tail: true,
		Opt: pick(r, 0, 20), Kinds: []int{kBytes, kString, kOneBytes, kOneString},
	}
	return &Plan{Tasks: []TaskPlan{genTask(r, []*TypeCase{tc}, 1, h)}, Toks: 1}
}

func execC08(p *Plan) (v *Violation) {
	tp := &p.Tasks[0]
	lastHash = single(func(*world) {
		a := newActor(tp, mkToks(1))
		after := false
		for i := range tp.Ops {
			op := &tp.Ops[i]
			s := a.slot(op)
			name := tp.Decs[op.Dec].Type
			if json.Valid(op.Doc) {
				// Service must go on after a damaged document.
				var s2 *Slot
				if s != nil {
					s2 = cloneSlot(s)
				}
				got := a.run(op, a.dec(op.Dec), s, a.in(op), false)
				if after {
					want := a.run(op, mkDec(tp.Decs[op.Dec], newTok()), s2, input(op.Doc), false)
					if d := got.same(&want, true); d != "" {
						v = viol(p, i, "call %d (%s) after a damaged document: %s", i, name, d)
						return
					}
				}
				after = got.Panic == "" && !got.Goexit && got.Err == "" && after
				continue
			}
			after = true
			if s == nil {
				continue
			}
			before := dump(s.Val, true)
			a.warm(op)
			got := a.run(op, a.dec(op.Dec), s, a.in(op), false)
			switch {
			case got.Panic != "":
				v = viol(p, i, "call %d (%s) with a damaged document (%s): %s", i, name, op.Note, got.Panic)
			case got.Goexit:
				v = viol(p, i, "call %d (%s) with a damaged document (%s): goroutine exit", i, name, op.Note)
			case got.Err == "":
				v = viol(p, i, "call %d (%s): a damaged document (%s) was accepted", i, name, op.Note)
			case len(got.Log) != 0:
				v = viol(p, i, "call %d (%s) with a damaged document (%s) invoked a user unmarshaler", i, name, op.Note)
			case dump(s.Val, true) != before:
				v = viol(p, i, "call %d (%s) with a damaged document (%s) changed the destination: %s", i, name, op.Note, firstDiff(dump(s.Val, true), before))
			case got.Idx != -2 && (got.Idx < 0 || got.Idx > len(op.Doc)):
				v = viol(p, i, "call %d (%s) with a damaged document (%s): error position %d outside of the input of %d bytes", i, name, op.Note, got.Idx, len(op.Doc))
			}
			if v != nil {
				return
			}
		}
	})
	return v
}

// ---- C09: user unmarshalers --------------------------------------------------------------

func genC09(r *Rng) *Plan {
	tc := pickType(r, isCB)
	h := &HistCfg{
		Huge: 4,
		Buf:  20,
		Ops:  [2]int{1, 5}, Slots: 2, Fail: pick(r, 0, 40, 80), Exit: true, Fresh: 40, Fill: 50,
		Opt: pick(r, 0, 20), Bad: pick(r, 0, 0, 20), Kinds: []int{kBytes, kString, kOneBytes, kOneString},
		Doc: func(r *Rng) *DocCfg { c := swarmDoc(r); c.Present = pick(r, 80, 95); return c },
	}
	p := &Plan{Tasks: []TaskPlan{genTask(r, []*TypeCase{tc}, 1, h)}, Toks: 1}
	for i := range p.Tasks[0].Ops {
		p.Tasks[0].Ops[i].Opt &^= oUnknown
	}
	return p
}

type oracleBug struct{ msg string }

func execC09(p *Plan) (v *Violation) {
	tp := &p.Tasks[0]
	lastHash = single(func(w *world) {
		a := newActor(tp, mkToks(1))
		for i := range tp.Ops {
			op := &tp.Ops[i]
			s := a.slot(op)
			if s == nil || !json.Valid(op.Doc) {
				continue
			}
			tc := s.T
			opt := op.Opt
			if k := tp.Decs[op.Dec].Kind; k == kOneBytes || k == kOneString {
				opt = 0
			}
			want := expectDeliveries(op.Doc, tc.RT, opt&oExactCase != 0, opt&oNoUnescape != 0)
			// The model itself is checked against encoding/json.
			c := &opCtx{}
			var err error
			withCtx(c, func() { err = json.Unmarshal(op.Doc, reflect.New(tc.Oracle).Interface()) })
			theWorld = w
			if err != nil {
				// A value does not fit: what was delivered by then are the first
				// ones, and none that follows that value.
				var m *misfit
				withCtx(&opCtx{}, func() { m = firstMisfit(op.Doc, tc.RT, opt) })
				theWorld = w
				if m == nil {
					continue
				}
				before := 0
				for before < len(want) && want[before].At < m.at {
					before++
				}
				got := a.run(op, a.dec(op.Dec), s, a.in(op), false)
				n := len(got.Log)
				if n > before {
					v = viol(p, i, "call %d (%s): delivery %d is %s %q, but the value at %d does not fit", i, tp.Decs[op.Dec].Type, before, got.Log[before].Typ, got.Log[before].Data, m.at)
				} else if d := sameLog(got.Log, want[:n]); d != "" {
					v = viol(p, i, "call %d (%s): %s", i, tp.Decs[op.Dec].Type, d)
				}
				if v != nil {
					return
				}
				continue
			}
			if opt == 0 && !sameMultiset(c.log, want) {
				panic(oracleBug{fmt.Sprintf("delivery model disagrees with encoding/json on %s %q: %v / %v", tc.Name, op.Doc, c.log, want)})
			}
			got := a.run(op, a.dec(op.Dec), s, a.in(op), false)
			stop := -1
			act := ""
			for _, x := range op.Acts {
				if x.At < len(want) && (stop < 0 || x.At < stop) {
					stop, act = x.At, x.Do
				}
			}
			if stop >= 0 {
				all := want
				want = want[:stop+1]
				_ = all
			}
			name := tp.Decs[op.Dec].Type
			if d := sameLog(got.Log, want); d != "" {
				v = viol(p, i, "call %d (%s): %s", i, name, d)
				return
			}
			switch act {
			case "":
				if got.Panic != "" || got.Goexit || got.Err != "" {
					v = viol(p, i, "call %d (%s) without any failing unmarshaler: error %q %s", i, name, got.Err, got.Panic)
				}
			case "err":
				if !got.injected || got.Panic != "" {
					v = viol(p, i, "call %d (%s): delivery %d failed but the call returned %q %s, not that error", i, name, stop, got.Err, got.Panic)
				} else if got.Idx != -2 && got.Idx != want[stop].At {
					v = viol(p, i, "call %d (%s): delivery %d failed; error position %d, want %d", i, name, stop, got.Idx, want[stop].At)
				}
			case "panic":
				if !got.injPan {
					v = viol(p, i, "call %d (%s): delivery %d panicked but the call gave error %q panic %q", i, name, stop, got.Err, got.Panic)
				}
			case "goexit":
				if !got.Goexit {
					v = viol(p, i, "call %d (%s): delivery %d ended its goroutine but the call continued: error %q panic %q", i, name, stop, got.Err, got.Panic)
				}
			}
			if v != nil {
				return
			}
		}
	})
	return v
}

func sameMultiset(a, b []Delivery) bool {
	m := map[string]int{}
	for _, d := range a {
		m[d.Typ+"\x00"+d.Data]++
	}
	for _, d := range b {
		m[d.Typ+"\x00"+d.Data]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

// ---- C11: histories against encoding/json -----------------------------------------------

func genC11(r *Rng) *Plan {
	tc := pickType(r, nil)
	h := &HistCfg{
		Alias: 25, OwnSlices: true, Cyc: true,
		Long: 2, Huge: 4,
		Buf: 25,
		Ops: [2]int{1, 7}, Slots: 2, Damaged: pick(r, 0, 5), Bad: pick(r, 0, 15, 30), Fresh: 15, Fill: 60,
		Opt: pick(r, 0, 15, 40), Kinds: []int{kBytes, kString, kOneBytes, kOneString},
	}
	h.Doc = func(r *Rng) *DocCfg {
		c := swarmDoc(r)
		c.NoDupSlice = true
		return c
	}
	p := &Plan{Tasks: []TaskPlan{genTask(r, []*TypeCase{tc}, 1, h)}, Toks: 1}
	for i := range p.Tasks[0].Ops {
		// Invalid UTF-8 is a known finding.
		op := &p.Tasks[0].Ops[i]
		op.Doc = bytes.ToValidUTF8(op.Doc, []byte("?"))
		if tc.RT.Kind() == reflect.Interface && tc.RT.NumMethod() == 0 && r.P(12) {
			op.Doc, op.Note = wrapped(r, 9990+r.N(20)), "deep"
		}
	}
	return p
}

// wrapped is a document of nested arrays and objects.
func wrapped(r *Rng, depth int) []byte {
	objects := r.N(3) * 50
	var l []byte
	var end []byte
	for ; depth > 0; depth-- {
		if r.P(objects) {
			l, end = append(l, `{"k":`...), append(end, '}')
		} else {
			l, end = append(l, '['), append(end, ']')
		}
	}
	l = append(l, pick(r, "1", "null", `"x"`, "[]", "{}")...)
	for i := len(end) - 1; i >= 0; i-- {
		l = append(l, end[i])
	}
	return l
}

func execC11(p *Plan) (v *Violation) {
	tp := &p.Tasks[0]
	lastHash = single(func(w *world) {
		a := newActor(tp, mkToks(1))
		for i := range tp.Ops {
			op := &tp.Ops[i]
			s := a.slot(op)
			if s == nil {
				continue
			}
			tc := s.T
			clip(s.Val)
			model := cloneSlot(s)
			before := dump(s.Val, false)
			refs, modelRefs := held(s.Val, op.Doc), held(model.Val, op.Doc)
			kind := tp.Decs[op.Dec].Kind
			var err error
			c := &opCtx{}
			withCtx(c, func() {
				doc, opt := op.Doc, op.Opt
				if kind >= kOneBytes {
					opt = 0 // the one-shot functions have no options
				}
				if opt&(oNoUnescape|oExactCase) != 0 && json.Valid(doc) {
					doc = underOptions(doc, tc.RT, opt&oExactCase != 0, opt&oNoUnescape != 0)
				}
				dec := json.NewDecoder(bytes.NewReader(doc))
				dest := reflect.NewAt(tc.Oracle, model.Val.Addr().UnsafePointer()).Interface()
				if !json.Valid(op.Doc) {
					err = errOracle
					return
				}
				if opt&oUnknown != 0 {
					dec.DisallowUnknownFields()
				}
				err = dec.Decode(dest)
			})
			theWorld = w
			a.warm(op)
			got := a.run(op, a.dec(op.Dec), s, a.in(op), false)
			name := tp.Decs[op.Dec].Type
			if got.Panic != "" {
				v = viol(p, i, "call %d (%s): %s", i, name, got.Panic)
				return
			}
			if (got.Err == "") != (err == nil) {
				v = viol(p, i, "call %d (%s): error %q, encoding/json: %v", i, name, got.Err, err)
				return
			}
			if err != nil {
				// After a rejection the contents are unspecified; go on from there.
				continue
			}
			if g, m := dump(s.Val, false), dump(model.Val, false); g != m {
				v = viol(p, i, "call %d (%s) into %s: differs from encoding/json: %s", i, name, short(before), firstDiff(g, m))
				return
			}
			for k := range refs {
				if !modelRefs[k].kept() {
					continue
				}
				if g, m := dump(refs[k].Value, false), dump(modelRefs[k].Value, false); g != m {
					v = viol(p, i, "call %d (%s) into %s: a %s the destination referred to before differs from encoding/json: %s", i, name, short(before), refs[k].Type(), firstDiff(g, m))
					return
				}
			}
		}
	})
	return v
}

func short(s string) string {
	if len(s) > 200 {
		return s[:200] + "…"
	}
	return s
}

// ---- C13: all entry points agree ----------------------------------------------------------

func genC13(r *Rng) *Plan {
	tc := pickType(r, nil)
	h := &HistCfg{
		Alias: 15, Cyc: true,
		Long: 2, Huge: 4,
		Buf: 25,
		Ops: [2]int{1, 6}, Slots: 2, Damaged: pick(r, 0, 20), Bad: pick(r, 0, 25), Nil: 2, Fail: pick(r, 0, 30), Exit: true,
		Opt: pick(r, 0, 20), Fresh: 30, Fill: 60, Tail: true, Kinds: []int{kBytes},
	}
	return &Plan{Tasks: []TaskPlan{genTask(r, []*TypeCase{tc}, 1, h)}, Toks: 1}
}

func execC13(p *Plan) (v *Violation) {
	lastHash = single(func(*world) {
		var reps [nKinds]*actor
		for k := range reps {
			tp := p.Tasks[0]
			tp.Decs = append([]DecPlan(nil), tp.Decs...)
			for i := range tp.Decs {
				tp.Decs[i].Kind = k
			}
			reps[k] = newActor(&tp, mkToks(p.Toks))
		}
		for i := range p.Tasks[0].Ops {
			op := &p.Tasks[0].Ops[i]
			o := *op
			if o.Opt != 0 {
				// The one-shot functions have no options: the reusable pair
				// only, on a copy of the state.
				a, b := reps[kBytes], reps[kString]
				var sa, sb *Slot
				if s := a.slot(&o); s != nil {
					sa, sb = cloneSlot(s), cloneSlot(b.slot(&o))
				}
				ra := a.run(&o, a.dec(o.Dec), sa, input(o.Doc), false)
				rb := b.run(&o, b.dec(o.Dec), sb, input(o.Doc), false)
				if d := rb.same(&ra, true); d != "" {
					v = viol(p, i, "call %d (%s): the string decoder differs from the bytes decoder: %s", i, p.Tasks[0].Decs[o.Dec].Type, d)
					return
				}
				o.Opt = 0
			}
			var want Res
			for k := range reps {
				a := reps[k]
				a.warm(&o)
				got := a.run(&o, a.dec(o.Dec), a.slot(&o), a.in(&o), false)
				if k == 0 {
					want = got
					continue
				}
				if d := got.same(&want, k == kString); d != "" {
					v = viol(p, i, "call %d (%s): %s differs from bytes: %s", i, p.Tasks[0].Decs[o.Dec].Type, kindName[k], d)
					return
				}
			}
		}
	})
	return v
}
