package main

import (
	"bytes"
	"encoding/json"
	"runtime"
)

// ---- C12: work is proportional to the input ------------------------------------------

// Sizes a document is inflated to, and how much more the second inflation may
// cost than the first: linear work gives a ratio of 8 (448/56), quadratic 64.
var inflate = [3]int{8, 64, 512}

const maxRatio = 20

func genC12(r *Rng) *Plan {
	tc := pickType(r, nil)
	h := &HistCfg{
		Buf: 20,
		Ops: [2]int{1, 4}, Slots: 2, Damaged: pick(r, 0, 30), Bad: pick(r, 0, 20, 50), Nil: 2,
		Fail: pick(r, 0, 50), Exit: true, Opt: pick(r, 0, 20), Fresh: 40, Fill: 60, Tail: true,
		Kinds: []int{kBytes, kString, kOneBytes, kOneString},
	}
	p := &Plan{Tasks: []TaskPlan{genTask(r, []*TypeCase{tc}, 1, h)}, Toks: 1}
	// The document that is inflated, and how.
	c := swarmDoc(r)
	c.Max, c.Wide = 3, 0
	c.Depth = r.Range(2, 4)
	if r.P(25) {
		c.Unknown = 60
	}
	if r.P(20) {
		c.Bad = 4
	}
	var doc []byte
	for i := 0; i < 20; i++ {
		doc = genDoc(r, tc.RT, c)
		if len(doc) > 4 && len(doc) < 600 {
			break
		}
	}
	op := OpPlan{Op: "inflate", Dec: 0, Slot: 0, Doc: doc, Seed: r.U64() | 1}
	if r.P(20) {
		op.Note = "damaged"
	}
	if len(p.Tasks[0].Slots) == 0 {
		op.Slot = -1
	}
	p.Tasks[0].Ops = append(p.Tasks[0].Ops, op)
	return p
}

// inflateDoc builds the document with some part of it repeated k times.
func inflateDoc(seed uint64, doc []byte, k int, damaged bool) []byte {
	r := newRng(seed)
	root := parse(doc)
	var all []*node
	var up []*node
	var collect func(n, parent *node)
	collect = func(n, parent *node) {
		all = append(all, n)
		up = append(up, parent)
		for i := range n.kids {
			if n.kind == '{' {
				all = append(all, n.keys[i])
				up = append(up, nil)
			}
			collect(n.kids[i], n)
		}
	}
	collect(root, nil)
	rep := func(from, to int, sep string) []byte {
		var b bytes.Buffer
		b.Write(doc[:from])
		for i := 0; i < k; i++ {
			if i > 0 {
				b.WriteString(sep)
			}
			b.Write(doc[from:to])
		}
		b.Write(doc[to:])
		return b.Bytes()
	}
	var out []byte
	for try := 0; try < 30 && out == nil; try++ {
		i := r.N(len(all))
		n := all[i]
		switch mode := r.N(5); mode {
		case 0, 1: // the contents of a container, or of a string
			switch n.kind {
			case '[':
				if len(n.kids) > 0 {
					out = rep(n.kids[0].from, n.kids[len(n.kids)-1].to, ",")
				}
			case '{':
				if len(n.kids) > 0 {
					if r.P(50) {
						out = rep(n.keys[0].from, n.kids[len(n.kids)-1].to, ",")
					} else {
						out = distinctKeys(doc, n, k)
					}
				}
			case '"':
				if n.to-n.from > 2 {
					out = rep(n.from+1, n.to-1, "")
				}
			case '0':
				out = rep(n.to-1, n.to, "")
			default:
				out = rep(n.from, n.from, "        ")
			}
		case 2: // white space
			out = rep(n.from, n.from, " \n")
		default: // nesting: n within an ancestor, over and over
			if up[i] == nil {
				continue
			}
			anc := up[i]
			for r.P(50) {
				for j, x := range all {
					if x == anc && up[j] != nil {
						anc = up[j]
						break
					}
				}
			}
			var b bytes.Buffer
			b.Write(doc[:anc.from])
			for j := 0; j < k; j++ {
				b.Write(doc[anc.from:n.from])
			}
			b.Write(doc[n.from:n.to])
			for j := 0; j < k; j++ {
				b.Write(doc[n.to:anc.to])
			}
			b.Write(doc[anc.to:])
			out = b.Bytes()
		}
	}
	if out == nil {
		out = rep(root.from, root.from, " ")
	}
	if damaged {
		switch r.N(3) {
		case 0:
			out = out[:len(out)-1-r.N(3)%len(out)]
		case 1:
			out = append(out, pick(r, "x", "}", " 1", "\"", "{")...)
		default:
			out = append(out, out...)
		}
	}
	return out
}

// distinctKeys repeats the members of an object under different keys.
func distinctKeys(doc []byte, n *node, k int) []byte {
	var b bytes.Buffer
	b.Write(doc[:n.kids[len(n.kids)-1].to])
	for i := 1; i < k; i++ {
		for j := range n.kids {
			b.WriteByte(',')
			key := n.keys[j]
			b.Write(doc[key.from : key.to-1])
			// As wide for every k.
			b.Write([]byte{byte('0' + i/64), byte('0' + i%64)})
			if b.Bytes()[b.Len()-1] == '\\' {
				b.Bytes()[b.Len()-1] = 'z'
			}
			b.WriteByte('"')
			b.Write(doc[key.to:n.kids[j].to])
		}
	}
	b.Write(doc[n.kids[len(n.kids)-1].to:])
	return b.Bytes()
}

func execC12(p *Plan) (v *Violation) {
	tp := &p.Tasks[0]
	lastHash = single(func(*world) {
		a := newActor(tp, mkToks(1))
		faulty := false
		for i := range tp.Ops {
			op := &tp.Ops[i]
			s := a.slot(op)
			name := tp.Decs[op.Dec].Type
			if op.Op == "inflate" {
				if s == nil || len(op.Doc) == 0 || !json.Valid(op.Doc) {
					continue
				}
				if d := checkGrowth(a, op); d != nil {
					v = d(p, i, name)
					return
				}
				continue
			}
			var s2 *Slot
			if s != nil {
				s2 = cloneSlot(s)
			}
			got := a.run(op, a.dec(op.Dec), s, a.in(op), false)
			if got.pan == (stepLimit{}) {
				v = viol(p, i, "call %d (%s) with an input of %d bytes did not end within %d steps", i, name, len(op.Doc), stepBudget(typeByName[tp.Decs[op.Dec].Type], op.Doc))
				return
			}
			if faulty && len(op.Acts) == 0 {
				// Service goes on after faults, and at the same cost.
				want := a.run(op, mkDec(tp.Decs[op.Dec], newTok()), s2, input(op.Doc), false)
				if want.Err == "" && want.Panic == "" && (got.Err != "" || got.Panic != "") {
					v = viol(p, i, "call %d (%s) after failed calls is not served: error %q %s", i, name, got.Err, got.Panic)
					return
				}
				if got.Steps > 3*want.Steps+1000 {
					v = viol(p, i, "call %d (%s) after failed calls takes %d steps, without them %d", i, name, got.Steps, want.Steps)
					return
				}
			}
			faulty = faulty || got.Err != "" || got.Panic != "" || got.Goexit
			if (got.Err != "" || got.Panic != "" || got.Goexit) && op.Seed == 0 {
				// The same failure many times over must not make calls slower.
				first, firstWork := 0, 0
				for k := 0; k < 24; k++ {
					var sk *Slot
					if s2 != nil {
						sk = cloneSlot(s2)
					}
					r := a.run(op, a.dec(op.Dec), sk, a.in(op), false)
					if k == 0 {
						first, firstWork = r.Steps, r.Work
					} else if r.Work > 2*firstWork+1000 {
						v = viol(p, i, "in call %d (%s), which fails, library functions read and copy %d bytes when it is repeated %d times, %d at first", i, name, r.Work, k, firstWork)
						return
					} else if r.Steps > 2*first+400 {
						v = viol(p, i, "call %d (%s), which fails, takes %d steps when it is repeated %d times, %d at first", i, name, r.Steps, k, first)
						return
					}
				}
			}
		}
	})
	return v
}

func checkGrowth(a *actor, op *OpPlan) func(p *Plan, i int, name string) *Violation {
	var steps, work [3]int
	var bytes_ [3]uint64
	var lens [3]int
	for j, k := range inflate {
		doc := inflateDoc(op.Seed, op.Doc, k, op.Note == "damaged")
		lens[j] = len(doc)
		s := cloneSlot(a.slot(op))
		in := input(doc)
		// A decoder of its own: buffers kept from earlier calls hide growth.
		d := mkDec(a.tp.Decs[op.Dec], newTok())
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		before := m.TotalAlloc
		r := call(d, in, s.Ptr, a.opt(op), &opCtx{quiet: true}, stepBudget(typeByName[a.tp.Decs[op.Dec].Type], doc))
		runtime.ReadMemStats(&m)
		bytes_[j] = m.TotalAlloc - before
		steps[j], work[j] = r.Steps, r.Work
		if r.pan == (stepLimit{}) {
			return func(p *Plan, i int, name string) *Violation {
				return viol(p, i, "call %d (%s) with an input of %d bytes (a part repeated %d times) did not end within %d steps", i, name, len(doc), k, stepBudget(typeByName[a.tp.Decs[op.Dec].Type], doc))
			}
		}
	}
	// A rejection may come earlier in a longer document: never judge against less
	// than a few steps per byte.
	d1, d2 := max(steps[1]-steps[0], 8*(lens[1]-lens[0]), 100), steps[2]-steps[1]
	if d2 > maxRatio*d1 {
		return func(p *Plan, i int, name string) *Violation {
			return viol(p, i, "call %d (%s): steps grow faster than the input: %v for inputs of %v bytes", i, name, steps, lens)
		}
	}
	w1, w2 := max(work[1]-work[0], 16*(lens[1]-lens[0]), 200), work[2]-work[1]
	if w2 > maxRatio*w1 {
		return func(p *Plan, i int, name string) *Violation {
			return viol(p, i, "call %d (%s): the bytes read and copied by library functions grow faster than the input: %v for inputs of %v bytes", i, name, work, lens)
		}
	}
	e1, e2 := max(int(bytes_[1])-int(bytes_[0]), 8192), int(bytes_[2])-int(bytes_[1])
	if e2 > maxRatio*e1 && e2 > 300*(lens[2]-lens[1]) {
		return func(p *Plan, i int, name string) *Violation {
			return viol(p, i, "call %d (%s): allocated memory grows faster than the input: %v bytes for inputs of %v bytes", i, name, bytes_, lens)
		}
	}
	if dbgC12 != nil {
		dbgC12(float64(d2)/float64(d1), float64(e2)/float64(e1))
	}
	return nil
}

var dbgC12 func(a, b float64)
