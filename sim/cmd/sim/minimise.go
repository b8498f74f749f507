package main

import (
	"bytes"
	"encoding/json"
	"sync"
	"time"
)

// minimiser shrinks a violating list of plans. Every candidate is executed in a
// new process and kept if it violates the property, too.
type minimiser struct {
	prop     string
	deadline time.Time
}

// first returns the first candidate that violates.
func (m *minimiser) first(cands [][]*Plan) ([]*Plan, *Violation) {
	const par = 8
	for i := 0; i < len(cands); i += par {
		if time.Now().After(m.deadline) {
			return nil, nil
		}
		n := min(par, len(cands)-i)
		vs := make([]*Violation, n)
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				vs[k] = try(m.prop, cands[i+k])
			}(k)
		}
		wg.Wait()
		for k := range vs {
			if vs[k] != nil {
				return cands[i+k], vs[k]
			}
		}
	}
	return nil, nil
}

func (m *minimiser) run(plans []*Plan, v *Violation) ([]*Plan, *Violation) {
	step := func(gen func([]*Plan) [][]*Plan) bool {
		c, w := m.first(gen(plans))
		if c == nil {
			return false
		}
		plans, v = c, w
		return true
	}
	// Switches decided as the run went become a schedule like any other.
	if q := plans[len(plans)-1]; q.Hot != nil && len(v.Trace) > 0 {
		q = q.clone()
		q.Hot, q.Switches = nil, v.Trace
		step(func(l []*Plan) [][]*Plan {
			return [][]*Plan{append(append([]*Plan(nil), l[:len(l)-1]...), q)}
		})
	}
	// Preceding runs.
	for n := len(plans) / 2; n >= 1 && len(plans) > 1; {
		if !step(func(l []*Plan) (out [][]*Plan) {
			for i := 0; i < len(l)-1; i += n {
				j := min(i+n, len(l)-1)
				out = append(out, append(append([]*Plan(nil), l[:i]...), l[j:]...))
			}
			return out
		}) {
			n /= 2
		}
	}
	for progress := true; progress && time.Now().Before(m.deadline); {
		progress = false
		for _, gen := range reducers {
			for time.Now().Before(m.deadline) && step(func(l []*Plan) (out [][]*Plan) {
				for k := len(l) - 1; k >= 0; k-- {
					for _, q := range gen(l[k]) {
						c := append([]*Plan(nil), l...)
						c[k] = q
						out = append(out, c)
					}
				}
				return out
			}) {
				progress = true
			}
		}
	}
	return plans, v
}

var reducers = []func(p *Plan) []*Plan{dropTasks, dropOps, dropSwitches, dropEvents, plainer, shrinkDocs}

func dropTasks(p *Plan) (out []*Plan) {
	if len(p.Tasks) < 2 {
		return nil
	}
	for i := range p.Tasks {
		q := p.clone()
		q.Tasks = append(q.Tasks[:i:i], q.Tasks[i+1:]...)
		for k := range q.Switches {
			if q.Switches[k].To > i {
				q.Switches[k].To--
			}
		}
		out = append(out, q)
	}
	return out
}

func dropOps(p *Plan) (out []*Plan) {
	if len(p.Before) > 0 {
		q := p.clone()
		q.Before = nil
		out = append(out, q)
		for i := range p.Before {
			q := p.clone()
			q.Before = append(q.Before[:i:i], q.Before[i+1:]...)
			out = append(out, q)
		}
	}
	for t := range p.Tasks {
		for n := len(p.Tasks[t].Ops) / 2; n >= 1; n /= 2 {
			for i := 0; i+n <= len(p.Tasks[t].Ops); i += n {
				q := p.clone()
				ops := q.Tasks[t].Ops
				q.Tasks[t].Ops = append(ops[:i:i], ops[i+n:]...)
				out = append(out, q)
			}
		}
	}
	return out
}

func dropSwitches(p *Plan) (out []*Plan) {
	for n := len(p.Switches); n >= 1; n /= 2 {
		for i := 0; i < len(p.Switches); i += n {
			q := p.clone()
			j := min(i+n, len(q.Switches))
			add := 0
			for _, s := range q.Switches[i:j] {
				add += s.After
			}
			r := p.clone()
			r.Switches = append(r.Switches[:i:i], r.Switches[j:]...)
			out = append(out, r)
			if j < len(q.Switches) {
				q.Switches[j].After += add
				q.Switches = append(q.Switches[:i:i], q.Switches[j:]...)
				out = append(out, q)
			}
		}
	}
	return out
}

func dropEvents(p *Plan) (out []*Plan) {
	for t := range p.Tasks {
		for o := range p.Tasks[t].Ops {
			op := &p.Tasks[t].Ops[o]
			for i := range op.Acts {
				q := p.clone()
				x := &q.Tasks[t].Ops[o]
				x.Acts = append(x.Acts[:i:i], x.Acts[i+1:]...)
				out = append(out, q)
				if op.Acts[i].How != 0 {
					q := p.clone()
					q.Tasks[t].Ops[o].Acts[i].How = 0
					out = append(out, q)
				}
				if a := op.Acts[i]; a.Nest != nil {
					if len(a.Nest.Acts) > 0 {
						q := p.clone()
						q.Tasks[t].Ops[o].Acts[i].Nest.Acts = nil
						out = append(out, q)
					}
					if a.Nest.Deep != 0 {
						for _, n := range []int{0, a.Nest.Deep / 2, a.Nest.Deep - 1} {
							q := p.clone()
							q.Tasks[t].Ops[o].Acts[i].Nest.Deep = n
							out = append(out, q)
						}
					}
					if a.Nest.Seed != 0 {
						q := p.clone()
						q.Tasks[t].Ops[o].Acts[i].Nest.Seed = 0
						out = append(out, q)
					}
				}
			}
			for i := range op.Faults {
				q := p.clone()
				x := &q.Tasks[t].Ops[o]
				x.Faults = append(x.Faults[:i:i], x.Faults[i+1:]...)
				out = append(out, q)
			}
		}
	}
	return out
}

// plainer replaces settings by the usual ones.
func plainer(p *Plan) (out []*Plan) {
	for t := range p.Tasks {
		used := map[int]bool{}
		for o := range p.Tasks[t].Ops {
			used[p.Tasks[t].Ops[o].Slot] = true
			if n := p.Tasks[t].Ops[o].Rep; n > 0 {
				for _, m := range []int{0, n / 2, n - n/8, n - 1} {
					q := p.clone()
					q.Tasks[t].Ops[o].Rep = m
					out = append(out, q)
				}
			}
			if p.Tasks[t].Ops[o].Mix {
				q := p.clone()
				q.Tasks[t].Ops[o].Mix = false
				out = append(out, q)
			}
			if p.Tasks[t].Ops[o].Opt != 0 {
				q := p.clone()
				q.Tasks[t].Ops[o].Opt = 0
				out = append(out, q)
			}
		}
		for i, d := range p.Tasks[t].Decs {
			if d.Strict {
				q := p.clone()
				q.Tasks[t].Decs[i].Strict = false
				out = append(out, q)
			}
		}
		if p.Tasks[t].OneOpt {
			q := p.clone()
			q.Tasks[t].OneOpt = false
			out = append(out, q)
		}
		for s := range p.Tasks[t].Slots {
			sl := p.Tasks[t].Slots[s]
			if sl.Seed != 0 {
				q := p.clone()
				q.Tasks[t].Slots[s].Seed = 0
				out = append(out, q)
			}
			if sl.Cyc {
				q := p.clone()
				q.Tasks[t].Slots[s].Cyc = false
				out = append(out, q)
			}
			if sl.Alias != 0 {
				q := p.clone()
				q.Tasks[t].Slots[s].Alias = 0
				out = append(out, q)
			}
			if sl.Big {
				q := p.clone()
				q.Tasks[t].Slots[s].Big = false
				out = append(out, q)
			}
			if sl.Tail {
				q := p.clone()
				q.Tasks[t].Slots[s].Tail = false
				out = append(out, q)
			}
		}
		if n := len(p.Tasks[t].Slots); n > 1 && !used[n-1] {
			q := p.clone()
			q.Tasks[t].Slots = q.Tasks[t].Slots[:n-1]
			out = append(out, q)
		}
		for d := range p.Tasks[t].Decs {
			if p.Tasks[t].Decs[d].Kind != kBytes && p.Prop != "C13" {
				q := p.clone()
				q.Tasks[t].Decs[d].Kind = kBytes
				out = append(out, q)
			}
		}
	}
	return out
}

func shrinkDocs(p *Plan) (out []*Plan) {
	for t := range p.Tasks {
		for o := range p.Tasks[t].Ops {
			for _, d := range smaller(p.Tasks[t].Ops[o].Doc) {
				q := p.clone()
				q.Tasks[t].Ops[o].Doc = d
				out = append(out, q)
			}
			for i, a := range p.Tasks[t].Ops[o].Acts {
				if a.Nest == nil {
					continue
				}
				for _, d := range smaller(a.Nest.Doc) {
					q := p.clone()
					q.Tasks[t].Ops[o].Acts[i].Nest.Doc = d
					out = append(out, q)
				}
			}
		}
	}
	return out
}

// smaller lists simplifications of a document. What is well-formed stays so.
func smaller(doc []byte) (out [][]byte) {
	room := 32 << 20 // of very long documents only the big parts
	cut := func(from, to int, with string) {
		if room -= len(doc); room < 0 {
			return
		}
		out = append(out, append(append(append([]byte(nil), doc[:from]...), with...), doc[to:]...))
	}
	if !json.Valid(doc) {
		for n := len(doc) / 2; n >= 1; n /= 2 {
			for i := 0; i+n <= len(doc); i += n {
				cut(i, i+n, "")
			}
			if n > 64 {
				continue
			}
		}
		return out
	}
	var c bytes.Buffer
	if json.Compact(&c, doc) == nil && c.Len() < len(doc) {
		out = append(out, append([]byte(nil), c.Bytes()...))
	}
	var walk func(n *node)
	walk = func(n *node) {
		switch n.kind {
		case '[', '{':
			start := func(i int) int {
				if n.kind == '{' {
					return n.keys[i].from
				}
				return n.kids[i].from
			}
			for sz := len(n.kids); sz >= 1; sz /= 2 {
				for i := 0; i+sz <= len(n.kids); i += sz {
					from, to := start(i), n.kids[i+sz-1].to
					if i+sz < len(n.kids) {
						to = start(i + sz)
					} else if i > 0 {
						from = n.kids[i-1].to
					}
					cut(from, to, "")
				}
			}
			for _, k := range n.kids {
				walk(k)
			}
		case '"':
			if n.to-n.from > 2 {
				cut(n.from, n.to, `""`)
			}
			if n.to-n.from > 3 {
				cut(n.from, n.to, `"a"`)
			}
		case '0':
			if n.to-n.from > 1 {
				cut(n.from, n.to, "1")
			}
		}
	}
	walk(parse(doc))
	return out
}
