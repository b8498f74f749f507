package main

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"time"
	"unsafe"

	jscandec "github.com/romshark/jscan-experimental-decoder"
	verifsync "github.com/romshark/jscan-experimental-decoder/verifsync"
)

// ---- C10: a finished call keeps nothing alive -------------------------------------

//go:linkname findObject runtime.findObject
func findObject(p, refBase, refOff uintptr) (base uintptr, s unsafe.Pointer, objIndex uintptr)

func genC10(r *Rng) *Plan {
	var tcs []*TypeCase
	for i := r.Range(1, 2); i > 0; i-- {
		tcs = append(tcs, pickType(r, func(t *TypeCase) bool { return t.F.Ptrs || r.P(10) }))
	}
	h := &HistCfg{
		Ops: [2]int{1, 5}, Slots: 1, Damaged: pick(r, 0, 15), Bad: pick(r, 0, 20, 40), Nil: 2,
		Fail: pick(r, 0, 40, 70), Exit: true, Opt: pick(r, 0, 50), Fresh: 100, Fill: 70, Tail: true,
		Kinds: []int{kBytes, kBytes, kString, kString, kOneBytes, kOneString},
		Doc:   func(r *Rng) *DocCfg { c := swarmDoc(r); c.Present = max(c.Present, 80); return c },
	}
	return &Plan{Tasks: []TaskPlan{genTask(r, tcs, 1, h)}, Toks: 1}
}

type finBlock [16]byte

// watch is a set of memory blocks that must be reclaimed.
type watch struct {
	left map[string]int
	base map[uintptr]bool
}

// add watches the heap block p points into, if it is one that the collector
// manages on its own (not a part of a block shared with other small objects).
func (w *watch) add(p unsafe.Pointer, size uintptr, what string) bool {
	if p == nil || size < 16 {
		return false
	}
	base, span, _ := findObject(uintptr(p), 0, 0)
	if base == 0 || span == nil {
		return false
	}
	if w.base[base] {
		return true
	}
	w.base[base] = true
	w.left[what]++
	left := w.left
	runtime.SetFinalizer((*finBlock)(unsafe.Add(p, -int(uintptr(p)-base))), func(*finBlock) {
		if left[what]--; left[what] == 0 {
			delete(left, what)
		}
	})
	return true
}

// leaves watches the blocks of a value from which no other watched block can be
// reached: whatever keeps a part of the value alive keeps one of them alive.
func (w *watch) leaves(v reflect.Value, what string) bool {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return false
		}
		return w.leaves(v.Elem(), what) || w.add(v.UnsafePointer(), v.Type().Elem().Size(), what)
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return false
		}
		full := v.Slice(0, v.Cap())
		any := false
		if hasLeaf(v.Type().Elem()) {
			for i := 0; i < full.Len(); i++ {
				any = w.leaves(full.Index(i), what) || any
			}
		}
		return any || w.add(v.UnsafePointer(), uintptr(v.Cap())*v.Type().Elem().Size(), what)
	case reflect.Array:
		any := false
		if hasLeaf(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				any = w.leaves(v.Index(i), what) || any
			}
		}
		return any
	case reflect.Struct:
		any := false
		for i := 0; i < v.NumField(); i++ {
			if hasLeaf(v.Field(i).Type()) {
				any = w.leaves(v.Field(i), what) || any
			}
		}
		return any
	case reflect.Map:
		if v.IsNil() {
			return false
		}
		any := false
		it := v.MapRange()
		for it.Next() {
			if hasLeaf(v.Type().Key()) {
				any = w.leaves(it.Key(), what) || any
			}
			if hasLeaf(v.Type().Elem()) {
				any = w.leaves(it.Value(), what) || any
			}
		}
		return any || w.add(v.UnsafePointer(), 48, what)
	case reflect.Interface:
		if v.IsNil() {
			return false
		}
		return w.leaves(v.Elem(), what)
	case reflect.String:
		s := v.String()
		return w.add(unsafe.Pointer(unsafe.StringData(s)), uintptr(len(s)), what)
	}
	return false
}

func hasLeaf(t reflect.Type) bool { return t.Kind() == reflect.String || hasMem(t) || hasStr(t) }

func hasStr(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.String:
		return true
	case reflect.Array:
		return hasStr(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasStr(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

// collect runs collections until everything is reclaimed, or it is certain that
// something will not be.
func (w *watch) collect() {
	for i := 0; i < 5; i++ {
		done := make(chan struct{})
		func() {
			s := new(finBlock)
			runtime.SetFinalizer(s, func(*finBlock) { close(done) })
		}()
		verifsync.Forget()
		runtime.GC()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			panic(oracleBug{"the sentinel object was not collected"})
		}
		// Finalizers of one collection run in any order; those of the previous
		// one are done.
		if i > 0 && len(w.left) == 0 {
			return
		}
	}
}

func execC10(p *Plan) (v *Violation) {
	tp := &p.Tasks[0]
	lastHash = single(func(world *world) {
		tok := mkToks(1)
		a := &actor{tp: tp, toks: tok, decs: make([]Dec, len(tp.Decs)), kept: map[string]Dec{}}
		for i := range tp.Decs {
			a.dec(i)
		}
		for i := range tp.Ops {
			op := &tp.Ops[i]
			w := &watch{left: map[string]int{}, base: map[uintptr]bool{}}
			done := make(chan string)
			go func() {
				outcome := "harness failed"
				defer func() { done <- outcome }()
				outcome = w.oneCall(a, op)
			}()
			outcome := <-done
			if outcome == "harness failed" {
				panic(oracleBug{"C10 harness failed"})
			}
			w.collect()
			if len(w.left) > 0 {
				var l []string
				for _, k := range []string{"its destination", "a value its destination held before", "a decoded value", "its input", "its options"} {
					if n := w.left[k]; n > 0 {
						l = append(l, fmt.Sprintf("%s (%d objects)", k, n))
					}
				}
				v = viol(p, i, "call %d (%s, %s), which %s, keeps reachable: %s", i, tp.Decs[op.Dec].Type, kindName[tp.Decs[op.Dec].Kind], outcome, strings.Join(l, ", "))
				return
			}
		}
		runtime.KeepAlive(a)
		runtime.KeepAlive(tok)
	})
	return v
}

// oneCall runs a call on memory of its own; nothing of it is referenced by the
// simulator when it returns.
func (w *watch) oneCall(a *actor, op *OpPlan) string {
	doc := append([]byte(nil), op.Doc...)
	for len(doc) < 40 {
		doc = append(doc, ' ')
	}
	in := input(doc)
	opts := &struct {
		o   jscandec.DecodeOptions
		pad [8]*int
	}{o: *optTable[op.Opt&7]}
	w.add(unsafe.Pointer(&in.B[0]), uintptr(len(in.B)), "its input")
	w.add(unsafe.Pointer(unsafe.StringData(in.S)), uintptr(len(in.S)), "its input")
	w.add(unsafe.Pointer(opts), unsafe.Sizeof(*opts), "its options")
	dec := a.decs[op.Dec]
	var dest any = typeByName[a.tp.Decs[op.Dec].Type].Nil
	var s *Slot
	if op.Slot >= 0 {
		s, _ = mkSlot(a.tp.Slots[op.Slot])
		dest = s.Ptr
		w.leaves(s.Val, "a value its destination held before")
	}
	c := &opCtx{acts: op.Acts}
	r := call(dec, in, dest, &opts.o, c, stepBudget(typeByName[a.tp.Decs[op.Dec].Type], doc))
	if s != nil {
		if !w.leaves(s.Val, "a decoded value") {
			w.add(s.Root, s.Val.Type().Size()+16, "its destination")
		}
	}
	switch {
	case r.Panic != "":
		return "panicked"
	case r.Goexit:
		return "ended its goroutine"
	case r.Err != "":
		return "failed with " + r.Err
	}
	return "succeeded"
}
