package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strconv"
	"strings"

	jscandec "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan-experimental-decoder/verifhook"
	verifsync "github.com/romshark/jscan-experimental-decoder/verifsync"
	"github.com/romshark/jscan/v2"
)

// The world is the simulator: it decides which task runs, when the collector
// runs, when stacks move, and what user unmarshalers do. There is one at a
// time, and exactly one goroutine of it runs at any moment.

const maxStmt = 1 << 16

type world struct {
	tasks    []*task
	cur      *task
	switches []Switch
	sw       int // next switch
	since    int // statements since the last entry of switches was due
	run      int // statements since the last switch
	switched int
	hash     uint64
	blocked  int
	hot      *Hot
	hotRng   *Rng
	trace    []Switch
}

type task struct {
	id    int
	wake  chan struct{}
	done  bool
	ctx   *opCtx
	steps int // statements of the current call
	limit int
	flt   []Fault
	nf    int
	hot   bool // the last statement may have touched shared state
	rests int  // until there have been as many switches
}

// opCtx is the context of one call in progress (calls nest).
type opCtx struct {
	up    *opCtx
	acts  []Act
	n     int // deliveries so far
	log   []Delivery
	inj   []error           // errors returned by injected failures
	pan   []any             // values panicked with
	nest  func(a *NestPlan) // runs a nested call
	ran   []Res
	quiet bool // deliveries are not recorded
	stack bool // the destination is a local variable
	save  struct{ steps, limit int }
}

var (
	theWorld *world
	curCtx   *opCtx // outside of a world (oracles)

	statSteps   uint64
	statSwitch  uint64
	statHot     uint64
	statWarm    uint64 // calls nobody looked at
	statBefore  uint64 // calls made in the process before a run
	statReset   uint64 // package-level variables that had to be reset
	statFault   [nFaultKinds]uint64
	stmtSeen    [maxStmt]bool
	faultNames  = [nFaultKinds]string{"gc", "stack_growth", "heap_churn", "callback_error", "callback_panic", "callback_goexit", "nested_call", "preemption"}
	totalBlocks uint64

	statCalls    int
	statOutcome  [4]int
	outcomeNames = [4]string{"accepted", "rejected", "panicked", "goroutine ended"}
)

const (
	fGC = iota
	fGrow
	fChurn
	fErr
	fPanic
	fGoexit
	fNest
	fPreempt
	nFaultKinds
)

type stepLimit struct{}

func (stepLimit) Error() string { return "simulator: step limit exceeded" }

//go:norace
func hook(id uint32) {
	w := theWorld
	if w == nil {
		return
	}
	t := w.cur
	t.steps++
	w.since++
	w.run++
	statSteps++
	if id < maxStmt {
		stmtSeen[id] = true
	}
	w.hash = (w.hash ^ uint64(id)) * 1099511628211
	if t.limit > 0 && t.steps > t.limit {
		t.limit = t.limit * 2 // deferred functions of the code may run statements too
		panic(stepLimit{})
	}
	for t.nf < len(t.flt) && t.flt[t.nf].Step <= t.steps {
		f := t.flt[t.nf].Do
		t.nf++
		w.fault(f)
	}
	if w.sw < len(w.switches) && w.since >= w.switches[w.sw].After {
		w.preempt()
	} else if w.hot != nil && t.hot {
		// Before such a statement and after it.
		t.hot = false
		if w.hotRng.P(w.hot.Percent) {
			if w.hot.Stall > 0 && w.hotRng.P(10) {
				t.rests = w.switched + 1 + w.hotRng.N(w.hot.Stall)
			}
			w.switchTo(w.hotRng.N(len(w.tasks)))
		}
	}
}

// hotHook is called before statements that may touch shared state.
//
//go:norace
func hotHook(id uint32) {
	w := theWorld
	if w == nil {
		return
	}
	statHot++
	w.cur.hot = true
	hook(id)
	w.cur.hot = true
}

//go:norace
func (w *world) preempt() {
	to := w.switches[w.sw].To
	w.sw++
	w.switchTo(to)
}

//go:norace
func (w *world) switchTo(to int) {
	w.since = 0
	if len(w.tasks) < 2 {
		return
	}
	// The chosen task, or the next one that is not finished, preferably one that does
	// not rest.
	for i := 0; i < 2*len(w.tasks); i++ {
		n := w.tasks[(to+i)%len(w.tasks)]
		if !n.done && n != w.cur && (n.rests <= w.switched || i >= len(w.tasks)) {
			w.hash = (w.hash ^ uint64(n.id+1000)) * 1099511628211
			statFault[fPreempt]++
			w.switched++
			if w.hot != nil {
				w.trace = append(w.trace, Switch{After: w.run, To: n.id})
			}
			w.run = 0
			w.handTo(n)
			return
		}
	}
}

//go:norace
func (w *world) handTo(n *task) {
	me := w.cur
	w.cur = n
	raceOff()
	n.wake <- struct{}{}
	<-me.wake
	raceOn()
}

// finish ends the current task and gives control to another one.
//
//go:norace
func (w *world) finish() {
	me := w.cur
	me.done = true
	for i := 1; i <= len(w.tasks); i++ {
		n := w.tasks[(me.id+i)%len(w.tasks)]
		if !n.done {
			w.cur = n
			w.since, w.run = 0, 0
			raceOff()
			n.wake <- struct{}{}
			raceOn()
			return
		}
	}
}

// block is called when the running task waits for a lock held by another one.
//
//go:norace
func block() bool {
	w := theWorld
	if w == nil || len(w.tasks) < 2 {
		totalBlocks++
		if totalBlocks > 1000000 {
			panic("simulator: deadlock: a lock is never released")
		}
		return false
	}
	w.blocked++
	if w.blocked > 1000000 {
		panic("simulator: deadlock: a lock is never released")
	}
	for i := 1; i < len(w.tasks); i++ {
		n := w.tasks[(w.cur.id+i)%len(w.tasks)]
		if !n.done {
			w.handTo(n)
			return true
		}
	}
	return false
}

//go:norace
func (w *world) fault(k string) {
	switch k {
	case "gc":
		statFault[fGC]++
		raceOff()
		runtime.GC()
		verifsync.Forget()
		raceOn()
	case "grow":
		statFault[fGrow]++
		growStack(200)
	case "churn":
		statFault[fChurn]++
		raceOff()
		runtime.GC()
		verifsync.Forget()
		raceOn()
		churn()
	}
}

//go:noinline
func growStack(n int) int {
	var pad [1024]byte
	pad[n&1023] = byte(n)
	if n == 0 {
		return int(pad[0])
	}
	return growStack(n-1) + int(pad[n&1023])
}

var churnKeep [64]any

// churn reuses freed memory of all small size classes with a pattern.
//
//go:norace
func churn() {
	for sz := 8; sz <= 2048; sz += sz/4 + 8 {
		for i := 0; i < 12; i++ {
			b := make([]byte, sz)
			for j := range b {
				b[j] = 0xEE
			}
			p := make([]*int, sz/8)
			churnKeep[(sz+i)&63] = b
			churnKeep[(sz+i+7)&63] = p
		}
	}
}

func init() {
	verifhook.F = hook
	verifhook.G = hotHook
	verifsync.Block = block
}

// deliver is called by every user unmarshaler.
//
//go:norace
func deliver(typ string, b []byte) error {
	w := theWorld
	c := curCtx
	if w != nil {
		c = w.cur.ctx
	}
	if c == nil {
		return nil
	}
	k := c.n
	c.n++
	if !c.quiet {
		c.log = append(c.log, Delivery{Typ: typ, Data: string(b)})
	}
	for i := range c.acts {
		a := &c.acts[i]
		if a.At != k {
			continue
		}
		switch a.Do {
		case "err":
			statFault[fErr]++
			e := failure(a.How, k)
			c.inj = append(c.inj, e)
			return e
		case "panic":
			statFault[fPanic]++
			c.panics(a.How, k)
		case "goexit":
			if w != nil {
				statFault[fGoexit]++
				runtime.Goexit()
			}
		case "gc", "grow", "churn":
			if w != nil {
				w.fault(a.Do)
			}
		case "nest":
			if c.nest != nil {
				statFault[fNest]++
				c.nest(a.Nest)
			}
		}
	}
	if w != nil {
		// Others may run while the unmarshaler does.
		w.cur.hot = w.hot != nil && w.hot.Stall > 0
		hook(0)
	}
	return nil
}

type injErr struct{ n int }

func (e *injErr) Error() string {
	if e == nil {
		return "injected failure"
	}
	return fmt.Sprintf("injected failure of delivery %d", e.n)
}

type injPanic struct{ n int }

// listErr is an error that cannot be compared.
type listErr []string

func (e listErr) Error() string { return strings.Join(e, ", ") }

// emptyErr is an error of no size.
type emptyErr struct{}

func (emptyErr) Error() string { return "injected failure" }

// how draws an error, or what a panic is given. Most are the simulator's own.
func how(r *Rng) int {
	if r.P(60) {
		return 0
	}
	return r.N(numFailures)
}

const numFailures = 20

// failure is an error for a user unmarshaler to return. That could be anything; many
// user unmarshalers return what another decoder returned to them.
func failure(how, k int) error {
	switch how {
	case 1:
		return jscandec.ErrStringTagOptionOnUnsupportedType
	case 2:
		return jscandec.ErrUnexpectedValue
	case 3:
		return jscandec.ErrUnknownField
	case 4:
		return jscandec.ErrIntegerOverflow
	case 5:
		return jscandec.ErrNilDest
	case 6:
		return io.EOF
	case 7:
		return strconv.ErrSyntax
	case 8:
		return &strconv.NumError{Func: "ParseInt", Num: "x", Err: strconv.ErrRange}
	case 9:
		return &json.UnmarshalTypeError{Value: "string", Type: reflect.TypeOf(k), Offset: int64(k)}
	case 10:
		return &json.SyntaxError{Offset: int64(k)}
	case 11:
		return listErr{"injected", "failure"}
	case 12:
		return (*injErr)(nil)
	case 13:
		return fmt.Errorf("wrapped: %w", jscandec.ErrUnexpectedValue)
	case 14:
		return errors.Join(io.ErrUnexpectedEOF, jscandec.ErrUnknownField)
	case 15:
		return emptyErr{}
	case 16:
		return base64.CorruptInputError(k)
	case 17:
		return jscan.Error[string]{Code: jscan.ErrorCodeUnexpectedToken, Src: "[1,]", Index: 3}
	case 18:
		return jscan.Error[[]byte]{Code: jscan.ErrorCodeUnexpectedEOF, Src: []byte("["), Index: 1}
	case 19:
		return jscan.Error[string]{}
	}
	return &injErr{k}
}

// panics panics.
func (c *opCtx) panics(how, k int) {
	var p any
	switch how {
	case 1, 2, 3:
		// What the runtime panics with is known when it does.
		defer func() {
			p := recover()
			c.pan = append(c.pan, p)
			panic(p)
		}()
		var m map[int]int
		var l []int
		var e any = "x"
		switch how {
		case 1:
			m[k] = 1
		case 2:
			l[k] = 1
		case 3:
			_ = e.(int)
		}
	case 4, 5, 6, 7, 8:
		p = failure(how, k)
	case 9:
		p = "injected panic"
	case 10:
		p = k
	case 11:
		p = []int{k}
	case 12:
		p = (*injPanic)(nil)
	default:
		p = &injPanic{k}
	}
	c.pan = append(c.pan, p)
	panic(p)
}

// identical is whether two values are the same one.
func identical(a, b any) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if a == nil || reflect.TypeOf(a).Comparable() && reflect.ValueOf(a).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

// Res is the outcome of one call.
type Res struct {
	Idx    int
	Err    string
	Panic  string
	Goexit bool
	Log    []Delivery
	Dump   string
	Steps  int
	Work   int // bytes given to library functions (builds of mode work)

	err      error
	pan      any
	injected bool // err is one of the injected errors, unchanged
	injPan   bool
}

func (r *Res) same(o *Res, idx bool) string {
	if r.Panic != o.Panic {
		return fmt.Sprintf("panic %q, want %q", r.Panic, o.Panic)
	}
	if r.Goexit != o.Goexit {
		return fmt.Sprintf("goroutine exit %v, want %v", r.Goexit, o.Goexit)
	}
	if r.Err != o.Err {
		return fmt.Sprintf("error %q, want %q", r.Err, o.Err)
	}
	if idx && r.Idx != o.Idx {
		return fmt.Sprintf("error position %d, want %d", r.Idx, o.Idx)
	}
	if d := sameLog(r.Log, o.Log); d != "" {
		return d
	}
	if r.Dump != o.Dump {
		return "destination differs: " + firstDiff(r.Dump, o.Dump)
	}
	return ""
}

func sameLog(a, b []Delivery) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].Typ != b[i].Typ || a[i].Data != b[i].Data {
			return fmt.Sprintf("delivery %d is %s %q, want %s %q", i, a[i].Typ, a[i].Data, b[i].Typ, b[i].Data)
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%d deliveries to user unmarshalers, want %d", len(a), len(b))
	}
	return ""
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	// The input type is part of the tokenizer's error type.
	t := fmt.Sprintf("%T", err)
	t = strings.NewReplacer("[[]uint8]", "", "[string]", "").Replace(t)
	return t + ": " + err.Error()
}

func panicText(p any) string {
	switch p := p.(type) {
	case stepLimit:
		return "simulator: step limit exceeded"
	case *injPanic:
		if p == nil {
			return "injected panic"
		}
		return fmt.Sprintf("injected panic of delivery %d", p.n)
	case error:
		return "panic: " + p.Error()
	default:
		return fmt.Sprintf("panic: %v", p)
	}
}

// call runs one call in the simulated world and records its outcome. The world
// must exist; the calling goroutine must be the running one.
func call(d Dec, in Input, dest any, opt *jscandec.DecodeOptions, ctx *opCtx, limit int) (res Res) {
	w := theWorld
	t := w.cur
	ctx.up = t.ctx
	ctx.save.steps, ctx.save.limit = t.steps, t.limit
	t.ctx = ctx
	t.steps, t.limit = 0, limit
	work := verifhook.Work
	verifhook.Elapse()
	mayExit := false
	for _, a := range ctx.acts {
		mayExit = mayExit || a.Do == "goexit"
	}
	run := func() {
		finished := false
		defer func() {
			if p := recover(); p != nil {
				res.pan = p
				res.Panic = panicText(p)
				for _, x := range ctx.pan {
					res.injPan = res.injPan || identical(x, p)
				}
			} else if !finished {
				res.Goexit = true
			}
		}()
		x := in
		in = Input{} // the call is what keeps its input alive, unless the caller does
		if ctx.stack {
			res.Idx, res.err = d.OnStack(x, dest, opt)
		} else {
			res.Idx, res.err = d.Decode(x, dest, opt)
		}
		finished = true
	}
	if mayExit {
		done := make(chan struct{})
		go func() {
			defer close(done)
			run()
		}()
		<-done
	} else {
		run()
	}
	t = w.cur
	res.Steps, res.Work = t.steps, int(verifhook.Work-work)
	t.ctx = ctx.up
	t.steps, t.limit = ctx.save.steps+res.Steps, ctx.save.limit
	if t.limit > 0 {
		t.limit += res.Steps // what a nested call does is not charged to the outer one
	}
	res.Err = errText(res.err)
	for _, e := range ctx.inj {
		res.injected = res.injected || identical(res.err, e)
	}
	res.Log = ctx.log
	count(&res)
	return res
}

//go:norace
func count(res *Res) {
	statCalls++
	switch {
	case res.Goexit:
		statOutcome[3]++
	case res.Panic != "":
		statOutcome[2]++
	case res.Err != "":
		statOutcome[1]++
	default:
		statOutcome[0]++
	}
}

// single runs f in a world with one task.
func single(f func(w *world)) uint64 {
	w := &world{hash: 14695981039346656037}
	t := &task{wake: make(chan struct{}, 1)}
	w.tasks = []*task{t}
	w.cur = t
	theWorld = w
	f(w)
	theWorld = nil
	return w.hash
}

// multi runs tasks interleaved as the switches say.
func multi(p *Plan, fs []func()) (hash uint64, trace []Switch) {
	w := &world{hash: 14695981039346656037, switches: p.Switches}
	if p.Hot != nil {
		w.hot, w.hotRng = p.Hot, newRng(p.Hot.Seed)
	}
	done := make(chan struct{}, len(fs))
	for i := range fs {
		w.tasks = append(w.tasks, &task{id: i, wake: make(chan struct{}, 1)})
	}
	w.cur = w.tasks[0]
	theWorld = w
	for i := range fs {
		i := i
		go func() {
			raceOff()
			<-w.tasks[i].wake
			raceOn()
			fs[i]()
			w.finish()
			done <- struct{}{}
		}()
	}
	raceOff()
	w.tasks[0].wake <- struct{}{}
	raceOn()
	for range fs {
		<-done
	}
	theWorld = nil
	statSwitch += uint64(w.switched)
	return w.hash, w.trace
}

// withCtx runs an oracle (encoding/json) with its own delivery context.
func withCtx(c *opCtx, f func()) (pan any) {
	old, ow := curCtx, theWorld
	curCtx, theWorld = c, nil
	defer func() {
		curCtx, theWorld = old, ow
		pan = recover()
	}()
	f()
	return nil
}

var errOracle = errors.New("oracle")

// Option masks.
const (
	oUnknown = 1 << iota
	oNoUnescape
	oExactCase
)

var optTable = func() (l [8]*jscandec.DecodeOptions) {
	for i := range l {
		l[i] = &jscandec.DecodeOptions{
			DisallowUnknownFields:          i&oUnknown != 0,
			DisableFieldNameUnescaping:     i&oNoUnescape != 0,
			DisableCaseInsensitiveMatching: i&oExactCase != 0,
		}
	}
	l[0] = jscandec.DefaultOptions
	return l
}()

// stepBudget bounds every simulated call, generously.
func stepBudget(t *TypeCase, doc []byte) int { return 200000 + 40*t.Size*t.Size + 3000*len(doc) }
