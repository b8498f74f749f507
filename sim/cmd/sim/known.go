package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"time"

	jscandec "github.com/romshark/jscan-experimental-decoder"
)

// Known findings are probed one by one: each probe is a fixed call outside the
// domain the workloads draw from, because the code is known to break the
// property there.

type probeCase struct {
	id, prop string
	run      func() string // "" if the property holds
}

func cmpJSON[T any](doc string, prior func() T) func() string {
	return func() string {
		a, b := prior(), prior()
		e1 := jscandec.Unmarshal(doc, &a)
		e2 := json.Unmarshal([]byte(doc), &b)
		if (e1 == nil) != (e2 == nil) {
			return fmt.Sprintf("error %v, encoding/json: %v", e1, e2)
		}
		if e1 == nil {
			if x, y := dump(reflect.ValueOf(&a).Elem(), false), dump(reflect.ValueOf(&b).Elem(), false); x != y {
				return firstDiff(x, y)
			}
		}
		return ""
	}
}

func zero[T any]() (z T) { return z }

type probeEmb struct {
	Point
	Z int
}

type probeIface struct {
	A fmt.Stringer
	B int
}

type probeTagPtr struct {
	P *int `json:"p,string"`
}

type probeTagNum struct {
	N jscandec.Number `json:"n,string"`
}

type probeTagNumE struct {
	N json.Number `json:"n,string"`
}

type probeTagU struct {
	U UI `json:"u,string"`
}

type probeList []probeList

type probeTree map[string]probeTree

var probeCases = []probeCase{
	{"embedded-struct", "C11", cmpJSON(`{"X":1,"Y":2,"Z":3}`, zero[probeEmb])},
	{"recursive-slice-type", "C11", cmpJSON(`[[],[[]]]`, zero[probeList])},
	{"recursive-map-type", "C11", cmpJSON(`{"a":{}}`, zero[probeTree])},
	{"non-empty-interface", "C11", cmpJSON(`{"A":null,"B":1}`, zero[probeIface])},
	{"any-holding-pointer", "C11", func() string {
		x, y := new(Point), new(Point)
		var a, b any = x, y
		e1, e2 := jscandec.Unmarshal(`{"X":1}`, &a), json.Unmarshal([]byte(`{"X":1}`), &b)
		if e1 != nil || e2 != nil || *x != *y {
			return fmt.Sprintf("%v %v, encoding/json: %v %v", *x, e1, *y, e2)
		}
		return ""
	}},
	{"invalid-utf8", "C11", cmpJSON("\"a\xffb\"", zero[string])},
	{"string-tag-escapes", "C11", cmpJSON(`{"i":"\u0031"}`, zero[Tagged])},
	{"string-tag-float-syntax", "C11", cmpJSON(`{"f64":"1."}`, zero[Tagged])},
	{"string-tag-pointer", "C11", cmpJSON(`{"p":"1"}`, zero[probeTagPtr])},
	{"string-tag-number", "C11", func() string {
		var a probeTagNum
		var b probeTagNumE
		e1, e2 := jscandec.Unmarshal(`{"n":1}`, &a), json.Unmarshal([]byte(`{"n":1}`), &b)
		if (e1 == nil) != (e2 == nil) {
			return fmt.Sprintf("error %v, encoding/json: %v", e1, e2)
		}
		return ""
	}},
	{"string-tag-unmarshaler", "C11", cmpJSON(`{"u":"1"}`, zero[probeTagU])},
	{"pointer-map-keys", "C11", cmpJSON(`{"a":1}`, zero[map[*US]int])},
	{"number-escapes", "C11", func() string {
		var a jscandec.Number
		var b json.Number
		e1, e2 := jscandec.Unmarshal(`"\u0031"`, &a), json.Unmarshal([]byte(`"\u0031"`), &b)
		if (e1 == nil) != (e2 == nil) || string(a) != string(b) {
			return fmt.Sprintf("error %v, encoding/json: %v", e1, e2)
		}
		return ""
	}},
	{"zero-padded-integers", "C11", cmpJSON(`{"0001":1}`, zero[map[int8]int])},
	{"uintptr", "C11", cmpJSON(`1`, zero[uintptr])},
	{"deep-nesting-any", "C11", cmpJSON(strings.Repeat("[", 10001)+strings.Repeat("]", 10001), zero[any])},
	{"deep-nesting-skipped", "C11", cmpJSON(`{"zz":`+strings.Repeat("[", 10001)+strings.Repeat("]", 10001)+`}`, zero[Point])},
}

func probe(id string) {
	for _, p := range probeCases {
		if p.id == id {
			func() {
				defer func() {
					if x := recover(); x != nil {
						fmt.Printf("R panic: %v\n", x)
					}
				}()
				fmt.Printf("R %s\n", strings.ReplaceAll(p.run(), "\n", " "))
			}()
			return
		}
	}
}

// probes runs the probes of a property. Failures listed in the file of known
// findings are reported as such, others are violations.
func probes(prop, knownFile string) (known int, violation string) {
	listed := map[string]string{}
	if f, err := os.Open(knownFile); err == nil {
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			rest, ok := strings.CutPrefix(sc.Text(), "KNOWN-FINDING: property="+prop+" ")
			if !ok {
				continue
			}
			id, what, _ := strings.Cut(rest, " ")
			listed[strings.TrimPrefix(id, "id=")] = what
		}
		f.Close()
	}
	for _, p := range probeCases {
		if p.prop != prop {
			continue
		}
		cmd := exec.Command(os.Args[0], "probe", p.id)
		cmd.Env = childEnv
		var out bytes.Buffer
		cmd.Stdout = &out
		t := time.AfterFunc(60*time.Second, func() {
			if cmd.Process != nil {
				cmd.Process.Kill()
			}
		})
		err := cmd.Run()
		t.Stop()
		msg, ok := strings.CutPrefix(strings.TrimRight(out.String(), "\n"), "R ")
		if !ok || err != nil {
			msg = fmt.Sprintf("the process crashed (%v)", err)
		}
		if msg == "" {
			continue
		}
		if what, ok := listed[p.id]; ok {
			known++
			fmt.Printf("KNOWN-FINDING: property=%s id=%s %s (%s)\n", prop, p.id, what, short(msg))
		} else if violation == "" {
			violation = fmt.Sprintf("probe %s: %s", p.id, msg)
		}
	}
	return known, violation
}
