package main

import (
	"encoding/base64"
	"encoding/json"
	"unicode/utf8"
)

// Doc is document text; in replay files it is a string, or base64 if it is not
// valid UTF-8.
type Doc []byte

func (d Doc) MarshalJSON() ([]byte, error) {
	if utf8.Valid(d) {
		return json.Marshal(string(d))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString(d)})
}

func (d *Doc) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '{' {
		var m map[string]string
		if err := json.Unmarshal(b, &m); err != nil {
			return err
		}
		x, err := base64.StdEncoding.DecodeString(m["b64"])
		*d = x
		return err
	}
	var s string
	err := json.Unmarshal(b, &s)
	*d = []byte(s)
	return err
}

// Plan is one simulated execution, completely: executing it is a function of
// the plan and the code only.
type Plan struct {
	Prop     string     `json:"property"`
	Seed     uint64     `json:"seed"`
	Tasks    []TaskPlan `json:"tasks"`
	Toks     int        `json:"tokenizers,omitempty"` // shared tokenizers, 0: one per decoder
	Switches []Switch   `json:"schedule,omitempty"`
	Hot      *Hot       `json:"hot,omitempty"`
	Mode     string     `json:"mode,omitempty"`

	// What happened in the process before. (Package-level variables are reset
	// before every run.)
	Before []Before `json:"before,omitempty"`
}

// Before is a call that is made before the run and not looked at.
type Before struct {
	Type string `json:"type"`
	Kind int    `json:"kind"`
	Doc  Doc    `json:"doc"`
}

// TaskPlan is what one caller thread does.
type TaskPlan struct {
	OneOpt bool       `json:"one_options_variable,omitempty"` // all calls use one variable for their options
	Decs   []DecPlan  `json:"decoders"`
	Slots  []SlotPlan `json:"destinations"`
	Ops    []OpPlan   `json:"ops"`
}

type DecPlan struct {
	Type string `json:"type"`
	Kind int    `json:"kind"`
	Tok  int    `json:"tok"`

	// Strict: the decoder is created with the option that rejects unsupported types.
	Strict bool `json:"strict,omitempty"`
}

type SlotPlan struct {
	Type  string `json:"type"`
	Seed  uint64 `json:"seed"` // 0: zero value
	Tail  bool   `json:"tail,omitempty"`
	Guard bool   `json:"guard,omitempty"`
	Alias int    `json:"alias,omitempty"` // 1: pointers and maps, 2: slices too
	Big   bool   `json:"big,omitempty"`
	Cyc   bool   `json:"cyclic,omitempty"` // pointers lead back
}

// OpPlan is one call, or one event between calls.
type OpPlan struct {
	Op     string  `json:"op"` // decode, new (construct the decoder again), gc, refill, scribble
	Dec    int     `json:"dec"`
	Slot   int     `json:"slot"` // -1: nil destination
	Doc    Doc     `json:"doc,omitempty"`
	Opt    int     `json:"opt,omitempty"` // bit mask, see optTable
	Acts   []Act   `json:"acts,omitempty"`
	Faults []Fault `json:"faults,omitempty"`
	Note   string  `json:"note,omitempty"`
	Seed   uint64  `json:"seed,omitempty"`
	Stack  bool    `json:"stack,omitempty"`  // the destination is a local variable of the caller
	Buf    bool    `json:"buffer,omitempty"` // the input is read into the one buffer of the caller
	Rep    int     `json:"repeat,omitempty"` // so many calls are made first that nobody looks at
	Mix    bool    `json:"mix,omitempty"`    // those are of this document and earlier ones in turn
}

// Act is what a user unmarshaler does at its n-th invocation in a call.
type Act struct {
	At   int       `json:"at"`
	Do   string    `json:"do"`            // err, panic, goexit, gc, grow, churn, nest
	How  int       `json:"how,omitempty"` // which error, or what the panic is given
	Nest *NestPlan `json:"nest,omitempty"`
}

type NestPlan struct {
	Type string `json:"type"`
	Kind int    `json:"kind"`
	Seed uint64 `json:"seed"`
	Doc  Doc    `json:"doc"`
	Acts []Act  `json:"acts,omitempty"`
	Keep bool   `json:"keep,omitempty"` // reuse one decoder for all inner calls of this type
	Deep int    `json:"deep,omitempty"` // the same call is made from it again, and so on
}

// Fault happens before the n-th statement of a call.
type Fault struct {
	Step int    `json:"step"`
	Do   string `json:"do"` // gc, grow, churn
}

// Hot gives control to another task around statements that may touch shared state.
type Hot struct {
	Percent int    `json:"percent"`
	Seed    uint64 `json:"seed"`
	Stall   int    `json:"stall,omitempty"` // tasks may then rest for as many switches
}

// Switch gives control to another task after some statements.
type Switch struct {
	After int `json:"after"`
	To    int `json:"to"`
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := new(Plan)
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}
