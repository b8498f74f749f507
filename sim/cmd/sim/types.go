package main

import (
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"unsafe"

	jscandec "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan/v2"
)

// Input is one document, held once for each input kind.
type Input struct {
	B []byte
	S string
}

// Kinds of entry point.
const (
	kBytes = iota
	kString
	kOneBytes
	kOneString
	nKinds
)

var kindName = [nKinds]string{"bytes", "string", "oneshot-bytes", "oneshot-string"}

func isString(kind int) bool { return kind == kString || kind == kOneString }

// Dec is a decoder under test, whatever its destination type.
type Dec interface {
	Decode(in Input, dest any, opt *jscandec.DecodeOptions) (int, error)
	// OnStack decodes into a variable of the caller, which the compiler keeps on
	// the stack if the code under test allows for it, and copies it to dest.
	OnStack(in Input, dest any, opt *jscandec.DecodeOptions) (int, error)
}

type decB[T any] struct{ d *jscandec.Decoder[[]byte, T] }

func (d decB[T]) OnStack(in Input, dest any, o *jscandec.DecodeOptions) (int, error) {
	p := dest.(*T)
	v := *p
	defer func() { *p = v }()
	return d.d.Decode(in.B, &v, o)
}

func (d decB[T]) Decode(in Input, dest any, o *jscandec.DecodeOptions) (int, error) {
	return d.d.Decode(in.B, dest.(*T), o)
}

type decS[T any] struct {
	d *jscandec.Decoder[string, T]
}

func (d decS[T]) OnStack(in Input, dest any, o *jscandec.DecodeOptions) (int, error) {
	p := dest.(*T)
	v := *p
	defer func() { *p = v }()
	return d.d.Decode(in.S, &v, o)
}

func (d decS[T]) Decode(in Input, dest any, o *jscandec.DecodeOptions) (int, error) {
	return d.d.Decode(in.S, dest.(*T), o)
}

type oneB[T any] struct{}

func (oneB[T]) OnStack(in Input, dest any, _ *jscandec.DecodeOptions) (int, error) {
	p := dest.(*T)
	v := *p
	defer func() { *p = v }()
	return -2, jscandec.Unmarshal(in.B, &v)
}

func (oneB[T]) Decode(in Input, dest any, _ *jscandec.DecodeOptions) (int, error) {
	return -2, jscandec.Unmarshal(in.B, dest.(*T))
}

type oneS[T any] struct{}

func (oneS[T]) OnStack(in Input, dest any, _ *jscandec.DecodeOptions) (int, error) {
	p := dest.(*T)
	v := *p
	defer func() { *p = v }()
	return -2, jscandec.Unmarshal(in.S, &v)
}

func (oneS[T]) Decode(in Input, dest any, _ *jscandec.DecodeOptions) (int, error) {
	return -2, jscandec.Unmarshal(in.S, dest.(*T))
}

// Tok is a pair of tokenizers, one per input kind.
type Tok struct {
	B *jscan.Tokenizer[[]byte]
	S *jscan.Tokenizer[string]
}

func newTok() *Tok {
	return &Tok{jscan.NewTokenizer[[]byte](4, 16), jscan.NewTokenizer[string](4, 16)}
}

const guardWords = 24

const guardPattern = 0xa5c3e1f00f1e3c5a

// Guarded surrounds a destination with canaries.
type Guarded[T any] struct {
	Pre  [guardWords]uint64
	V    T
	Post [guardWords]uint64
}

// Slot is a destination variable.
type Slot struct {
	T     *TypeCase
	Ptr   any           // *T
	Val   reflect.Value // addressable T
	Root  unsafe.Pointer
	guard *[guardWords]uint64
	post  *[guardWords]uint64
}

func (s *Slot) guardOK() bool {
	for i := range s.guard {
		if s.guard[i] != guardPattern || s.post[i] != guardPattern {
			return false
		}
	}
	return true
}

// TypeCase is one destination type.
type TypeCase struct {
	Name   string
	RT     reflect.Type
	Seed   uint64
	F      Feat
	NewDec func(kind int, tk *Tok, init *jscandec.InitOptions) (Dec, error)
	New    func() *Slot
	Nil    any
	Size   int          // number of types it consists of
	Oracle reflect.Type // same memory layout, for encoding/json
}

var types []*TypeCase
var typeByName = map[string]*TypeCase{}

func reg[T any](name string) { regO[T, T](name) }

// regO registers T with a twin O of identical layout that encoding/json decodes
// into (jscandec.Number is json.Number there).
func regO[T, O any](name string) {
	rt := reflect.TypeOf((*T)(nil)).Elem()
	tc := &TypeCase{Oracle: reflect.TypeOf((*O)(nil)).Elem(), Name: name, RT: rt, Seed: strSeed(name), Nil: (*T)(nil), F: features(rt), Size: typeSize(rt, map[reflect.Type]bool{})}
	tc.NewDec = func(kind int, tk *Tok, init *jscandec.InitOptions) (Dec, error) {
		switch kind {
		case kBytes:
			d, err := jscandec.NewDecoder[[]byte, T](tk.B, init)
			return decB[T]{d}, err
		case kString:
			d, err := jscandec.NewDecoder[string, T](tk.S, init)
			return decS[T]{d}, err
		case kOneBytes:
			return oneB[T]{}, nil
		default:
			return oneS[T]{}, nil
		}
	}
	tc.New = func() *Slot {
		g := new(Guarded[T])
		for i := range g.Pre {
			g.Pre[i], g.Post[i] = guardPattern, guardPattern
		}
		return &Slot{
			T: tc, Ptr: &g.V, Val: reflect.ValueOf(&g.V).Elem(),
			Root: unsafe.Pointer(g), guard: &g.Pre, post: &g.Post,
		}
	}
	types = append(types, tc)
	typeByName[name] = tc
}

func typeSize(t reflect.Type, in map[reflect.Type]bool) int {
	if in[t] {
		return 1
	}
	in[t] = true
	defer delete(in, t)
	n := 1
	switch t.Kind() {
	case reflect.Map:
		n += typeSize(t.Key(), in) + typeSize(t.Elem(), in)
	case reflect.Pointer, reflect.Slice, reflect.Array:
		n += typeSize(t.Elem(), in)
	case reflect.Struct:
		for i := 0; i < t.NumField() && n < 10000; i++ {
			n += typeSize(t.Field(i).Type, in)
		}
	}
	return n
}

// Feat are the features of a type that workloads select on.
type Feat struct {
	CB     bool // contains user unmarshalers
	Ptrs   bool // contains pointers, maps or slices
	Recur  bool
	Strukt bool
}

func features(t reflect.Type) Feat {
	var f Feat
	stack := map[reflect.Type]bool{}
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		if isUserUnmarshaler(t) {
			f.CB = true
			return
		}
		switch t.Kind() {
		case reflect.Slice, reflect.Pointer, reflect.Array, reflect.Map:
			if t.Kind() != reflect.Array {
				f.Ptrs = true
			}
			if t.Kind() == reflect.Map {
				walk(t.Key())
			}
			walk(t.Elem())
		case reflect.String, reflect.Interface:
			f.Ptrs = true
		case reflect.Struct:
			f.Strukt = true
			if stack[t] {
				f.Recur = true
				return
			}
			stack[t] = true
			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type)
			}
			delete(stack, t)
		}
	}
	walk(t)
	return f
}

// ---- Leaf types with user unmarshalers -------------------------------------

// UJ records the raw JSON it is given.
type UJ struct {
	Raw string
	N   int
	P   *int
}

func (u *UJ) UnmarshalJSON(b []byte) error {
	err := deliver("UJ", b)
	u.Raw = string(b)
	u.N++
	u.P = new(int)
	*u.P = len(b)
	return err
}

// UT records the text it is given.
type UT struct {
	Text string
	N    int
	P    *int
}

func (u *UT) UnmarshalText(b []byte) error {
	err := deliver("UT", b)
	u.Text = string(b)
	u.N++
	u.P = new(int)
	*u.P = len(b)
	return err
}

// UK is a comparable struct used as a map key.
type UK struct {
	K string
	L int
}

func (u *UK) UnmarshalText(b []byte) error {
	err := deliver("UK", b)
	u.K = string(b)
	u.L = len(b)
	return err
}

// UI is a named integer with an UnmarshalJSON method.
type UI int32

func (u *UI) UnmarshalJSON(b []byte) error {
	err := deliver("UI", b)
	*u = UI(len(b) + 1000)
	return err
}

// US is a named string with an UnmarshalText method.
type US string

func (u *US) UnmarshalText(b []byte) error {
	err := deliver("US", b)
	*u = "<" + US(b) + ">"
	return err
}

// UB is larger than 128 bytes.
type UB struct {
	Fill [18]uint64
	Raw  string
}

func (u *UB) UnmarshalJSON(b []byte) error {
	err := deliver("UB", b)
	u.Raw = string(b)
	for i := range u.Fill {
		u.Fill[i] = uint64(len(b)*31 + i)
	}
	return err
}

// UX implements both interfaces.
type UX struct {
	K string
	L int
}

func (u *UX) UnmarshalJSON(b []byte) error {
	err := deliver("UX", b)
	u.K, u.L = string(b), len(b)
	return err
}

func (u *UX) UnmarshalText(b []byte) error {
	err := deliver("UX as text", b)
	u.K, u.L = "text "+string(b), len(b)
	return err
}

// UKB is a map key larger than 128 bytes.
type UKB struct {
	K    string
	L    int
	Fill [18]uint64
}

func (u *UKB) UnmarshalText(b []byte) error {
	err := deliver("UKB", b)
	u.K, u.L = string(b), len(b)
	for i := range u.Fill {
		u.Fill[i] = uint64(len(b)*7 + i)
	}
	return err
}

// UE has no size.
type UE struct{}

func (u *UE) UnmarshalJSON(b []byte) error { return deliver("UE", b) }

// UV has a value receiver.
type UV struct{ P *Point }

func (u UV) UnmarshalJSON(b []byte) error {
	err := deliver("UV", b)
	if u.P != nil {
		u.P.X++
		u.P.Y = len(b)
	}
	return err
}

// UL is a slice with an UnmarshalText method.
type UL []string

func (u *UL) UnmarshalText(b []byte) error {
	err := deliver("UL", b)
	// What is kept is bounded, so that repeated keys do not take quadratic memory.
	l := UL{}
	if n := len(*u); n > 0 {
		l = append(l, (*u)[max(0, n-3):]...)
	}
	*u = append(l, string(b))
	return err
}

// UM is a map with an UnmarshalText method.
type UM map[string]int

func (u *UM) UnmarshalText(b []byte) error {
	err := deliver("UM", b)
	*u = UM{string(b): len(b), "n": len(*u)}
	return err
}

// UN is a map with an UnmarshalJSON method.
type UN map[string]*Point

func (u *UN) UnmarshalJSON(b []byte) error {
	err := deliver("UN", b)
	*u = UN{string(b): {X: len(b), Y: len(*u)}}
	return err
}

// UA is an array with an UnmarshalText method, also used as a map key.
type UA [3]uint16

func (u *UA) UnmarshalText(b []byte) error {
	err := deliver("UA", b)
	u[0], u[1], u[2] = u[0]+1, uint16(len(b)), 7
	if len(b) > 0 {
		u[2] = uint16(b[len(b)-1])
	}
	return err
}

// UF is a float with an UnmarshalText method, also used as a map key.
type UF float64

func (u *UF) UnmarshalText(b []byte) error {
	err := deliver("UF", b)
	*u = UF(len(b))
	for _, x := range b {
		*u = *u*3 + UF(x)
	}
	return err
}

// UQ is a boolean with an UnmarshalJSON method.
type UQ bool

func (u *UQ) UnmarshalJSON(b []byte) error {
	err := deliver("UQ", b)
	*u = len(b)%2 == 1
	return err
}

// UKI and UKS have no UnmarshalText method: as map keys they are decoded by kind.
type UKI int8

func (u *UKI) UnmarshalJSON(b []byte) error {
	err := deliver("UKI", b)
	*u = UKI(len(b))
	return err
}

type UKU uint16

func (u *UKU) UnmarshalJSON(b []byte) error {
	err := deliver("UKU", b)
	*u = UKU(len(b))
	return err
}

type UKS string

func (u *UKS) UnmarshalJSON(b []byte) error {
	err := deliver("UKS", b)
	*u = UKS(b) + "!"
	return err
}

// UY is a byte slice with an UnmarshalJSON method.
type UY []byte

func (u *UY) UnmarshalJSON(b []byte) error {
	err := deliver("UY", b)
	*u = append(UY(nil), b...)
	return err
}

// Named types without methods.
type (
	NB   bool
	NI   int
	NI8  int8
	NU8  uint8
	NU16 uint16
	NF   float64
	NS   string
	NSl  []int32
	NSS  []NS
	NM   map[string]NI
	NMS  map[NS]NS
	NA   [2]NS
	NAny any
)

// ---- Destination types -------------------------------------------------------

type Scalars struct {
	B   bool    `json:"b"`
	I   int     `json:"i"`
	I8  int8    `json:"i8"`
	I16 int16   `json:"i16"`
	I32 int32   `json:"i32"`
	I64 int64   `json:"i64"`
	U   uint    `json:"u"`
	U8  uint8   `json:"u8"`
	U16 uint16  `json:"u16"`
	U32 uint32  `json:"u32"`
	U64 uint64  `json:"u64"`
	F32 float32 `json:"f32"`
	F64 float64 `json:"f64"`
	S   string  `json:"s"`
	N   jscandec.Number
	A   any
	Z   struct{}
	Ign int `json:"-"`
}

type Tagged struct {
	B   bool    `json:"b,string"`
	I   int     `json:",string"`
	I8  int8    `json:"i8,string"`
	I16 int16   `json:"i16,string"`
	I32 int32   `json:"i32,string"`
	I64 int64   `json:"i64,string"`
	U   uint    `json:"u,string"`
	U8  uint8   `json:"u8,string"`
	U16 uint16  `json:"u16,string"`
	U32 uint32  `json:"u32,string"`
	U64 uint64  `json:"u64,string"`
	F32 float32 `json:"f32,string"`
	F64 float64 `json:"f64,string"`
	S   string  `json:"s,string"`
	Om  int     `json:"om,omitempty,string"`
	Da  int     `json:"-,"`
	Em  string  `json:",omitempty"`
	Ign string  `json:"-"`
}

type Slices struct {
	B   []bool
	I   []int     `json:"ints"`
	I8  []int8    `json:"ints8"`
	I16 []int16   `json:"ints16"`
	I32 []int32   `json:"ints32"`
	I64 []int64   `json:"ints64"`
	U   []uint    `json:"uints"`
	U16 []uint16  `json:"uints16"`
	U32 []uint32  `json:"uints32"`
	U64 []uint64  `json:"uints64"`
	F32 []float32 `json:"f32"`
	F64 []float64 `json:"f64"`
	S   []string  `json:"strs"`
	Z   []struct{}
	N   []jscandec.Number
}

// ScalarsE is the encoding/json twin of Scalars.
type ScalarsE struct {
	B   bool    `json:"b"`
	I   int     `json:"i"`
	I8  int8    `json:"i8"`
	I16 int16   `json:"i16"`
	I32 int32   `json:"i32"`
	I64 int64   `json:"i64"`
	U   uint    `json:"u"`
	U8  uint8   `json:"u8"`
	U16 uint16  `json:"u16"`
	U32 uint32  `json:"u32"`
	U64 uint64  `json:"u64"`
	F32 float32 `json:"f32"`
	F64 float64 `json:"f64"`
	S   string  `json:"s"`
	N   json.Number
	A   any
	Z   struct{}
	Ign int `json:"-"`
}

// SlicesE is the encoding/json twin of Slices.
type SlicesE struct {
	B   []bool
	I   []int     `json:"ints"`
	I8  []int8    `json:"ints8"`
	I16 []int16   `json:"ints16"`
	I32 []int32   `json:"ints32"`
	I64 []int64   `json:"ints64"`
	U   []uint    `json:"uints"`
	U16 []uint16  `json:"uints16"`
	U32 []uint32  `json:"uints32"`
	U64 []uint64  `json:"uints64"`
	F32 []float32 `json:"f32"`
	F64 []float64 `json:"f64"`
	S   []string  `json:"strs"`
	Z   []struct{}
	N   []json.Number
}

type Point struct{ X, Y int }

type Rec struct {
	ID   int               `json:"id"`
	Name string            `json:"name"`
	Tags []string          `json:"tags"`
	At   Point             `json:"at"`
	M    map[string]string `json:"m"`
	Any  any               `json:"any"`
	Skip *int              `json:"-"`
}

type Nest struct {
	A struct {
		B struct {
			C []Point
			D [2]Point
			E string
		}
		F int
	}
	G [][]Point
	H [3][]string
	K [0]int
	L [2]struct{}
	Z []struct{}
	T uint8
}

type Maps struct {
	SS  map[string]string
	SI  map[string]int
	SA  map[string]any
	SR  map[string]Point
	SL  map[string][]int
	SM  map[string]map[string]string
	IS  map[int]string
	I8  map[int8]bool
	I16 map[int16]float64
	I32 map[int32]string
	I64 map[int64]Point
	U   map[uint]string
	U8  map[uint8]uint8
	U16 map[uint16]string
	U32 map[uint32][]string
	U64 map[uint64]string
	End string
}

type Big struct {
	A [16]int64
	S string
	P *int
	B [3]Point
}

type Ptrs struct {
	I   *int
	S   *string
	PP  **int
	R   *Point
	L   *[]int
	M   *map[string]int
	A   *any
	Z   *struct{}
	Arr *[2]Point
	End int
}

type PtrBox struct {
	PS []*Point
	PA [3]*Point
	PM map[string]*Point
	PI []*int
	MI map[string]*int
	PR *Rec
	X  int
}

type NodeS struct {
	V    int
	Kids []NodeS
	W    string
}

type NodeP struct {
	V    int
	Next *NodeP
	W    string
}

type NodeM struct {
	V    int
	Kids map[string]NodeM
	W    string
}

type NodeAll struct {
	V    string
	Kids []NodeAll
	Next *NodeAll
	M    map[string]NodeAll
	W    any
}

type InRec struct {
	Pre  int
	Root NodeS
	Mid  []NodeP
	Last NodeM
	Post int
}

type NodeDeep struct {
	V     int
	Items []struct {
		N *NodeDeep
		X int
	}
	Grid [][]NodeDeep
	Arr  [2]struct {
		L []NodeDeep
		Y string
	}
	W string
}

type NodeMut struct {
	V int
	B []MutB
	W string
}

type MutB struct {
	A *NodeMut
	B []MutB
	M map[string]NodeMut
	X int
}

type Sib struct {
	A []Point
	B []Point
	C Point
	D map[string]Point
	E *Point
	F [2]Point
	G []Rec
	H *Rec
	I int
}

type CB1 struct {
	J   UJ
	T   UT
	X   int
	JL  []UJ
	TL  []UT
	JM  map[string]UJ
	TM  map[string]UT
	JA  [2]UJ
	TA  [2]UT
	Any any
	Y   string
}

type CB2 struct {
	KM map[UK]int
	KT map[UK]UT
	KL map[UK][]UJ
	KS map[US]int
	In []struct {
		J UJ
		T UT
		L []int
	}
	I  UI
	S  US
	B  UB
	BM map[string]UB
	Z  int
}

type CB3 struct {
	PJ *UJ
	PT *UT
	L  []*UJ
	M  map[string]*UT
	E  int
}

type CB4 struct {
	IL []UI
	SL []US
	MS map[US]string
	SM map[string]US
	KK map[US]US
	E  string
}

type CB5 struct {
	M  UM
	N  UN
	A  UA
	F  UF
	Q  UQ
	Y  UY
	ML []UM
	NM map[string]UN
	AL []UA
	FL []UF
	QL []UQ
	YL []UY
	QA [3]UQ
	E  string
}

type CB6 struct {
	KI map[UKI]int
	KU map[UKU]Point
	KS map[UKS]string
	KA map[UA]UF
	KF map[UF]UM
	XI map[UKI]UKI
	XS map[UKS]UKS
	PM *UM
	PN *UN
	PQ **UQ
	PL []*UA
	I  UKI
	S  UKS
	E  int
}

// NodeMapCB nests through the keys and values of maps with unmarshalers.
type NodeMapCB struct {
	M map[UA]NodeMapCB
	K map[UKI]NodeMapCB
	U UM
	E int
}

// OddKeys has maps that no object can be decoded into.
type OddKeys struct {
	A    int
	B    map[bool]int
	F    map[float64]string
	R    map[[2]int]Point
	S    map[Point]int
	P    map[*string]string
	PT   *map[*US]UJ
	I    map[any]int
	Z    map[struct{}]struct{}
	L    []map[bool]string
	Kids map[[1]bool]OddKeys
	Next *OddKeys
	M    map[string]map[Point]Point
	E    int
}

// Ifaces has interfaces that no value but null can be decoded into.
type Ifaces struct {
	A    fmt.Stringer
	B    error `json:"b"`
	J    json.Unmarshaler
	T    encoding.TextUnmarshaler
	N    int
	L    []error
	M    map[string]fmt.Stringer
	K    [2]error
	P    *error
	S    struct{ E error }
	O    error `json:"o,string"`
	X    map[fmt.Stringer]int
	Kids []Ifaces
	Next *Ifaces
	V    map[int]Ifaces
	E    string
}

// Word is held by interfaces in prior contents.
type Word string

func (w Word) String() string             { return string(w) }
func (w Word) Error() string              { return string(w) }
func (w Word) UnmarshalJSON([]byte) error { panic("called through an interface") }
func (w Word) UnmarshalText([]byte) error { panic("called through an interface") }

// Types of no size that have fields.
type Z0 struct {
	A [0]int
	B struct{}
}

type Z1 struct {
	Z  [2]Z0 `json:"z"`
	un struct{}
}

type Z2 struct{ z [0]*int }

// Types whose decoded fields are free of pointers while others are not.
type HideA struct {
	N     int
	Extra *string `json:"-"`
}

type HideB struct {
	hid map[string]int
	V   uint8
	tag string
}

type HideC struct {
	B   bool
	Any any `json:"-"`
	F   float32
	L   []HideA `json:"-"`
}

type HideD struct {
	A [2]HideA
	M struct {
		X int8
		p *int
	}
	Z [0]int
	E struct{ s []string }
}

type HideR struct {
	N    int
	hid  *HideA
	Kids []HideR
	E    bool
}

type Hides struct {
	A []HideA
	B map[string]HideB
	C []HideC
	D []HideD
	P *HideA
	Q *HideD
	R []HideR
	L [][]HideB
	K [2]*HideC
	M map[int][2]HideA
	E []struct{ s []string }
	Z []Z0
	Y map[string][]Z1
	X []*Z2
	W *Z1
}

type NodeCB struct {
	J    UJ
	Kids []NodeCB
	T    UT
	Next *NodeCB
	E    int
}

func init() {
	regO[Scalars, ScalarsE]("Scalars")
	localTypes()
	reg[*Tagged]("*Tagged")
	regO[*Slices, *SlicesE]("*Slices")
	reg[any]("any")
	reg[[]any]("[]any")
	reg[map[string]any]("map[string]any")
	reg[*[]Rec]("*[]Rec")
	reg[*Nest]("*Nest")
	reg[*Maps]("*Maps")
	reg[*map[string]Big]("*map[string]Big")
	reg[*[]Big]("*[]Big")
	reg[Ptrs]("Ptrs")
	reg[*[]Ptrs]("*[]Ptrs")
	reg[*PtrBox]("*PtrBox")
	reg[***int]("***int")
	reg[*NodeS]("*NodeS")
	reg[*NodeP]("*NodeP")
	reg[*NodeM]("*NodeM")
	reg[NodeAll]("NodeAll")
	reg[InRec]("InRec")
	reg[*[]NodeAll]("*[]NodeAll")
	reg[*NodeDeep]("*NodeDeep")
	reg[*NodeMut]("*NodeMut")
	reg[*Sib]("*Sib")
	reg[CB1]("CB1")
	reg[*CB2]("*CB2")
	reg[*CB3]("*CB3")
	reg[*CB4]("*CB4")
	reg[*[]CB1]("*[]CB1")
	reg[*NodeCB]("*NodeCB")
	reg[*CB5]("*CB5")
	reg[*CB6]("*CB6")
	reg[*NodeMapCB]("*NodeMapCB")
	reg[*OddKeys]("*OddKeys")
	reg[map[bool]int]("map[bool]int")
	reg[*Hides]("*Hides")
	reg[[]HideA]("[]HideA")
	reg[[]HideC]("[]HideC")
	reg[*[]HideD]("*[]HideD")
	reg[HideR]("HideR")
	reg[[]Z0]("[]Z0")
	reg[*[2][]Z1]("*[2][]Z1")
	reg[Z1]("Z1")
	reg[*Ifaces]("*Ifaces")
	reg[error]("error")
	reg[[]json.Unmarshaler]("[]json.Unmarshaler")
	reg[map[string]fmt.Stringer]("map[string]fmt.Stringer")
	reg[UJ]("UJ")
	reg[UT]("UT")
	reg[*map[UK]UT]("*map[UK]UT")
	reg[[]string]("[]string")
	reg[[][]int]("[][]int")
	reg[[2][3]int8]("[2][3]int8")
	reg[map[int]map[string][]Point]("map[int]map[string][]Point")
	reg[map[string]string]("map[string]string")
	reg[string]("string")
	reg[int]("int")
	reg[float64]("float64")
	reg[bool]("bool")
	reg[[]UJ]("[]UJ")
	reg[[]UT]("[]UT")
	reg[map[UK]UJ]("map[UK]UJ")
	reg[map[string]UT]("map[string]UT")
	reg[[2]UT]("[2]UT")
	reg[[]*UJ]("[]*UJ")
	reg[NodeCB]("NodeCB")
	reg[[]bool]("[]bool")
	reg[[]uint8]("[]uint8")
	reg[[]int64]("[]int64")
	reg[[]float32]("[]float32")
	reg[[]Point]("[]Point")
	reg[[][]string]("[][]string")
	reg[[]map[string]*Point]("[]map[string]*Point")
	reg[map[string][]string]("map[string][]string")
	reg[struct{}]("struct{}")
	reg[[]struct{}]("[]struct{}")
	reg[[4]*string]("[4]*string")
	reg[[0]int]("[0]int")
	reg[uint8]("uint8")
	reg[NodeM]("NodeM")
	reg[NodeS]("NodeS")
	reg[[]NodeP]("[]NodeP")
}

// Types that are declared in different functions have the same name.

func localTypes() {
	local1()
	local2()
	local3()
	local4()
	local5()
}

func local1() {
	type Local struct {
		A int
		B string
	}
	reg[Local]("Local1")
	reg[[]Local]("[]Local1")
	reg[map[string]Local]("map[string]Local1")
	reg[*Local]("*Local1")
}

func local2() {
	type Local struct {
		B string
		A int
	}
	reg[Local]("Local2")
	reg[[]Local]("[]Local2")
	reg[map[string]Local]("map[string]Local2")
	reg[*Local]("*Local2")
}

func local3() {
	type Local struct {
		A    int8
		B    *string
		C    []int
		Next *Local
	}
	reg[Local]("Local3")
	reg[[]Local]("[]Local3")
	reg[map[string]Local]("map[string]Local3")
	reg[*Local]("*Local3")
}

func local4() {
	type Local []string
	reg[Local]("Local4")
	reg[[]Local]("[]Local4")
	reg[map[string]Local]("map[string]Local4")
	reg[*Local]("*Local4")
}

func local5() {
	type Local struct {
		A int    `json:"B"`
		B string `json:"A"`
	}
	reg[Local]("Local5")
	reg[[]Local]("[]Local5")
	reg[map[string]Local]("map[string]Local5")
	reg[*Local]("*Local5")
}
