// Code generated by tools/gentypes.py; DO NOT EDIT.

package main

import (
	"encoding/json"

	jscandec "github.com/romshark/jscan-experimental-decoder"
)

var _ json.Number
var _ jscandec.Number

type G001 struct {
	ID    [0][][]jscandec.Number
	Prev  uintptr
	I     map[uint16]uint8 `json:"k,string"`
	NameX bool
	H     NMS    `json:",string"`
	Y     string `json:"-"`
	K     struct {
		Name   float64
		value_ *float64
	}
	G                    Point `json:"name"`
	LongFieldNameNumber1 map[NI]bool
}

type G001E struct {
	ID    [0][][]json.Number
	Prev  uintptr
	I     map[uint16]uint8 `json:"k,string"`
	NameX bool
	H     NMS    `json:",string"`
	Y     string `json:"-"`
	K     struct {
		Name   float64
		value_ *float64
	}
	G                    Point `json:"name"`
	LongFieldNameNumber1 map[NI]bool
}

type G002 struct {
	Val  [][][0]int64 "json:\"bad\\\\name,string\""
	D    any
	Map  string
	A    any              `json:"k"`
	Kids [2]map[uint8]int `json:"id,omitempty"`
	B    string           `json:"1,omitempty"`
	I    struct {
		H     map[uint64]Point
		NameX []map[uint]string `json:"-"`
	} `json:"s"`
	ID   jscandec.Number `json:"-"`
	E    map[int32][0]bool
	Prev struct {
		LongFieldNameNumber1 [1][]NM
		H                    struct {
			C                    []int8 `json:"value"`
			Prev                 NSl    `json:"-"`
			LongFieldNameNumber1 map[NS]struct{}
		}
		Next uint8
		ID   struct {
			A     int16
			Y     [5]string `json:"name,omitempty"`
			kids_ map[string]float32
		} `json:",string"`
	}
	C                    HideA `json:"value"`
	LongFieldNameNumber2 **map[uint16]any
}

type G002E struct {
	Val  [][][0]int64 "json:\"bad\\\\name,string\""
	D    any
	Map  string
	A    any              `json:"k"`
	Kids [2]map[uint8]int `json:"id,omitempty"`
	B    string           `json:"1,omitempty"`
	I    struct {
		H     map[uint64]Point
		NameX []map[uint]string `json:"-"`
	} `json:"s"`
	ID   json.Number `json:"-"`
	E    map[int32][0]bool
	Prev struct {
		LongFieldNameNumber1 [1][]NM
		H                    struct {
			C                    []int8 `json:"value"`
			Prev                 NSl    `json:"-"`
			LongFieldNameNumber1 map[NS]struct{}
		}
		Next uint8
		ID   struct {
			A     int16
			Y     [5]string `json:"name,omitempty"`
			kids_ map[string]float32
		} `json:",string"`
	}
	C                    HideA `json:"value"`
	LongFieldNameNumber2 **map[uint16]any
}

type G003 []map[NI8]int

type G004 struct {
	List   []float64 `json:"with space,omitempty"`
	Val    [][]map[int8]uint32
	ID     [][][]NA `json:"vAlue,string"`
	I      *NM
	nameX_ NSl
	Items  *[]byte `json:"日本"`
}

type G005 struct {
	Z any
	J []*map[NI8]int8 `json:"x-y"`
}

type G006 map[int8][]any

type G007 struct {
	H []uint
	S *map[uint8][0]uintptr
}

type G008 struct {
	J    struct{}
	NamE map[uint]map[uint]uint32 `json:",string"`
	B    uint16                   `json:",string"`
	Y    [5]map[NI]map[uint16]float64
	ID   uintptr `json:"value"`
	I    struct {
		H struct {
			Id    float64 `json:"1,omitempty"`
			Ünï   Point   `json:"-"`
			NameX NSl
		}
		E struct {
			ID   NU16 `json:"list"`
			Kids uintptr
			e_   map[uint16]jscandec.Number
			Map  []int64 `json:",string"`
		}
		A *int8 `json:"aa"`
	} `json:"-,"`
}

type G008E struct {
	J    struct{}
	NamE map[uint]map[uint]uint32 `json:",string"`
	B    uint16                   `json:",string"`
	Y    [5]map[NI]map[uint16]float64
	ID   uintptr `json:"value"`
	I    struct {
		H struct {
			Id    float64 `json:"1,omitempty"`
			Ünï   Point   `json:"-"`
			NameX NSl
		}
		E struct {
			ID   NU16 `json:"list"`
			Kids uintptr
			e_   map[uint16]json.Number
			Map  []int64 `json:",string"`
		}
		A *int8 `json:"aa"`
	} `json:"-,"`
}

type G009 []*[][3]Z1

type G010 map[int][][5]uint

type G011 []**int32

type G012 map[int16]map[uintptr]**struct{}

type G013 struct {
	F [2][5]map[NI8]int
	S struct {
		Ünï *[]float64 `json:"k,omitempty"`
	}
	Next  [3]NSS `json:"ID,string"`
	Val   [2]int64
	Value *map[int64]struct {
		I float32 `json:",string"`
		X float64 `json:"-"`
	}
	Kids uintptr `json:",string"`
}

type G014 struct {
	X map[int8][][]bool
}

type G015 struct {
	Items                map[int32]NI
	C                    []uint `json:",string"`
	LongFieldNameNumber1 NU8
	E                    [0][1][5]uint8
	I                    struct {
		LongFieldNameNumber2 uint
	} `json:"x_y"`
	Prev struct {
		I any   `json:"with space,string"`
		C Point `json:"value"`
	} `json:"list"`
	B   *[][2]int64 `json:"1"`
	F   *NU8        `json:"with space"`
	Map float32
}

type G016 struct {
	List struct {
		K map[uint32]uint64
	} `json:"id,string"`
	S  uint64
	J  Z1 `json:",string"`
	H  uint
	Z  map[string]NM `json:",string"`
	Id map[NI8]struct {
		X []Point
		H NSS
	} `json:",string"`
}

type G017 struct {
	S  *[2]jscandec.Number
	ID struct {
		Prev  *[]NSl
		NameX [0][]int `json:"aa,string"`
	} `json:"id"`
	K                    [2][2]*uintptr
	LongFieldNameNumber1 **map[uint8]NF `json:"-"`
	Items                map[NI8][]byte
	Z                    []NI `json:"naïve"`
	J                    uint16
	Val                  *[][3]HideA
	Kids                 *[]struct {
		Val  any
		G    int `json:",string"`
		Prev uint
	} `json:"ID"`
	Value int8
	D     []NI `json:"x_y,omitempty"`
	Map   struct {
		ID                   *any
		Map                  [5]*int8 `json:"a"`
		LongFieldNameNumber1 []NSS
	}
}

type G017E struct {
	S  *[2]json.Number
	ID struct {
		Prev  *[]NSl
		NameX [0][]int `json:"aa,string"`
	} `json:"id"`
	K                    [2][2]*uintptr
	LongFieldNameNumber1 **map[uint8]NF `json:"-"`
	Items                map[NI8][]byte
	Z                    []NI `json:"naïve"`
	J                    uint16
	Val                  *[][3]HideA
	Kids                 *[]struct {
		Val  any
		G    int `json:",string"`
		Prev uint
	} `json:"ID"`
	Value int8
	D     []NI `json:"x_y,omitempty"`
	Map   struct {
		ID                   *any
		Map                  [5]*int8 `json:"a"`
		LongFieldNameNumber1 []NSS
	}
}

type G018 struct {
	Prev *any
	I    map[uint8]struct {
		Y    any `json:"naïve"`
		Val  [1]int8
		Next Point `json:"-,"`
	}
	B   uint8
	K   uint16 `json:"a"`
	Map map[uint32]*struct {
		Prev struct{}
	} `json:"-,"`
	longFieldNameNumber2_ jscandec.Number
	S                     jscandec.Number
	NamE                  [][][]float32
	A                     [][]byte
}

type G018E struct {
	Prev *any
	I    map[uint8]struct {
		Y    any `json:"naïve"`
		Val  [1]int8
		Next Point `json:"-,"`
	}
	B   uint8
	K   uint16 `json:"a"`
	Map map[uint32]*struct {
		Prev struct{}
	} `json:"-,"`
	longFieldNameNumber2_ json.Number
	S                     json.Number
	NamE                  [][][]float32
	A                     [][]byte
}

type G019 struct {
	F int64
}

type G020 struct {
	G []NMS `json:"日本,string"`
}

type G021 struct {
	Items string
	Z     float64 `json:"-,"`
	Y     NSl     `json:"ID"`
	Prev  struct {
		H  [][1]NA
		Id [][]uintptr `json:"id,omitempty"`
		D  int64
	} `json:",string"`
}

type G022 [0]struct {
	Map  uint32
	D    *[]byte
	Val  NM        `json:"value,omitempty"`
	List [1]uint64 `json:"longfieldnamenumber,omitempty"`
}

type G023 struct {
	LongFieldNameNumber2 *jscandec.Number "json:\"bad\\\\name\""
	G                    *struct{}        `json:"x_y,omitempty"`
}

type G023E struct {
	LongFieldNameNumber2 *json.Number "json:\"bad\\\\name\""
	G                    *struct{}    `json:"x_y,omitempty"`
}

type G024 [3]struct {
	Map []string `json:"-,,string"`
}

type G025 map[uint8][0][]NB

type G026 map[int8]*NSl

type G027 struct {
	LongFieldNameNumber1 []**NA `json:",string"`
	B                    NB
	ID                   [1]struct {
		LongFieldNameNumber2 map[uint64]int16 `json:"-"`
	} `json:"日本"`
	Ünï   []*NF    `json:",string"`
	X     []uint16 `json:",string"`
	H     map[uint]uint32
	D     **float64
	Val   map[int16]*[]int32 `json:"k"`
	Items int64              `json:"a"`
}

type G028 [][]byte

type G029 struct {
	c_  string
	Val struct {
		Ünï   *jscandec.Number
		kids_ []struct {
			Y  NA `json:",string"`
			ID int8
		}
		LongFieldNameNumber2 map[int16]NM `json:"-,"`
	}
	H    map[NI]*map[uint8]NS `json:"ab,omitempty"`
	J    any                  `json:"s"`
	Prev uint16
	Kids *[]uint `json:"name"`
	Name int16   `json:"x_y"`
	I    int8
	Id   map[string][2]int
}

type G029E struct {
	c_  string
	Val struct {
		Ünï   *json.Number
		kids_ []struct {
			Y  NA `json:",string"`
			ID int8
		}
		LongFieldNameNumber2 map[int16]NM `json:"-,"`
	}
	H    map[NI]*map[uint8]NS `json:"ab,omitempty"`
	J    any                  `json:"s"`
	Prev uint16
	Kids *[]uint `json:"name"`
	Name int16   `json:"x_y"`
	I    int8
	Id   map[string][2]int
}

type G030 struct {
	K map[int8]NS
	Z struct {
		J NSl
		H struct {
			NameX Point
		}
	}
}

type G031 struct {
	Z     []byte
	G     []map[uint8]Point `json:",string"`
	ID    jscandec.Number
	Y     []uint32 `json:"-,"`
	List  *map[uint64][]Z2
	NamE  float64
	Map   Point    `json:"value,string"`
	Value [][]byte `json:",string"`
	E     []int16
}

type G031E struct {
	Z     []byte
	G     []map[uint8]Point `json:",string"`
	ID    json.Number
	Y     []uint32 `json:"-,"`
	List  *map[uint64][]Z2
	NamE  float64
	Map   Point    `json:"value,string"`
	Value [][]byte `json:",string"`
	E     []int16
}

type G032 [1][]*[]Z1

type G033 [5]NSl

type G034 []Point

type G035 struct {
	LongFieldNameNumber2 map[NI8]*NI `json:"x-y,string"`
}

type G036 struct {
	D     map[uint]map[NI8]*Point `json:"value,omitempty"`
	Prev  [3]int32                `json:"naïve"`
	NameX *struct {
		Id []int64 `json:"$"`
	} `json:"1"`
	Next                 map[uint8]**uint8 `json:"-"`
	C                    *uint32
	B                    [1][]*uint `json:"-"`
	Val                  NB         `json:",string"`
	J                    []any      `json:"longfieldnamenumber"`
	LongFieldNameNumber2 *int16
	Id                   NMS `json:"a,string"`
	LongFieldNameNumber1 NS  `json:"日本"`
	NamE                 map[NI8]map[int16]struct {
		Val jscandec.Number `json:"id"`
	} `json:"-"`
}

type G036E struct {
	D     map[uint]map[NI8]*Point `json:"value,omitempty"`
	Prev  [3]int32                `json:"naïve"`
	NameX *struct {
		Id []int64 `json:"$"`
	} `json:"1"`
	Next                 map[uint8]**uint8 `json:"-"`
	C                    *uint32
	B                    [1][]*uint `json:"-"`
	Val                  NB         `json:",string"`
	J                    []any      `json:"longfieldnamenumber"`
	LongFieldNameNumber2 *int16
	Id                   NMS `json:"a,string"`
	LongFieldNameNumber1 NS  `json:"日本"`
	NamE                 map[NI8]map[int16]struct {
		Val json.Number `json:"id"`
	} `json:"-"`
}

type G037 [2]Point

type G038 struct {
	LongFieldNameNumber2 [2]NI   `json:",string"`
	Ünï                  **int64 "json:\"bad\\\\name\""
}

type G039 struct {
	J *struct {
		Kids []int `json:"m,omitempty,string"`
		Z    [1]Z1
	}
	B    map[uint][]*string
	List struct {
		Value                map[uint16]*float64
		C                    NMS  `json:"naïve"`
		LongFieldNameNumber1 []Z1 `json:",string"`
	} `json:"$"`
}

type G040 [0]float64

type G041 []uint

type G042 [][]uint

type G043 struct {
	Next []struct {
		nameX_ int
		K      [1]Point `json:"aa"`
	}
	Name                 []map[uint32][5]Z2 `json:"ſ"`
	A                    *map[uint64][]NI8  `json:"with space"`
	LongFieldNameNumber2 []*Point
	C                    []struct {
		Kids struct {
			S    any
			NamE uint
			Y    NU16
		}
		Value uint8 `json:"日本,omitempty"`
	}
}

type G044 struct {
	Name string `json:",string"`
	Map  map[int8]*uint8
	NamE []*[]Point `json:"longfieldnamenumber,omitempty"`
	ID   int8       `json:"x-y,string"`
}

type G045 struct {
	Next float64 `json:"ID"`
	Y    *struct {
		NamE [5]Point
		X    map[uint]jscandec.Number `json:"s,omitempty"`
	}
}

type G045E struct {
	Next float64 `json:"ID"`
	Y    *struct {
		NamE [5]Point
		X    map[uint]json.Number `json:"s,omitempty"`
	}
}

type G046 *float32

type G047 struct {
	Z                    uint8                `json:"id,omitempty"`
	B                    [2]map[int16]float64 `json:",string"`
	Kids                 uintptr
	D                    uint8
	F                    uint64 `json:"-,"`
	LongFieldNameNumber1 int8   `json:"-,"`
}

type G048 []float64

type G049 ***[]uint16

type G050 []*[2]map[uint8]int16

type G051 [2]***NSS

type G052 map[string][0]struct {
	Z *int64
	I struct {
		Value NF `json:",string"`
		Next  int8
		E     uint `json:"日本"`
	} `json:",string"`
	C    NI8
	List *NSl
}

type G053 []NI

type G054 [5]map[int][][2]int

type G055 [3]*NAny

type G056 [2]NA

type G057 struct {
	List any `json:",string"`
	E    *map[NI8]struct {
		List Point
		B    NSS `json:"-"`
	} `json:"-"`
	LongFieldNameNumber2 [][][]uint32
	H                    *uint64
	Ünï                  struct {
		S [2]int16 `json:",string"`
	}
}

type G058 struct {
	Prev []*struct{}
	E    *[]uint16 `json:"-"`
	J    struct {
		F  map[uint32][]int64
		ID *[2]float32
	}
	Y map[NI8]**Point
}

type G059 struct {
	List uint
}

type G060 struct {
	D any
}

type G061 struct {
	Value map[NI8][]any `json:",string"`
	Kids  uint8
}

type G062 struct {
	Map map[string]*G062 `json:",string"`
	I   [1][]G061        `json:"s,string"`
	Ünï any
	G   map[uint8][]any `json:"ab"`
	D   struct {
		Next map[int8]NA "json:\"bad\\\\name\""
		Y    [2]int8
	} `json:",string"`
}

type G063 struct {
	A struct {
		Z  []G063
		K  [1]Z1   `json:"a"`
		Id *[]G064 `json:"-,"`
		X  []G063
	} `json:"ab"`
	B []*G063 `json:",string"`
}

type G064 struct {
	Items map[string]*G064 `json:"value,omitempty"`
	F     *NAny
	Map   struct {
		Prev                 **G064
		A                    []bool          `json:"k"`
		LongFieldNameNumber2 jscandec.Number `json:"aa"`
		Map                  struct {
			List                 bool            `json:"value,string"`
			LongFieldNameNumber2 map[string]G063 `json:"s"`
		} `json:"-,"`
	} `json:"k"`
	ünï_ struct {
		LongFieldNameNumber1 struct {
			Y     *G063 `json:"vAlue"`
			Value NA    `json:",string"`
			ID    uint8
		}
		z_ map[int16][]G064
		C  *map[string]G063 `json:"value,omitempty"`
	}
}

type G063E struct {
	A struct {
		Z  []G063E
		K  [1]Z1    `json:"a"`
		Id *[]G064E `json:"-,"`
		X  []G063E
	} `json:"ab"`
	B []*G063E `json:",string"`
}

type G064E struct {
	Items map[string]*G064E `json:"value,omitempty"`
	F     *NAny
	Map   struct {
		Prev                 **G064E
		A                    []bool      `json:"k"`
		LongFieldNameNumber2 json.Number `json:"aa"`
		Map                  struct {
			List                 bool             `json:"value,string"`
			LongFieldNameNumber2 map[string]G063E `json:"s"`
		} `json:"-,"`
	} `json:"k"`
	ünï_ struct {
		LongFieldNameNumber1 struct {
			Y     *G063E `json:"vAlue"`
			Value NA     `json:",string"`
			ID    uint8
		}
		z_ map[int16][]G064E
		C  *map[string]G063E `json:"value,omitempty"`
	}
}

type G065 struct {
	K struct {
		F     map[uintptr][1][]G065
		J     *HideB
		Value Z1
	} `json:"k"`
	I struct {
		Z    NF
		List [5]float64
		K    []**G065
	}
	Val *G065
	Y   []G065 `json:"$,string"`
}

type G066 struct {
	Val   uint64 `json:"value,string"`
	Name  [][]G066
	Id    map[NS]*G066
	NameX map[string]G066 `json:"s"`
}

type G067 struct {
	Y     jscandec.Number  `json:"x_y"`
	G     *map[string]G068 `json:"value"`
	f_    map[string]G068
	D     map[uint32]*[]G068 `json:"$,omitempty"`
	prev_ []map[string][]G068
}

type G068 struct {
	ID []*G068
	Id []*uint16
	I  int
	Z  struct {
		Z *int16
	}
	H map[int16]int8 `json:",string"`
}

type G067E struct {
	Y     json.Number       `json:"x_y"`
	G     *map[string]G068E `json:"value"`
	f_    map[string]G068E
	D     map[uint32]*[]G068E `json:"$,omitempty"`
	prev_ []map[string][]G068E
}

type G068E struct {
	ID []*G068E
	Id []*uint16
	I  int
	Z  struct {
		Z *int16
	}
	H map[int16]int8 `json:",string"`
}

type G069 struct {
	ID struct {
		B   map[int64]NAny `json:"m,omitempty"`
		Val any            `json:"ſ"`
		J   NB             `json:"-"`
	}
	Kids NMS "json:\"bad\\\\name,string\""
}

type G070 struct {
	E []map[string]G070 `json:"list"`
	F [][]G070          `json:"ID,omitempty"`
}

type G071 struct {
	ID *uint64
	D  struct {
		K map[string]G073 `json:",string"`
		H NSl
		B map[string]G073
	} `json:"-,"`
	Kids []byte `json:",string"`
}

type G072 struct {
	Name struct {
		Ünï NU8      `json:"k,omitempty,string"`
		Val [2]*G073 `json:"with space,omitempty"`
	}
	G    *[]G073  `json:"1"`
	A    struct{} `json:"naïve"`
	Prev Z1
}

type G073 struct {
	K     map[uint64]NF `json:"with space,omitempty"`
	X     NF
	NameX jscandec.Number `json:"longfieldnamenumber"`
}

type G071E struct {
	ID *uint64
	D  struct {
		K map[string]G073E `json:",string"`
		H NSl
		B map[string]G073E
	} `json:"-,"`
	Kids []byte `json:",string"`
}

type G072E struct {
	Name struct {
		Ünï NU8       `json:"k,omitempty,string"`
		Val [2]*G073E `json:"with space,omitempty"`
	}
	G    *[]G073E `json:"1"`
	A    struct{} `json:"naïve"`
	Prev Z1
}

type G073E struct {
	K     map[uint64]NF `json:"with space,omitempty"`
	X     NF
	NameX json.Number `json:"longfieldnamenumber"`
}

type G074 struct {
	B     []G074
	NameX []G074          `json:"s,string"`
	H     jscandec.Number `json:"value"`
	Prev  struct {
		Ünï [2]*map[string]G074
	}
	X *G074
}

type G074E struct {
	B     []G074E
	NameX []G074E     `json:"s,string"`
	H     json.Number `json:"value"`
	Prev  struct {
		Ünï [2]*map[string]G074E
	}
	X *G074E
}

type G075 struct {
	LongFieldNameNumber1 NF
	E                    int32
	Ünï                  []*G075
	X                    bool
}

type G076 struct {
	F int32 `json:"aa,omitempty"`
	E struct {
		ID Point
		Y  **G076
	} `json:"a,omitempty"`
}

type G077 struct {
	Prev map[int]*map[string]G077
	E    struct {
		Name  map[int8]int32
		NameX []int16
		C     any
	} `json:",string"`
	A [][]G078
	X *map[string]G078
}

type G078 struct {
	NamE *[]G078
	K    any     `json:"-,"`
	Z    *[]G078 `json:"-,"`
	ID   map[string]G077
}

type G079 struct {
	Z  NI       `json:"ſ"`
	B  [2]*G079 `json:"-,"`
	Id map[string]*G079
}

type G080 struct {
	Val  **jscandec.Number `json:"k,omitempty"`
	NamE *[]bool           `json:"vAlue"`
	K    **G080
	J    *string
	Name int64
}

type G079E struct {
	Z  NI        `json:"ſ"`
	B  [2]*G079E `json:"-,"`
	Id map[string]*G079E
}

type G080E struct {
	Val  **json.Number `json:"k,omitempty"`
	NamE *[]bool       `json:"vAlue"`
	K    **G080E
	J    *string
	Name int64
}

type G081 struct {
	F                    [][]G082 `json:"with space"`
	E                    *NA
	G                    [5]map[string]G082
	LongFieldNameNumber1 Point
}

type G082 struct {
	Id                    map[NI]any
	longFieldNameNumber2_ bool
	E                     float64          `json:"ab"`
	Ünï                   *map[string]G082 `json:"naïve,omitempty"`
	S                     *uint32          `json:"vAlue,omitempty"`
}

type G083 struct {
	Y    []*G083
	Next string
	Name map[uintptr]int16 `json:",string"`
}

type G084 struct {
	NamE NM
	Y    *map[string]G085 `json:"m"`
}

type G085 struct {
	Prev jscandec.Number `json:"ab,omitempty"`
	K    any
	Ünï  [][]G085
}

type G086 struct {
	Value *[1][]G086 `json:"1,omitempty"`
	D     uint64     `json:",string"`
	B     *NSS
	A     []*G086 `json:"m"`
}

type G084E struct {
	NamE NM
	Y    *map[string]G085E `json:"m"`
}

type G085E struct {
	Prev json.Number `json:"ab,omitempty"`
	K    any
	Ünï  [][]G085E
}

type G086E struct {
	Value *[1][]G086E `json:"1,omitempty"`
	D     uint64      `json:",string"`
	B     *NSS
	A     []*G086E `json:"m"`
}

type G087 struct {
	I    [][]uint `json:",string"`
	Kids [2]uint8 `json:"longfieldnamenumber"`
	ID   *map[int]G088
}

type G088 struct {
	Val                  uint `json:",string"`
	I                    **G088
	LongFieldNameNumber1 [2]*G088
}

type G089 struct {
	D                    jscandec.Number `json:"ſ"`
	Y                    []Z2            `json:"m"`
	LongFieldNameNumber1 *[]G090         `json:"-"`
}

type G090 struct {
	G *G089
	E []G090 `json:",string"`
}

type G089E struct {
	D                    json.Number `json:"ſ"`
	Y                    []Z2        `json:"m"`
	LongFieldNameNumber1 *[]G090E    `json:"-"`
}

type G090E struct {
	G *G089E
	E []G090E `json:",string"`
}

type G091 struct {
	List []*G091
	E    Point
	Prev struct{} `json:",string"`
	S    *G091    `json:"a"`
	J    int32
}

type G092 struct {
	Name [][]G093
	Prev struct{}
}

type G093 struct {
	A struct {
		Items [][]G093 `json:",string"`
		S     Point    `json:",string"`
		F     NM
		Val   uint64
	} `json:"vAlue"`
	NameX [2]*G094 `json:"ſ"`
	Value *int8
	E     jscandec.Number
	H     [1][]G094
}

type G094 struct {
	E *G092
	S map[string]*G093 `json:"ſ,string"`
	F []map[int]G092   `json:",string"`
}

type G092E struct {
	Name [][]G093E
	Prev struct{}
}

type G093E struct {
	A struct {
		Items [][]G093E `json:",string"`
		S     Point     `json:",string"`
		F     NM
		Val   uint64
	} `json:"vAlue"`
	NameX [2]*G094E `json:"ſ"`
	Value *int8
	E     json.Number
	H     [1][]G094E
}

type G094E struct {
	E *G092E
	S map[string]*G093E `json:"ſ,string"`
	F []map[int]G092E   `json:",string"`
}

type G095 struct {
	Map                  string
	LongFieldNameNumber1 struct{}
	Next                 []*map[string]G096 `json:"a,omitempty"`
}

type G096 struct {
	J     map[string][]G096 `json:"list"`
	NameX uint
	Prev  struct {
		List [1][]G095
	} `json:"with space,string"`
}

type G097 struct {
	J    int32
	Prev []G098          `json:"aa"`
	X    [3]map[NS]Point `json:",string"`
	H    map[int]G097    `json:"naïve"`
}

type G098 struct {
	Z                    [0]map[string]jscandec.Number `json:"$,omitempty"`
	Kids                 *[][2]*G097
	LongFieldNameNumber2 [1][]G097 `json:"1"`
}

type G097E struct {
	J    int32
	Prev []G098E         `json:"aa"`
	X    [3]map[NS]Point `json:",string"`
	H    map[int]G097E   `json:"naïve"`
}

type G098E struct {
	Z                    [0]map[string]json.Number `json:"$,omitempty"`
	Kids                 *[][2]*G097E
	LongFieldNameNumber2 [1][]G097E `json:"1"`
}

type G099 struct {
	D  map[string]G099
	C  *any
	I  *G099
	k_ []map[string]any
}

type G100 struct {
	NamE map[uint]uintptr `json:",string"`
	Prev NI               `json:",string"`
	Y    []G101           `json:"ID"`
	Kids *G100
}

type G101 struct {
	Id   map[string]NU16
	NamE map[uintptr]NSS
	I    [0]**G101 `json:",string"`
}

type G102 struct {
	Items **G103
	List  NAny
	K     []uint8
	Y     [1][]G104 `json:"m"`
}

type G103 struct {
	I float32
	Z struct {
		Id   *map[string]G103
		Val  uint8
		Next NF
	} `json:"ſ,string"`
}

type G104 struct {
	X                    any    `json:"naïve"`
	LongFieldNameNumber1 **G103 `json:"longfieldnamenumber,omitempty"`
	K                    struct {
		E jscandec.Number
	}
}

type G102E struct {
	Items **G103E
	List  NAny
	K     []uint8
	Y     [1][]G104E `json:"m"`
}

type G103E struct {
	I float32
	Z struct {
		Id   *map[string]G103E
		Val  uint8
		Next NF
	} `json:"ſ,string"`
}

type G104E struct {
	X                    any     `json:"naïve"`
	LongFieldNameNumber1 **G103E `json:"longfieldnamenumber,omitempty"`
	K                    struct {
		E json.Number
	}
}

type G105 struct {
	G     [][0]*G105
	Value jscandec.Number `json:"naïve,omitempty"`
	X     map[string][]G105
	NamE  *struct{} `json:"x-y"`
}

type G105E struct {
	G     [][0]*G105E
	Value json.Number `json:"naïve,omitempty"`
	X     map[string][]G105E
	NamE  *struct{} `json:"x-y"`
}

type G106 struct {
	K [2]*G107 `json:",string"`
	A any      `json:"-"`
	F map[uint64][3]int32
}

type G107 struct {
	I   *[][2]*G107
	Ünï Point `json:",string"`
	Map []map[string]G106
}

type G108 struct {
	Y struct {
		Kids struct {
			J     Point
			Map   NSl
			NameX uintptr
			Ünï   []G109
		}
	}
	Val   uint16 `json:"value"`
	Items map[NS]NS
	H     map[uintptr]map[uint8]bool `json:"$"`
	C     [][]map[string]G108
}

type G109 struct {
	X []any    `json:",string"`
	H [][]G108 `json:"-"`
}

type G110 struct {
	Val   []*G110           `json:"with space"`
	Kids  []map[string]G110 `json:"-,,string"`
	D     []*G110           `json:"ab"`
	Value struct {
		ID    []map[string]G111 `json:"-"`
		K     []*G112
		NameX [2]*G110 `json:"vAlue,omitempty,string"`
	} `json:"-,"`
	Ünï NMS `json:",string"`
}

type G111 struct {
	LongFieldNameNumber2 []G110
	K                    *uint32
	H                    map[uint8]bool
	B                    map[uint16]uint `json:",string"`
}

type G112 struct {
	I  *G110
	B  *uint64
	ID float64 `json:"k"`
}

type G113 struct {
	X    *map[string]*G113
	List map[string][][]map[string]G113 `json:"s,omitempty"`
}

type G114 struct {
	K                    []*NMS
	x_                   **G114
	D                    uint64           `json:"list"`
	Value                []G114           `json:",string"`
	LongFieldNameNumber1 map[string]*G114 `json:"name"`
}

type G115 struct {
	NameX *G115
	name_ uint32
	Kids  *map[int]G114
}

type G116 struct {
	E     [5]map[string]Z0 `json:"m,omitempty,string"`
	NameX [][]G116         `json:"日本,string"`
	Prev  [2]*G116
}

type G117 struct {
	Next map[int]G117 `json:"ab"`
	K    any          `json:",string"`
}

type G118 struct {
	H     map[int8]map[int]G118
	Items *G117
}

type G119 struct {
	I    uint32
	ID   map[int]G120 `json:"id"`
	Next []*uint64
	Name uint16
}

type G120 struct {
	NamE                 uintptr
	F                    *G119            `json:"value,omitempty"`
	LongFieldNameNumber2 map[uint8]uint64 `json:"list,omitempty"`
	D                    struct {
		B map[string]G120 `json:",string"`
	}
	A []G119 `json:"longfieldnamenumber"`
}

type G121 struct {
	ID   int32 "json:\"bad\\\\name\""
	List *G121 `json:"value,omitempty"`
}

type G122 struct {
	Y    [][]G122
	val_ map[int32][0]int64
}

type G123 struct {
	Prev []*G123          `json:",string"`
	I    *map[string]G123 `json:"x-y"`
}

type G124 struct {
	Ünï uint8 `json:"$,omitempty,string"`
	ID  **G124
}

type G125 []any

type G126 []struct {
	A    *[5]uint16
	Next *bool `json:"x_y"`
	Val  *map[NI]float64
	Id   [5][0]uint64
}

type G127 [][][1]UT

type G128 map[UX]jscandec.Number

type G128E map[UX]json.Number

type G129 struct {
	Prev  *[][]Point
	b_    uintptr
	Id    NSl
	Value uintptr `json:"x-y"`
	G     UV
	iD_   *UJ
	Y     jscandec.Number
	Items struct {
		A   [2]UL
		Ünï map[int32][]int8
		E   *[]UL
	}
	NameX []*[1]UB
	Next  *map[uint64]UV  `json:"with space"`
	Z     jscandec.Number `json:"longfieldnamenumber"`
	X     struct {
		F    map[uint16]map[uint8]int16 `json:",string"`
		List NAny                       `json:"list"`
		NamE **NF                       `json:"vAlue,omitempty"`
		ID   [][]uintptr                `json:"-"`
	} `json:"naïve,string"`
}

type G129E struct {
	Prev  *[][]Point
	b_    uintptr
	Id    NSl
	Value uintptr `json:"x-y"`
	G     UV
	iD_   *UJ
	Y     json.Number
	Items struct {
		A   [2]UL
		Ünï map[int32][]int8
		E   *[]UL
	}
	NameX []*[1]UB
	Next  *map[uint64]UV `json:"with space"`
	Z     json.Number    `json:"longfieldnamenumber"`
	X     struct {
		F    map[uint16]map[uint8]int16 `json:",string"`
		List NAny                       `json:"list"`
		NamE **NF                       `json:"vAlue,omitempty"`
		ID   [][]uintptr                `json:"-"`
	} `json:"naïve,string"`
}

type G130 struct {
	H     UB `json:"ab"`
	Name  any
	X     UL `json:"日本,omitempty"`
	C     any
	NameX [1]Point `json:"-"`
	Y     UL       `json:"k"`
}

type G131 struct {
	Kids int16 `json:"x-y,omitempty"`
	D    []*map[NS]US
	C    int64 `json:"vAlue,omitempty"`
	Ünï  []*struct {
		Value                float32 `json:"name,omitempty,string"`
		LongFieldNameNumber2 UB
	}
}

type G132 struct {
	E [0]float64 `json:"x_y,string"`
	J *map[uint]NF
}

type G133 struct {
	G int32 `json:"k"`
	S int
	F UT
}

type G134 *map[string]map[UK][]int

type G135 struct {
	e_    *float32
	Items NM                               "json:\"bad\\\\name\""
	J     map[int16]map[UK]map[uint8]int32 `json:"k"`
	ID    map[UX]map[NI8]*US
	H     *float64
	G     struct {
		X     US
		Val   uint64            `json:"naïve"`
		D     [3][]float64      `json:"k"`
		Items map[uintptr][5]UB `json:"s"`
	} `json:"-"`
	Prev float64
	Map  *[2]any
	Id   NB
	B    US
	S    struct {
		I map[UK][2]UE
	} `json:"日本"`
	Next float32
}

type G136 struct {
	longFieldNameNumber1_ [][]jscandec.Number
	S                     []UT           `json:"list,omitempty"`
	Val                   *uint64        `json:"ID"`
	Map                   NF             `json:",string"`
	A                     *map[string]UI `json:"x_y"`
}

type G136E struct {
	longFieldNameNumber1_ [][]json.Number
	S                     []UT           `json:"list,omitempty"`
	Val                   *uint64        `json:"ID"`
	Map                   NF             `json:",string"`
	A                     *map[string]UI `json:"x_y"`
}

type G137 *[]struct {
	K     *UT
	NameX *UB
	I     *float32
	Map   []UJ
}

type G138 struct {
	Prev []NM
	Y    US
	B    map[NS][][]float64
	Next []jscandec.Number `json:"日本"`
	List []UI
	H    [][][]NS
	f_   []Point
	Id   map[int16]bool
	A    map[int8]UV
}

type G138E struct {
	Prev []NM
	Y    US
	B    map[NS][][]float64
	Next []json.Number `json:"日本"`
	List []UI
	H    [][][]NS
	f_   []Point
	Id   map[int16]bool
	A    map[int8]UV
}

type G139 struct {
	nameX_ US
	Value  uint16 `json:"ID,omitempty"`
}

type G140 struct {
	I     *NI
	B     any
	NameX NU8 `json:",string"`
}

type G141 map[string]map[US]map[uint16]Point

type G141E map[string]map[US]map[uint16]Point

type G142 struct {
	Y     [][]int
	I     [][]bool `json:",string"`
	S     []Point  `json:"m"`
	Value UT       `json:"vAlue,omitempty"`
	J     NS       `json:"日本,omitempty"`
	ID    *UL
	K     [2]map[uint8][5]UB
	Ünï   [][]map[uint]uint
	Id    UL
}

type G143 struct {
	NameX                map[string]uint8 `json:",string"`
	namE_                [3]UV
	F                    *UI
	LongFieldNameNumber2 Point `json:"list"`
	Items                NAny
	Map                  map[uint8][]int32 `json:",string"`
}

type G144 struct {
	Prev struct {
		Y struct {
			E struct {
				Prev uint8
				J    float32
			} `json:",string"`
			Map  [3]any `json:"-,"`
			Prev []int32
			G    uint16 `json:"s,omitempty"`
		} `json:"-,"`
		LongFieldNameNumber2 Point `json:"list"`
		Ünï                  []UV
	}
	G     [][]int32               `json:"a"`
	NameX map[uint64]map[UX]*NAny `json:",string"`
	Value jscandec.Number
	Z     struct {
		B []*US `json:"name,string"`
	} `json:"ID"`
	NamE map[string][0]float32
	I    struct {
		NamE struct {
			F int8 "json:\"bad\\\\name\""
			H []any
			B map[UKB]float64
		}
	}
	Items any `json:",string"`
	Next  UJ
}

type G144E struct {
	Prev struct {
		Y struct {
			E struct {
				Prev uint8
				J    float32
			} `json:",string"`
			Map  [3]any `json:"-,"`
			Prev []int32
			G    uint16 `json:"s,omitempty"`
		} `json:"-,"`
		LongFieldNameNumber2 Point `json:"list"`
		Ünï                  []UV
	}
	G     [][]int32               `json:"a"`
	NameX map[uint64]map[UX]*NAny `json:",string"`
	Value json.Number
	Z     struct {
		B []*US `json:"name,string"`
	} `json:"ID"`
	NamE map[string][0]float32
	I    struct {
		NamE struct {
			F int8 "json:\"bad\\\\name\""
			H []any
			B map[UKB]float64
		}
	}
	Items any `json:",string"`
	Next  UJ
}

type G145 [][]NA

type G146 struct {
	Y                    UX
	Id                   UV
	LongFieldNameNumber2 map[US][][0]int8
	Prev                 [2][3][0]NA
	D                    any
	Val                  struct {
		Kids int8
		NamE any `json:"vAlue"`
		Prev map[int32]string
		J    UE
	}
	Map  []UT
	H    []jscandec.Number
	Ünï  []int `json:"k"`
	List uint8
	Next UL
	K    map[int][]string
}

type G146E struct {
	Y                    UX
	Id                   UV
	LongFieldNameNumber2 map[US][][0]int8
	Prev                 [2][3][0]NA
	D                    any
	Val                  struct {
		Kids int8
		NamE any `json:"vAlue"`
		Prev map[int32]string
		J    UE
	}
	Map  []UT
	H    []json.Number
	Ünï  []int `json:"k"`
	List uint8
	Next UL
	K    map[int][]string
}

type G147 struct {
	C map[UKB]uint `json:",string"`
}

type G148 struct {
	A                    *[2][2]UE
	Next                 [2]map[NI][1]UX `json:",string"`
	C                    float64         `json:"x-y"`
	j_                   Point
	H                    [][2][]UV `json:"m,string"`
	LongFieldNameNumber1 map[UK][1][]UT
	S                    UT `json:"s"`
	Id                   *string
	ID                   struct {
		K                    []float64
		LongFieldNameNumber1 [5]map[US]Point `json:",string"`
	} `json:"-"`
}

type G149 []int64

type G150 struct {
	NameX *uint8
	Prev  []int16 `json:",string"`
	Items [][1]US `json:"value"`
}

type G151 struct {
	Map []*map[NS]UB `json:",string"`
	F   struct {
		NameX [5][]byte `json:"x-y,string"`
	} `json:",string"`
	Y    [3]any
	List *any
	C    map[UX][1]map[string]uint64 "json:\"bad\\\\name\""
}

type G152 struct {
	Ünï *struct {
		A                    uint16 `json:"-"`
		Val                  int    `json:"x-y"`
		LongFieldNameNumber2 Point
	} `json:"aa"`
	C    map[NS]*UE
	Val  *UL `json:"naïve"`
	I    *map[int64][]Point
	Name struct {
		List map[UKB]uint64
	}
	Y struct {
		Value [2]struct {
			Name  UI  `json:"naïve"`
			NameX US  `json:"$"`
			ID    any `json:",string"`
		} `json:",string"`
	} `json:",string"`
}

type G153 struct {
	Y map[string][3]UV
	S NM `json:",string"`
	A struct {
		LongFieldNameNumber2 UV `json:"k,omitempty"`
		Map                  map[uintptr]NU8
		I                    UB `json:"id"`
		Next                 uint
	}
	J []struct {
		F    struct{} `json:"$,omitempty"`
		Kids []UL
		Next uint8
	} `json:"-"`
	NamE map[int][]float32 `json:"ſ,omitempty"`
	List [3]map[UKB]*struct{}
	Name NSS
	X    []UJ
	B    *[]UX `json:"1,omitempty"`
}

type G154 [2][]uint16

type G155 struct {
	Kids [][]byte `json:"m"`
}

type G156 struct {
	Val                  *[]map[uintptr]string
	Map                  UX
	List                 any   `json:"with space,omitempty"`
	I                    int32 `json:",string"`
	Z                    any
	NameX                *NAny `json:"longfieldnamenumber"`
	Y                    UT
	k_                   uintptr
	F                    [][][0]UX        `json:",string"`
	LongFieldNameNumber2 any              `json:",string"`
	NamE                 map[uintptr][]UJ `json:",string"`
	Items                *int             "json:\"bad\\\\name\""
}

type G157 struct {
	Val   float64 `json:"aa"`
	Value [5][]UI `json:"value,omitempty"`
	NameX UI      `json:"vAlue"`
	ID    []*[]Point
}

type G158 map[uint8][]UV

type G159 struct {
	X                    *int16 `json:"x-y"`
	G                    Point
	LongFieldNameNumber1 []Point
	Prev                 map[UKB]struct {
		S    Point `json:",string"`
		Ünï  []NSl
		Kids struct {
			Next bool   `json:"-"`
			List uint16 `json:"-,"`
		} `json:"k,string"`
		Next []UV `json:"-"`
	}
	List  UT `json:"name"`
	Next  *[2][]UT
	NameX struct {
		NameX string `json:"id"`
		Name  NMS
		Items []byte
		G     [3][]NI `json:"a"`
	}
	A [2]struct {
		iD_  []NU8
		List []NMS `json:"-"`
	}
	Items struct {
		Ünï UX
	} `json:"$"`
	I     map[UK][]UJ
	Value map[uint64]**Point
	D     map[uintptr]map[int][1]UJ
}

type G160 struct {
	G *struct {
		Value int `json:"vAlue,omitempty"`
		Id    map[int64]uint32
	}
	D any
}

type G161 map[int32][0]struct {
	E   []UJ `json:",string"`
	Val []byte
	S   int16 `json:"-,"`
}

type G162 struct {
	I [][]*Point
}

type G163 [0]map[int32]**UL

type G164 struct {
	S                    []int `json:"k,omitempty"`
	Y                    NI8
	ID                   Point `json:"s"`
	LongFieldNameNumber2 any   `json:"a"`
	J                    [1]UT
	I                    *struct {
		B   *UL
		Y   [0]float64 `json:",string"`
		Val struct {
			S NF `json:",string"`
		} "json:\"bad\\\\name\""
	}
	List                 jscandec.Number
	LongFieldNameNumber1 any `json:"ID"`
	C                    UI
	H                    map[UK]*map[int]NS `json:",string"`
	Map                  [1][]*UV
	B                    [2][][]UB `json:"id,omitempty,string"`
}

type G164E struct {
	S                    []int `json:"k,omitempty"`
	Y                    NI8
	ID                   Point `json:"s"`
	LongFieldNameNumber2 any   `json:"a"`
	J                    [1]UT
	I                    *struct {
		B   *UL
		Y   [0]float64 `json:",string"`
		Val struct {
			S NF `json:",string"`
		} "json:\"bad\\\\name\""
	}
	List                 json.Number
	LongFieldNameNumber1 any `json:"ID"`
	C                    UI
	H                    map[UK]*map[int]NS `json:",string"`
	Map                  [1][]*UV
	B                    [2][][]UB `json:"id,omitempty,string"`
}

type G165 struct {
	Z struct {
		g_   [2]map[int]G165
		NamE []UL `json:"longfieldnamenumber,omitempty"`
	} `json:"list"`
	LongFieldNameNumber1 map[int8]map[int64]UV `json:"naïve"`
}

type G166 struct {
	LongFieldNameNumber2 *G167
	Name                 [2]*G166            `json:"naïve,omitempty"`
	H                    map[uintptr]uintptr `json:"$,omitempty,string"`
}

type G167 struct {
	Map  UB
	J    *G167 `json:"1"`
	Ünï  []float64
	NamE []string `json:",string"`
	E    map[string][]G166
}

type G168 struct {
	Val struct {
		A uint8 `json:"a"`
	} `json:"x-y,omitempty,string"`
	E [2]UB "json:\"bad\\\\name\""
}

type G169 struct {
	H  map[int]G170 `json:"日本,string"`
	x_ [3]*map[string]G169
}

type G170 struct {
	Kids *map[string]G170 `json:"-"`
	ID   US
	F    struct {
		i_                   any
		K                    [2]*G169 `json:"list"`
		LongFieldNameNumber1 *map[string]G169
	} `json:"-"`
	Val struct {
		Val UI
		D   NU16 `json:"aa"`
	} `json:"with space"`
	G UX
}

type G171 struct {
	C                    uint16 `json:",string"`
	G                    uint64
	LongFieldNameNumber1 any
	Z                    **G171
}

type G172 struct {
	Val  [][3]int `json:"-,"`
	NamE [1]int   `json:",string"`
	B    []string `json:"name,omitempty"`
	Name uint32   `json:"日本"`
	Z    uint8
}

type G173 struct {
	Prev [2]*G173
	Ünï  *UV
}

type G174 struct {
	Z []*UV      `json:"ID"`
	K [][]uint16 `json:"longfieldnamenumber"`
	S map[int]G175
}

type G175 struct {
	k_ UB
	D  []map[string]G174 `json:"x-y"`
}

type G176 struct {
	Name  []*[]G176 `json:"$,omitempty,string"`
	E     UJ
	G     map[string]*G176 `json:"m"`
	next_ map[int8]struct {
		ID bool `json:",string"`
		X  UX
		D  uintptr `json:",string"`
	}
	Id map[string][]G176 "json:\"bad\\\\name\""
}

type G177 struct {
	ID  []G178 `json:"id"`
	Map [][][1][]G177
	G   *[]G178
}

type G178 struct {
	Y *[]G177
	J []*G178
}

type G179 struct {
	F     []byte `json:"naïve,omitempty,string"`
	D     []**G179
	NameX *[]G179           `json:"x-y"`
	G     map[string]uint32 `json:",string"`
	Prev  struct {
		D   []*G179  `json:",string"`
		X   uint64   `json:"1"`
		ID  []uint64 `json:"s,omitempty"`
		Map map[uint64]uint64
	}
}

type G180 struct {
	Y  float32
	ID uint64 `json:",string"`
}

type G181 struct {
	LongFieldNameNumber2 *map[string]G181
	D                    map[int]G181
	Map                  []*map[string]G181
	I                    map[string][]NF `json:"ID,omitempty,string"`
}

type G182 struct {
	B  []G184
	Id []map[string]G182 `json:"ab"`
}

type G183 struct {
	G [2]*G184
	H map[UKB]*G182 `json:"value"`
}

type G184 struct {
	K   [2]US
	J   map[int8]UJ
	Val UX
}

type G185 struct {
	Name  [1][]G186 `json:"list"`
	NameX [5][1]UV
	B     any
}

type G186 struct {
	B   jscandec.Number
	Val map[int]G186 `json:",string"`
}

type G185E struct {
	Name  [1][]G186E `json:"list"`
	NameX [5][1]UV
	B     any
}

type G186E struct {
	B   json.Number
	Val map[int]G186E `json:",string"`
}

type G187 struct {
	List  [2]*G188 `json:",string"`
	Value map[string]*G188
}

type G188 struct {
	Id   []G188
	Next UI
	Y    struct {
		Next []map[string]*G188
		Name []UV `json:"name,omitempty"`
	} `json:"value"`
	G [][]G188
}

type G189 struct {
	ID [2]UL
	Z  NMS
}

type G190 struct {
	F []map[uint32]Point `json:"m"`
	E struct {
		Kids map[uint16][2]*G190
		Name map[UX]*G191    `json:",string"`
		ID   jscandec.Number `json:"with space"`
		i_   []map[string]*G190
	}
	s_    []map[string]G191
	NamE  NAny       `json:"-,"`
	Items [][2]*G191 `json:"s,string"`
}

type G191 struct {
	A    map[NS]map[string]int8
	Y    []UT
	List *int8
	H    [1][]G190
	G    int64
}

type G190E struct {
	F []map[uint32]Point `json:"m"`
	E struct {
		Kids map[uint16][2]*G190E
		Name map[UX]*G191E `json:",string"`
		ID   json.Number   `json:"with space"`
		i_   []map[string]*G190E
	}
	s_    []map[string]G191E
	NamE  NAny        `json:"-,"`
	Items [][2]*G191E `json:"s,string"`
}

type G191E struct {
	A    map[NS]map[string]int8
	Y    []UT
	List *int8
	H    [1][]G190E
	G    int64
}

type G192 struct {
	Y    **G193
	Z    **G193           `json:"s,omitempty"`
	H    []*G192          `json:"1"`
	Kids map[string]*G193 `json:"vAlue"`
}

type G193 struct {
	Ünï                  NM `json:",string"`
	LongFieldNameNumber2 struct {
		S []int8 `json:"x_y"`
	}
}

type G194 struct {
	D    []map[string]G194 `json:",string"`
	Ünï  struct{}
	Name [2]*G194 `json:"vAlue"`
	NamE uint16
}

type G195 struct {
	Prev []struct {
		Y *map[string]G195 `json:"with space"`
	} `json:",string"`
	Ünï map[string][]G194
}

type G196 struct {
	LongFieldNameNumber2 []G198
	H                    []int32
}

type G197 struct {
	I                    [0][]G196 `json:"x-y"`
	Val                  []UT      `json:",string"`
	LongFieldNameNumber2 map[string][]G198
	Kids                 []*G197
	Prev                 *G198
}

type G198 struct {
	List  [][1][]G198 `json:"id"`
	Value map[string][]G197
	Y     UL
	Val   struct {
		J    any     `json:"vAlue"`
		Next UT      `json:"日本"`
		C    float32 `json:",string"`
		F    map[string]*G197
	}
}

type G199 struct {
	List *map[string]G200
	E    *NSS
	ID   []G200 `json:"ID"`
	Ünï  UL
}

type G200 struct {
	Prev                 map[int32][3][]G200 `json:"1"`
	LongFieldNameNumber2 UE
	Val                  NI
	iD_                  uint64
}

type G201 struct {
	C                    map[UK]**G201 `json:"list"`
	D                    NB
	Z                    []G201
	LongFieldNameNumber1 UT
	ID                   []map[string]G201 `json:"longfieldnamenumber,omitempty"`
}

type G202 struct {
	Value *map[string]G202
	D     [][]*G203
	K     struct {
		NamE jscandec.Number `json:"name"`
		Prev [][]G203
		Ünï  UJ `json:"s"`
		F    UV
	} `json:"ID"`
	X map[int]G204
}

type G203 struct {
	I                     float32 `json:"k,string"`
	longFieldNameNumber2_ *uint16
}

type G204 struct {
	B     *[]G202
	NameX []G203
	Kids  []float64 `json:"-"`
}

type G202E struct {
	Value *map[string]G202E
	D     [][]*G203E
	K     struct {
		NamE json.Number `json:"name"`
		Prev [][]G203E
		Ünï  UJ `json:"s"`
		F    UV
	} `json:"ID"`
	X map[int]G204E
}

type G203E struct {
	I                     float32 `json:"k,string"`
	longFieldNameNumber2_ *uint16
}

type G204E struct {
	B     *[]G202E
	NameX []G203E
	Kids  []float64 `json:"-"`
}

type G205 struct {
	LongFieldNameNumber1 [][]G205
	C                    *bool `json:"ab"`
}

type G206 struct {
	List *US
	K    struct {
		Kids []UX `json:"ID,string"`
	} `json:"-"`
	Kids []**G205
	Z    []uint16 `json:"m"`
	G    [0]*G205 `json:"aa,omitempty"`
}

type G207 struct {
	J *struct {
		ID jscandec.Number
	} `json:"-"`
	Id   map[string][]G207      `json:",string"`
	B    map[int32]map[UX]*G207 `json:",string"`
	Kids [5]int                 `json:",string"`
}

type G208 struct {
	H  [2]*G208 `json:",string"`
	G  []G207   `json:"id,string"`
	ID map[uintptr][2]*G207
}

type G207E struct {
	J *struct {
		ID json.Number
	} `json:"-"`
	Id   map[string][]G207E      `json:",string"`
	B    map[int32]map[UX]*G207E `json:",string"`
	Kids [5]int                  `json:",string"`
}

type G208E struct {
	H  [2]*G208E `json:",string"`
	G  []G207E   `json:"id,string"`
	ID map[uintptr][2]*G207E
}

type W70 struct {
	F0  int            `json:"f0"`
	F1  []int8         `json:"f1"`
	F2  bool           `json:"f2"`
	F3  map[string]int `json:"f3"`
	F4  uint16         `json:"f4"`
	F5  *string        `json:"f5"`
	F6  *int           `json:"f6"`
	F7  string         `json:"f7"`
	F8  any            `json:"f8"`
	F9  int8           `json:"f9"`
	F10 uint8          `json:"f10"`
	F11 float64        `json:"f11"`
	F12 int            `json:"f12"`
	F13 []int8         `json:"f13"`
	F14 bool           `json:"f14"`
	F15 map[string]int `json:"f15"`
	F16 uint16         `json:"f16"`
	F17 *string        `json:"f17"`
	F18 *int           `json:"f18"`
	F19 string         `json:"f19"`
	F20 any            `json:"f20"`
	F21 int8           `json:"f21"`
	F22 uint8          `json:"f22"`
	F23 float64        `json:"f23"`
	F24 int            `json:"f24"`
	F25 []int8         `json:"f25"`
	F26 bool           `json:"f26"`
	F27 map[string]int `json:"f27"`
	F28 uint16         `json:"f28"`
	F29 *string        `json:"f29"`
	F30 *int           `json:"f30"`
	F31 string         `json:"f31"`
	F32 any            `json:"f32"`
	F33 int8           `json:"f33"`
	F34 uint8          `json:"f34"`
	F35 float64        `json:"f35"`
	F36 int            `json:"f36"`
	F37 []int8         `json:"f37"`
	F38 bool           `json:"f38"`
	F39 map[string]int `json:"f39"`
	F40 uint16         `json:"f40"`
	F41 *string        `json:"f41"`
	F42 *int           `json:"f42"`
	F43 string         `json:"f43"`
	F44 any            `json:"f44"`
	F45 int8           `json:"f45"`
	F46 uint8          `json:"f46"`
	F47 float64        `json:"f47"`
	F48 int            `json:"f48"`
	F49 []int8         `json:"f49"`
	F50 bool           `json:"f50"`
	F51 map[string]int `json:"f51"`
	F52 uint16         `json:"f52"`
	F53 *string        `json:"f53"`
	F54 *int           `json:"f54"`
	F55 string         `json:"f55"`
	F56 any            `json:"f56"`
	F57 int8           `json:"f57"`
	F58 uint8          `json:"f58"`
	F59 float64        `json:"f59"`
	F60 int            `json:"f60"`
	F61 []int8         `json:"f61"`
	F62 bool           `json:"f62"`
	F63 map[string]int `json:"f63"`
	F64 uint16         `json:"f64"`
	F65 *string        `json:"f65"`
	F66 *int           `json:"f66"`
	F67 string         `json:"f67"`
	F68 any            `json:"f68"`
	F69 int8           `json:"f69"`
}

type W66 struct {
	F0   int
	F1   float64
	F2   uint8
	F3   int8
	F4   any
	F5   string
	F6   *int
	F7   *string
	F8   uint16
	F9   map[string]int
	F10  bool
	F11  []int8
	F12  int
	F13  float64
	F14  uint8
	F15  int8
	F16  any
	F17  string
	F18  *int
	F19  *string
	F20  uint16
	F21  map[string]int
	F22  bool
	F23  []int8
	F24  int
	F25  float64
	F26  uint8
	F27  int8
	F28  any
	F29  string
	F30  *int
	F31  *string
	F32  uint16
	F33  map[string]int
	F34  bool
	F35  []int8
	F36  int
	F37  float64
	F38  uint8
	F39  int8
	F40  any
	F41  string
	F42  *int
	F43  *string
	F44  uint16
	F45  map[string]int
	F46  bool
	F47  []int8
	Key  int
	KEY  string
	KeY  bool
	Sos  int8
	SOS  uint16
	SoS  float64
	Name *int
	NaMe []int8
	NAME any
	K0   int `json:"key"`
	K1   int `json:"Key"`
	K2   int `json:"sos"`
	K3   int `json:"ſos"`
	K4   int `json:"name"`
	K5   int `json:"Ünï"`
	K6   int `json:"ünï"`
	K7   int `json:"ǆ"`
	K8   int `json:"ǅ"`
}

type W300 struct {
	F0   int16
	F1   string
	F2   bool
	F3   int16
	F4   string
	F5   bool
	F6   int16
	F7   string
	F8   bool
	F9   int16
	F10  string
	F11  bool
	F12  int16
	F13  string
	F14  bool
	F15  int16
	F16  string
	F17  bool
	F18  int16
	F19  string
	F20  bool
	F21  int16
	F22  string
	F23  bool
	F24  int16
	F25  string
	F26  bool
	F27  int16
	F28  string
	F29  bool
	F30  int16
	F31  string
	F32  bool
	F33  int16
	F34  string
	F35  bool
	F36  int16
	F37  string
	F38  bool
	F39  int16
	F40  string
	F41  bool
	F42  int16
	F43  string
	F44  bool
	F45  int16
	F46  string
	F47  bool
	F48  int16
	F49  string
	F50  bool
	F51  int16
	F52  string
	F53  bool
	F54  int16
	F55  string
	F56  bool
	F57  int16
	F58  string
	F59  bool
	F60  int16
	F61  string
	F62  bool
	F63  int16
	F64  string
	F65  bool
	F66  int16
	F67  string
	F68  bool
	F69  int16
	F70  string
	F71  bool
	F72  int16
	F73  string
	F74  bool
	F75  int16
	F76  string
	F77  bool
	F78  int16
	F79  string
	F80  bool
	F81  int16
	F82  string
	F83  bool
	F84  int16
	F85  string
	F86  bool
	F87  int16
	F88  string
	F89  bool
	F90  int16
	F91  string
	F92  bool
	F93  int16
	F94  string
	F95  bool
	F96  int16
	F97  string
	F98  bool
	F99  int16
	F100 string
	F101 bool
	F102 int16
	F103 string
	F104 bool
	F105 int16
	F106 string
	F107 bool
	F108 int16
	F109 string
	F110 bool
	F111 int16
	F112 string
	F113 bool
	F114 int16
	F115 string
	F116 bool
	F117 int16
	F118 string
	F119 bool
	F120 int16
	F121 string
	F122 bool
	F123 int16
	F124 string
	F125 bool
	F126 int16
	F127 string
	F128 bool
	F129 int16
	F130 string
	F131 bool
	F132 int16
	F133 string
	F134 bool
	F135 int16
	F136 string
	F137 bool
	F138 int16
	F139 string
	F140 bool
	F141 int16
	F142 string
	F143 bool
	F144 int16
	F145 string
	F146 bool
	F147 int16
	F148 string
	F149 bool
	F150 int16
	F151 string
	F152 bool
	F153 int16
	F154 string
	F155 bool
	F156 int16
	F157 string
	F158 bool
	F159 int16
	F160 string
	F161 bool
	F162 int16
	F163 string
	F164 bool
	F165 int16
	F166 string
	F167 bool
	F168 int16
	F169 string
	F170 bool
	F171 int16
	F172 string
	F173 bool
	F174 int16
	F175 string
	F176 bool
	F177 int16
	F178 string
	F179 bool
	F180 int16
	F181 string
	F182 bool
	F183 int16
	F184 string
	F185 bool
	F186 int16
	F187 string
	F188 bool
	F189 int16
	F190 string
	F191 bool
	F192 int16
	F193 string
	F194 bool
	F195 int16
	F196 string
	F197 bool
	F198 int16
	F199 string
	F200 bool
	F201 int16
	F202 string
	F203 bool
	F204 int16
	F205 string
	F206 bool
	F207 int16
	F208 string
	F209 bool
	F210 int16
	F211 string
	F212 bool
	F213 int16
	F214 string
	F215 bool
	F216 int16
	F217 string
	F218 bool
	F219 int16
	F220 string
	F221 bool
	F222 int16
	F223 string
	F224 bool
	F225 int16
	F226 string
	F227 bool
	F228 int16
	F229 string
	F230 bool
	F231 int16
	F232 string
	F233 bool
	F234 int16
	F235 string
	F236 bool
	F237 int16
	F238 string
	F239 bool
	F240 int16
	F241 string
	F242 bool
	F243 int16
	F244 string
	F245 bool
	F246 int16
	F247 string
	F248 bool
	F249 int16
	F250 string
	F251 bool
	F252 int16
	F253 string
	F254 bool
	F255 int16
	F256 string
	F257 bool
	F258 int16
	F259 string
	F260 bool
	F261 int16
	F262 string
	F263 bool
	F264 int16
	F265 string
	F266 bool
	F267 int16
	F268 string
	F269 bool
	F270 int16
	F271 string
	F272 bool
	F273 int16
	F274 string
	F275 bool
	F276 int16
	F277 string
	F278 bool
	F279 int16
	F280 string
	F281 bool
	F282 int16
	F283 string
	F284 bool
	F285 int16
	F286 string
	F287 bool
	F288 int16
	F289 string
	F290 bool
	F291 int16
	F292 string
	F293 bool
	F294 int16
	F295 string
	F296 bool
	F297 int16
	F298 string
	F299 bool
}

type WNest struct {
	F0 struct {
		X0  int8
		X1  string
		X2  []uint8
		X3  *bool
		X4  int8
		X5  string
		X6  []uint8
		X7  *bool
		X8  int8
		X9  string
		X10 []uint8
		X11 *bool
		X12 int8
		X13 string
	}
	F1 struct {
		X0  string
		X1  []uint8
		X2  *bool
		X3  int8
		X4  string
		X5  []uint8
		X6  *bool
		X7  int8
		X8  string
		X9  []uint8
		X10 *bool
		X11 int8
		X12 string
		X13 []uint8
	}
	F2 struct {
		X0  []uint8
		X1  *bool
		X2  int8
		X3  string
		X4  []uint8
		X5  *bool
		X6  int8
		X7  string
		X8  []uint8
		X9  *bool
		X10 int8
		X11 string
		X12 []uint8
		X13 *bool
	}
	F3 struct {
		X0  *bool
		X1  int8
		X2  string
		X3  []uint8
		X4  *bool
		X5  int8
		X6  string
		X7  []uint8
		X8  *bool
		X9  int8
		X10 string
		X11 []uint8
		X12 *bool
		X13 int8
	}
	F4 struct {
		X0  int8
		X1  string
		X2  []uint8
		X3  *bool
		X4  int8
		X5  string
		X6  []uint8
		X7  *bool
		X8  int8
		X9  string
		X10 []uint8
		X11 *bool
		X12 int8
		X13 string
	}
	F5 struct {
		X0  string
		X1  []uint8
		X2  *bool
		X3  int8
		X4  string
		X5  []uint8
		X6  *bool
		X7  int8
		X8  string
		X9  []uint8
		X10 *bool
		X11 int8
		X12 string
		X13 []uint8
	}
	F6 struct {
		X0  []uint8
		X1  *bool
		X2  int8
		X3  string
		X4  []uint8
		X5  *bool
		X6  int8
		X7  string
		X8  []uint8
		X9  *bool
		X10 int8
		X11 string
		X12 []uint8
		X13 *bool
	}
	F7 struct {
		X0  *bool
		X1  int8
		X2  string
		X3  []uint8
		X4  *bool
		X5  int8
		X6  string
		X7  []uint8
		X8  *bool
		X9  int8
		X10 string
		X11 []uint8
		X12 *bool
		X13 int8
	}
	F8 struct {
		X0  int8
		X1  string
		X2  []uint8
		X3  *bool
		X4  int8
		X5  string
		X6  []uint8
		X7  *bool
		X8  int8
		X9  string
		X10 []uint8
		X11 *bool
		X12 int8
		X13 string
	}
	F9 struct {
		X0  string
		X1  []uint8
		X2  *bool
		X3  int8
		X4  string
		X5  []uint8
		X6  *bool
		X7  int8
		X8  string
		X9  []uint8
		X10 *bool
		X11 int8
		X12 string
		X13 []uint8
	}
	F10 struct {
		X0  []uint8
		X1  *bool
		X2  int8
		X3  string
		X4  []uint8
		X5  *bool
		X6  int8
		X7  string
		X8  []uint8
		X9  *bool
		X10 int8
		X11 string
		X12 []uint8
		X13 *bool
	}
	F11 struct {
		X0  *bool
		X1  int8
		X2  string
		X3  []uint8
		X4  *bool
		X5  int8
		X6  string
		X7  []uint8
		X8  *bool
		X9  int8
		X10 string
		X11 []uint8
		X12 *bool
		X13 int8
	}
	F12 struct {
		X0  int8
		X1  string
		X2  []uint8
		X3  *bool
		X4  int8
		X5  string
		X6  []uint8
		X7  *bool
		X8  int8
		X9  string
		X10 []uint8
		X11 *bool
		X12 int8
		X13 string
	}
	F13 struct {
		X0  string
		X1  []uint8
		X2  *bool
		X3  int8
		X4  string
		X5  []uint8
		X6  *bool
		X7  int8
		X8  string
		X9  []uint8
		X10 *bool
		X11 int8
		X12 string
		X13 []uint8
	}
	F14 struct {
		X0  []uint8
		X1  *bool
		X2  int8
		X3  string
		X4  []uint8
		X5  *bool
		X6  int8
		X7  string
		X8  []uint8
		X9  *bool
		X10 int8
		X11 string
		X12 []uint8
		X13 *bool
	}
	F15 struct {
		X0  *bool
		X1  int8
		X2  string
		X3  []uint8
		X4  *bool
		X5  int8
		X6  string
		X7  []uint8
		X8  *bool
		X9  int8
		X10 string
		X11 []uint8
		X12 *bool
		X13 int8
	}
	F16 struct {
		X0  int8
		X1  string
		X2  []uint8
		X3  *bool
		X4  int8
		X5  string
		X6  []uint8
		X7  *bool
		X8  int8
		X9  string
		X10 []uint8
		X11 *bool
		X12 int8
		X13 string
	}
	F17 struct {
		X0  string
		X1  []uint8
		X2  *bool
		X3  int8
		X4  string
		X5  []uint8
		X6  *bool
		X7  int8
		X8  string
		X9  []uint8
		X10 *bool
		X11 int8
		X12 string
		X13 []uint8
	}
	F18 struct {
		X0  []uint8
		X1  *bool
		X2  int8
		X3  string
		X4  []uint8
		X5  *bool
		X6  int8
		X7  string
		X8  []uint8
		X9  *bool
		X10 int8
		X11 string
		X12 []uint8
		X13 *bool
	}
	Last []CB1
	Rec  []WNest
	Any  any
}

type WLong struct {
	F0   int    `json:"pppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppp"`
	F1   string `json:"pppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppq"`
	F2   bool   `json:"PPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPx"`
	F3   int8   `json:"abcdefgh1"`
	F4   int    `json:"abcdefgh2"`
	F5   string `json:"abcdefghijklmnop1"`
	F6   bool   `json:"abcdefghijklmnop2"`
	F7   int8   `json:"abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz0123456789-ab1"`
	F8   int    `json:"abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz0123456789-ab2"`
	F9   string `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F10  bool   `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F11  int8   `json:"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"`
	F12  int    `json:"yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy"`
	F13  string `json:"yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy"`
	F14  bool   `json:"yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy"`
	Next *WLong
}

func init() {

	regO[*G001, *G001E]("*G001")
	regO[*G002, *G002E]("*G002")
	reg[*G003]("*G003")
	reg[*G004]("*G004")
	reg[*G005]("*G005")
	reg[*G006]("*G006")
	reg[*G007]("*G007")
	regO[*G008, *G008E]("*G008")
	reg[*G009]("*G009")
	reg[*G010]("*G010")
	reg[*G011]("*G011")
	reg[*G012]("*G012")
	reg[*G013]("*G013")
	reg[*G014]("*G014")
	reg[*G015]("*G015")
	reg[*G016]("*G016")
	regO[*G017, *G017E]("*G017")
	regO[*G018, *G018E]("*G018")
	reg[*G019]("*G019")
	reg[*G020]("*G020")
	reg[*G021]("*G021")
	reg[*G022]("*G022")
	regO[*G023, *G023E]("*G023")
	reg[*G024]("*G024")
	reg[*G025]("*G025")
	reg[*G026]("*G026")
	reg[*G027]("*G027")
	reg[*G028]("*G028")
	regO[*G029, *G029E]("*G029")
	reg[*G030]("*G030")
	regO[*G031, *G031E]("*G031")
	reg[*G032]("*G032")
	reg[*G033]("*G033")
	reg[*G034]("*G034")
	reg[*G035]("*G035")
	regO[*G036, *G036E]("*G036")
	reg[*G037]("*G037")
	reg[*G038]("*G038")
	reg[*G039]("*G039")
	reg[*G040]("*G040")
	reg[*G041]("*G041")
	reg[*G042]("*G042")
	reg[*G043]("*G043")
	reg[*G044]("*G044")
	regO[*G045, *G045E]("*G045")
	reg[*G046]("*G046")
	reg[*G047]("*G047")
	reg[*G048]("*G048")
	reg[*G049]("*G049")
	reg[*G050]("*G050")
	reg[*G051]("*G051")
	reg[*G052]("*G052")
	reg[*G053]("*G053")
	reg[*G054]("*G054")
	reg[*G055]("*G055")
	reg[*G056]("*G056")
	reg[*G057]("*G057")
	reg[*G058]("*G058")
	reg[*G059]("*G059")
	reg[*G060]("*G060")
	reg[*G061]("*G061")
	reg[*G062]("*G062")
	regO[*G063, *G063E]("*G063")
	regO[*G064, *G064E]("*G064")
	reg[*G065]("*G065")
	reg[*G066]("*G066")
	regO[*G067, *G067E]("*G067")
	regO[*G068, *G068E]("*G068")
	reg[*G069]("*G069")
	reg[*G070]("*G070")
	regO[*G071, *G071E]("*G071")
	regO[*G072, *G072E]("*G072")
	regO[*G074, *G074E]("*G074")
	reg[*G075]("*G075")
	reg[*G076]("*G076")
	reg[*G077]("*G077")
	reg[*G078]("*G078")
	regO[*G079, *G079E]("*G079")
	regO[*G080, *G080E]("*G080")
	reg[*G081]("*G081")
	reg[*G082]("*G082")
	regO[*G084, *G084E]("*G084")
	regO[*G085, *G085E]("*G085")
	reg[*G087]("*G087")
	reg[*G088]("*G088")
	regO[*G089, *G089E]("*G089")
	regO[*G090, *G090E]("*G090")
	reg[*G091]("*G091")
	regO[*G092, *G092E]("*G092")
	regO[*G093, *G093E]("*G093")
	reg[*G095]("*G095")
	reg[*G096]("*G096")
	regO[*G097, *G097E]("*G097")
	regO[*G098, *G098E]("*G098")
	reg[*G099]("*G099")
	reg[*G100]("*G100")
	reg[*G101]("*G101")
	regO[*G102, *G102E]("*G102")
	regO[*G103, *G103E]("*G103")
	regO[*G105, *G105E]("*G105")
	reg[*G106]("*G106")
	reg[*G107]("*G107")
	reg[*G108]("*G108")
	reg[*G109]("*G109")
	reg[*G110]("*G110")
	reg[*G111]("*G111")
	reg[*G113]("*G113")
	reg[*G114]("*G114")
	reg[*G115]("*G115")
	reg[*G116]("*G116")
	reg[*G117]("*G117")
	reg[*G118]("*G118")
	reg[*G119]("*G119")
	reg[*G120]("*G120")
	reg[*G121]("*G121")
	reg[*G122]("*G122")
	reg[*G123]("*G123")
	reg[*G124]("*G124")
	reg[*G125]("*G125")
	reg[*G126]("*G126")
	reg[*G127]("*G127")
	regO[*G128, *G128E]("*G128")
	regO[*G129, *G129E]("*G129")
	reg[*G130]("*G130")
	reg[*G131]("*G131")
	reg[*G132]("*G132")
	reg[*G133]("*G133")
	reg[*G134]("*G134")
	reg[*G135]("*G135")
	regO[*G136, *G136E]("*G136")
	reg[*G137]("*G137")
	regO[*G138, *G138E]("*G138")
	reg[*G139]("*G139")
	reg[*G140]("*G140")
	regO[*G141, *G141E]("*G141")
	reg[*G142]("*G142")
	reg[*G143]("*G143")
	regO[*G144, *G144E]("*G144")
	reg[*G145]("*G145")
	regO[*G146, *G146E]("*G146")
	reg[*G147]("*G147")
	reg[*G148]("*G148")
	reg[*G149]("*G149")
	reg[*G150]("*G150")
	reg[*G151]("*G151")
	reg[*G152]("*G152")
	reg[*G153]("*G153")
	reg[*G154]("*G154")
	reg[*G155]("*G155")
	reg[*G156]("*G156")
	reg[*G157]("*G157")
	reg[*G158]("*G158")
	reg[*G159]("*G159")
	reg[*G160]("*G160")
	reg[*G161]("*G161")
	reg[*G162]("*G162")
	reg[*G163]("*G163")
	regO[*G164, *G164E]("*G164")
	reg[*G165]("*G165")
	reg[*G166]("*G166")
	reg[*G167]("*G167")
	reg[*G169]("*G169")
	reg[*G170]("*G170")
	reg[*G171]("*G171")
	reg[*G172]("*G172")
	reg[*G173]("*G173")
	reg[*G174]("*G174")
	reg[*G175]("*G175")
	reg[*G176]("*G176")
	reg[*G177]("*G177")
	reg[*G178]("*G178")
	reg[*G179]("*G179")
	reg[*G180]("*G180")
	reg[*G181]("*G181")
	reg[*G182]("*G182")
	reg[*G183]("*G183")
	regO[*G185, *G185E]("*G185")
	regO[*G186, *G186E]("*G186")
	reg[*G187]("*G187")
	reg[*G188]("*G188")
	reg[*G189]("*G189")
	regO[*G190, *G190E]("*G190")
	regO[*G191, *G191E]("*G191")
	reg[*G192]("*G192")
	reg[*G193]("*G193")
	reg[*G194]("*G194")
	reg[*G195]("*G195")
	reg[*G196]("*G196")
	reg[*G197]("*G197")
	reg[*G199]("*G199")
	reg[*G200]("*G200")
	reg[*G201]("*G201")
	regO[*G202, *G202E]("*G202")
	regO[*G203, *G203E]("*G203")
	reg[*G205]("*G205")
	reg[*G206]("*G206")
	regO[*G207, *G207E]("*G207")
	regO[*G208, *G208E]("*G208")
	reg[*W70]("*W70")
	reg[*W66]("*W66")
	reg[*W300]("*W300")
	reg[*WNest]("*WNest")
	reg[*WLong]("*WLong")
	reg[[300]int16]("[300]int16")
	reg[[257]struct{}]("[257]struct{}")
	reg[[][129]bool]("[][129]bool")
	reg[[][][][][][][][][][]int]("[][][][][][][][][][]int")
	reg[map[string]map[string]map[string]map[string]map[string]map[string]string]("map[string]map[string]map[string]map[string]map[string]map[string]string")
	reg[*******int]("*******int")
	reg[[]*[]*[]*[]*string]("[]*[]*[]*[]*string")
	reg[[2][2][2][2][2]uint8]("[2][2][2][2][2]uint8")
	reg[[][700]byte]("[][700]byte")

}
