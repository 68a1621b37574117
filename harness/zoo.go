package main

import (
	"math"
	"reflect"
	"strconv"

	"github.com/itstarsun/go-thrift/thrift"
)

// Types with an IsZero method of their own.
type (
	ZNever      int32
	ZAlways     string
	ZSeven      int64
	ZPtrOdd     int16
	ZTrue       bool
	ZList       []int16
	ZMap        map[string]int32
	ZNeverBytes []byte
	ZStruct     struct {
		A int32  `thrift:"1"`
		B string `thrift:"2"`
	}
	ZPtrStruct struct {
		A int32  `thrift:"3"`
		B string `thrift:"2"`
	}
	ZNeverStruct struct {
		A int32 `thrift:"3"`
	}
)

func (ZNever) IsZero() bool        { return false }
func (ZAlways) IsZero() bool       { return true }
func (z ZSeven) IsZero() bool      { return z == 7 }
func (z *ZPtrOdd) IsZero() bool    { return *z == 13 }
func (z ZTrue) IsZero() bool       { return bool(z) }
func (z ZList) IsZero() bool       { return len(z) == 0 }
func (z ZMap) IsZero() bool        { return len(z) == 0 }
func (ZNeverBytes) IsZero() bool   { return false }
func (z ZStruct) IsZero() bool     { return z.A == 0 }
func (z *ZPtrStruct) IsZero() bool { return z.A == 0 }
func (ZNeverStruct) IsZero() bool  { return false }

type ZEmb struct {
	A    int16   `thrift:"4"`
	Rest []int32 `thrift:"5"`
}

func (z ZEmb) IsZero() bool { return z.A == 0 }

// EmbSet is no set: it does not have the methods of the type it is defined by.
type EmbSet thrift.Set[int32]

// Named types.
type (
	NBool   bool
	NI8     int8
	NU8     uint8
	NI16    int16
	NU64    uint64
	NF32    float32
	NF64    float64
	NStr    string
	NBytes  []byte
	NList   []NI16
	NMap    map[NStr]NI8
	NPtr    *int32
	NBytes2 []NU8
)

type (
	Plain struct {
		A bool     `thrift:"1"`
		B int8     `thrift:"2"`
		C int16    `thrift:"3"`
		D int32    `thrift:"4"`
		E int64    `thrift:"5"`
		F float64  `thrift:"6"`
		G string   `thrift:"7"`
		H []byte   `thrift:"8"`
		I [16]byte `thrift:"9"`
	}
	Req struct {
		A bool              `thrift:"1,required"`
		B uint8             `thrift:"2,required"`
		C uint16            `thrift:"3,required"`
		D uint32            `thrift:"4,required"`
		E uint64            `thrift:"5,required"`
		F float32           `thrift:"6,required"`
		G string            `thrift:"7,required"`
		H []byte            `thrift:"8,required"`
		I [16]byte          `thrift:"9,required"`
		J *int32            `thrift:"10,required"`
		K []bool            `thrift:"11,required"`
		L map[int8]string   `thrift:"12,required"`
		M thrift.Set[int64] `thrift:"13,required"`
		N Empty             `thrift:"14,required"`
	}
	// IDs in no order, negative, and far apart.
	Order struct {
		Z int32  `thrift:"300"`
		A int32  `thrift:"-5"`
		M int32  `thrift:"0"`
		Q int32  `thrift:"32767"`
		B int32  `thrift:"-32768"`
		C bool   `thrift:"15"`
		D bool   `thrift:"16,required"`
		E bool   `thrift:"1"`
		F string `thrift:"+7"`
		G string `thrift:"008"`
	}
	Mixed struct {
		a     int
		A     int32    `thrift:"1"`
		Skip  int64    `thrift:"-"`
		B     string   `thrift:"2,required"`
		Ch    chan int `thrift:"-"`
		b     *int32
		Inner struct {
			X int16  `thrift:"1"`
			Y *Plain `thrift:"2"`
		} `thrift:"3"`
	}
	Emb struct {
		Plain  `thrift:"3"`
		*Point `thrift:"4"`
		X      int32 `thrift:"5"`
	}
	Empty struct{}
	Tree  struct {
		V    int32            `thrift:"1"`
		Kids []*Tree          `thrift:"2"`
		Next *Tree            `thrift:"3"`
		M    map[string]*Tree `thrift:"4"`
		S    []Tree           `thrift:"5"`
	}
	Ping struct {
		N int32  `thrift:"1"`
		P *Pong  `thrift:"2"`
		L []Pong `thrift:"3"`
	}
	Pong struct {
		S string         `thrift:"1"`
		P *Ping          `thrift:"2"`
		M map[int32]Ping `thrift:"3"`
	}
	RecSlice []RecSlice
	RecMap   map[string]RecMap
	RecPtrS  struct {
		P **RecPtrS  `thrift:"1"`
		L []RecSlice `thrift:"2"`
	}
	Point struct {
		X int32 `thrift:"1"`
		Y bool  `thrift:"2,required"`
	}
	Zeros struct {
		A ZNever        `thrift:"1"`
		B ZAlways       `thrift:"2"`
		C ZSeven        `thrift:"3"`
		D ZPtrOdd       `thrift:"4"`
		E ZStruct       `thrift:"5"`
		F ZPtrStruct    `thrift:"6"`
		G ZList         `thrift:"7"`
		H ZMap          `thrift:"8"`
		I *ZSeven       `thrift:"9"`
		J *ZPtrStruct   `thrift:"10"`
		K *ZNever       `thrift:"11"`
		L **ZSeven      `thrift:"12"`
		M ZTrue         `thrift:"13"`
		N ZAlways       `thrift:"14,required"`
		O ZNeverBytes   `thrift:"15"`
		P *ZAlways      `thrift:"16"`
		Q ZNeverStruct  `thrift:"17"`
		R *ZNeverStruct `thrift:"18"`
		S []ZSeven      `thrift:"19"`
		T ZEmb          `thrift:"20"`
		U *ZEmb         `thrift:"21,required"`
	}
	Bad struct {
		A int32    `thrift:"1"`
		B chan int `thrift:"5"`
		C string   `thrift:"9"`
	}
	BadDeep struct {
		A []func()       `thrift:"2"`
		M map[string]any `thrift:"3"`
		P *complex128    `thrift:"4"`
		U [4]byte        `thrift:"5"`
		Z int32          `thrift:"9"`
	}
	Sets struct {
		A thrift.Set[bool]              `thrift:"1"`
		B thrift.Set[string]            `thrift:"2"`
		C thrift.Set[Point]             `thrift:"3"`
		D thrift.List[byte]             `thrift:"4"`
		E thrift.List[[]byte]           `thrift:"5"`
		F thrift.Set[thrift.Set[int16]] `thrift:"6"`
		G thrift.Set[byte]              `thrift:"7"`
		H thrift.Set[*Point]            `thrift:"8"`
		I []thrift.Set[float64]         `thrift:"9"`
	}
	Named struct {
		A NBool   `thrift:"1"`
		B NI8     `thrift:"2"`
		C NU8     `thrift:"3"`
		D NI16    `thrift:"4"`
		E NU64    `thrift:"5"`
		F NF32    `thrift:"6"`
		G NF64    `thrift:"7"`
		H NStr    `thrift:"8"`
		I NBytes  `thrift:"9"`
		J NList   `thrift:"10"`
		K NMap    `thrift:"11"`
		L NPtr    `thrift:"12"`
		M NBytes2 `thrift:"13"`
		N []uint8 `thrift:"14"`
		O []int8  `thrift:"15"`
	}
	Ptrs struct {
		A *bool             `thrift:"1"`
		B **int32           `thrift:"2"`
		C *string           `thrift:"3"`
		D *[]byte           `thrift:"4"`
		E *[]int32          `thrift:"5"`
		F *map[string]int32 `thrift:"6"`
		G *Point            `thrift:"7"`
		H []*Point          `thrift:"8"`
		I map[string]*Point `thrift:"9"`
		J *[16]byte         `thrift:"10"`
		K ***Point          `thrift:"11,required"`
		L []**int16         `thrift:"12"`
	}
	Maps struct {
		A map[bool]bool               `thrift:"1"`
		B map[string][]string         `thrift:"2"`
		C map[int64]map[int64]int64   `thrift:"3"`
		D map[Point]string            `thrift:"4"`
		E map[[16]byte]Point          `thrift:"5"`
		F map[float64][]byte          `thrift:"6"`
		G map[string]map[string]*Tree `thrift:"7"`
		H map[int8][]*Point           `thrift:"8"`
	}
)

// Different types with the same name.
func twins() []reflect.Type {
	var out []reflect.Type
	func() {
		type Twin struct {
			A int32  `thrift:"1"`
			B string `thrift:"2"`
		}
		out = append(out, typeOf[Twin]())
	}()
	func() {
		type Twin struct {
			A string `thrift:"1"`
			C int32  `thrift:"3,required"`
		}
		out = append(out, typeOf[Twin]())
	}()
	func() {
		type Twin struct {
			B []int16 `thrift:"2"`
			A bool    `thrift:"1,required"`
		}
		out = append(out, typeOf[Twin]())
	}()
	return out
}

func otherTwins() []reflect.Type {
	var out []reflect.Type
	func() {
		type Twin int16
		out = append(out, typeOf[Twin]())
	}()
	func() {
		type Twin string
		out = append(out, typeOf[Twin]())
	}()
	func() {
		type Twin []string
		out = append(out, typeOf[Twin]())
	}()
	func() {
		type Twin map[string]bool
		out = append(out, typeOf[Twin]())
	}()
	return out
}

func init() {
	zooStructs = append(zooStructs, twins()...)
	zooOthers = append(zooOthers, otherTwins()...)
}

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var zooStructs = []reflect.Type{
	typeOf[Plain](), typeOf[Req](), typeOf[Order](), typeOf[Mixed](), typeOf[Emb](), typeOf[Empty](), typeOf[Tree](), typeOf[Ping](), typeOf[Pong](),
	typeOf[RecPtrS](), typeOf[Point](), typeOf[Zeros](), typeOf[Sets](), typeOf[Named](), typeOf[Ptrs](), typeOf[Maps](), typeOf[ZStruct](), typeOf[ZPtrStruct](),
	typeOf[ZEmb](),
}

var zooOthers = []reflect.Type{
	typeOf[EmbSet](), typeOf[RecSlice](), typeOf[RecMap](), typeOf[NBool](), typeOf[NI8](), typeOf[NU8](), typeOf[NI16](), typeOf[NU64](), typeOf[NF32](), typeOf[NF64](),
	typeOf[NStr](), typeOf[NBytes](), typeOf[NBytes2](), typeOf[NList](), typeOf[NMap](), typeOf[thrift.Set[bool]](), typeOf[thrift.Set[string]](), typeOf[thrift.Set[Point]](),
	typeOf[thrift.Set[thrift.Set[int16]]](), typeOf[thrift.Set[byte]](), typeOf[thrift.List[byte]](), typeOf[thrift.List[string]](),
	typeOf[thrift.Set[*Tree]](), typeOf[thrift.Set[[]byte]](), typeOf[thrift.Set[map[string]bool]](), typeOf[ZSeven](), typeOf[ZList](), typeOf[ZMap](),
}

var zooScalars = []reflect.Type{
	typeOf[bool](), typeOf[int8](), typeOf[uint8](), typeOf[int16](), typeOf[uint16](), typeOf[int32](), typeOf[uint32](), typeOf[int64](), typeOf[uint64](),
	typeOf[float32](), typeOf[float64](), typeOf[string](), typeOf[[]byte](), typeOf[[16]byte](),
}

var zooBad = []reflect.Type{
	typeOf[int](), typeOf[uint](), typeOf[uintptr](), typeOf[complex64](), typeOf[complex128](), typeOf[chan int](), typeOf[func()](), typeOf[any](), typeOf[error](),
	typeOf[[4]byte](), typeOf[[16]int8](), typeOf[[3]string](), typeOf[*int](), typeOf[*any](), typeOf[[0]byte](), typeOf[NUUID](),
}

type NUUID [16]byte

// gotype draws a type, mostly made by reflection.
func (g *G) gotype(depth int) reflect.Type {
	n := g.Intn(20)
	if depth <= 0 {
		n = g.Intn(9)
	}
	switch {
	case n < 8:
		return zooScalars[g.Intn(len(zooScalars))]
	case n < 9:
		return zooOthers[g.Intn(len(zooOthers))]
	case n < 11:
		return zooStructs[g.Intn(len(zooStructs))]
	case n < 13:
		return reflect.PointerTo(g.gotype(depth - 1))
	case n < 15:
		return reflect.SliceOf(g.gotype(depth - 1))
	case n < 17:
		return reflect.MapOf(g.keytype(1), g.gotype(depth-1))
	default:
		return g.structOf(depth)
	}
}

func (g *G) keytype(depth int) reflect.Type {
	for {
		t := zooScalars[g.Intn(len(zooScalars))]
		switch {
		case depth > 0 && g.one(8):
			t = typeOf[Point]()
		case depth > 0 && g.one(12):
			t = reflect.StructOf([]reflect.StructField{
				{Name: "A", Type: g.keytype(0), Tag: `thrift:"2"`}, {Name: "B", Type: g.keytype(0), Tag: `thrift:"1,required"`}})
		case g.one(10):
			t = typeOf[NStr]()
		}
		if t.Comparable() {
			return t
		}
	}
}

func (g *G) structOf(depth int) reflect.Type {
	n := g.Intn(6)
	used := map[int]bool{}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		id := int(g.id())
		if used[id] {
			continue
		}
		used[id] = true
		tag := strconv.Itoa(id)
		switch g.Intn(6) {
		case 0:
			tag += ",required"
		case 1:
			tag += ",other"
		case 2:
			tag += ",x1,required,y_"
		}
		f := reflect.StructField{Name: "F" + strconv.Itoa(i), Type: g.gotype(depth - 1), Tag: reflect.StructTag(`thrift:"` + tag + `"`)}
		if g.one(10) {
			f.Tag = `thrift:"-"`
			f.Type = zooScalars[g.Intn(len(zooScalars))]
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// fill draws a value into v (addressable).
func (g *G) fill(v reflect.Value, depth int, key bool) {
	g.budget--
	if !key && g.one(6) || g.budget < 0 {
		return // zero
	}
	if key && g.one(3) { // one of few
		switch k := g.Intn(4); v.Kind() {
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			v.SetInt(int64(k))
			return
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			v.SetUint(uint64(k))
			return
		case reflect.String:
			v.SetString("k" + string(rune('0'+k)))
			return
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(g.one(2))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(g.bits()) << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
		if g.one(8) {
			v.SetInt(int64(g.pick(7, 13)))
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(g.bits() << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
	case reflect.Float64:
		f := math.Float64frombits(g.double())
		if key && f != f || f == 0 {
			f = 1.5
		}
		if key && g.one(4) {
			f = math.NaN() // equal to no key
		} else if !key && g.one(8) {
			f = math.Copysign(0, -1)
		}
		v.SetFloat(f)
	case reflect.Float32:
		f := math.Float32frombits(uint32(g.Uint32()))
		if f != f || f == 0 || g.one(4) {
			f = []float32{1.5, float32(math.Inf(-1)), math.MaxFloat32, math.SmallestNonzeroFloat32, -2}[g.Intn(5)]
		}
		if !key && g.one(8) {
			f = float32(math.Copysign(0, -1))
		}
		v.SetFloat(float64(f))
	case reflect.String:
		v.SetString(string(g.str()))
	case reflect.Array:
		for i := 0; i < v.Len() && v.Type().Elem().Kind() == reflect.Uint8; i++ {
			v.Index(i).SetUint(uint64(g.Intn(256)))
		}
	case reflect.Slice:
		if v.Type().Elem() == typeOf[byte]() {
			b := append([]byte{}, g.str()...)
			v.Set(reflect.ValueOf(b).Convert(v.Type()))
			return
		}
		n := g.Intn(4)
		if g.one(10) && v.Type().Elem().Kind() < reflect.Array {
			n = g.pick(14, 15, 16, 17, 40)
		}
		if depth <= 0 {
			n = 0
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n+g.Intn(3)))
		for i := 0; i < n; i++ {
			g.fill(v.Index(i), depth-1, false)
		}
	case reflect.Map:
		n := g.Intn(4)
		if g.one(10) && v.Type().Elem().Kind() < reflect.Array {
			n = g.pick(8, 17, 24)
		}
		if depth <= 0 {
			n = 0
		}
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < n; i++ {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			g.fill(k, depth-1, true)
			g.fill(e, depth-1, false)
			v.SetMapIndex(k, e)
		}
	case reflect.Pointer:
		if depth <= 0 {
			return
		}
		p := reflect.New(v.Type().Elem())
		g.fill(p.Elem(), depth-1, false)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				g.fill(v.Field(i), depth-1, key)
			}
		}
	}
}

func (g *G) govalue(t reflect.Type) reflect.Value {
	g.budget = 60
	p := reflect.New(t)
	for i := 0; i < 3 && p.Elem().IsZero(); i++ {
		g.fill(p.Elem(), 6, false)
	}
	if s := p.Elem(); s.Kind() == reflect.Struct && g.one(4) {
		for i := 0; i < s.NumField(); i++ {
			if f := s.Field(i); f.CanSet() && f.Kind() == reflect.Float64 && g.one(2) {
				f.SetFloat(math.Copysign(0, -1)) // is not Go's zero value
			}
		}
	}
	return p
}
