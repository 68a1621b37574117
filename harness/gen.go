package main

import (
	"bytes"
	"math"
	"math/rand"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// Thrift types.
const (
	tStop   = 0
	tBool   = 2
	tByte   = 3
	tDouble = 4
	tI16    = 6
	tI32    = 8
	tI64    = 10
	tString = 11
	tStruct = 12
	tMap    = 13
	tSet    = 14
	tList   = 15
	tUUID   = 16
)

var valueTypes = []byte{tBool, tByte, tDouble, tI16, tI32, tI64, tString, tStruct, tMap, tSet, tList, tUUID}
var scalarTypes = []byte{tBool, tByte, tDouble, tI16, tI32, tI64, tString, tUUID}

// V is a Thrift value: a scalar's bits or bytes, a struct's fields, or a
// container's elements (keys and values alternating for a map).
type V struct {
	T    byte
	N    uint64 // integers, doubles, booleans
	B    []byte // strings, UUIDs
	K, E byte   // key and element types
	Kids []*V
	Fs   []F
	Raw  int // emit string with WriteBytes when 1
}

type F struct {
	ID int16
	V  *V
}

type Msg struct {
	Name string
	Type byte
	ID   int32
	Body *V
}

// G draws values, biased to the boundaries.
type G struct {
	*rand.Rand
	depth  int
	budget int // elements left in the current value
	big    int // permille of large strings
	bools  bool
	seenB  [][]byte // drawn before
	seenN  uint64
	seenID int16
}

func (g *G) pick(n ...int) int { return n[g.Intn(len(n))] }
func (g *G) one(p int) bool    { return g.Intn(p) == 0 }

// bits draws an integer, now and then one related to the one before.
func (g *G) bits() uint64 {
	if g.one(8) {
		switch g.Intn(5) {
		case 0:
			return g.seenN
		case 1:
			g.seenN ^= 1 << g.Intn(64)
		case 2:
			g.seenN++
		case 3:
			g.seenN = -g.seenN
		case 4:
			g.seenN ^= 0xff << (8 * g.Intn(8))
		}
		return g.seenN
	}
	g.seenN = g.newBits()
	return g.seenN
}

func (g *G) newBits() uint64 {
	switch g.Intn(8) {
	case 0:
		return uint64(g.Intn(3)) - 1
	case 1: // around powers of two, either sign
		v := uint64(1)<<g.Intn(64) + uint64(g.Intn(5)) - 2
		if g.one(2) {
			v = -v
		}
		return v
	case 2:
		return uint64(g.pick(63, 64, 65, 127, 128, 8191, 8192, 16383, 16384))
	case 3:
		return ^uint64(g.pick(63, 64, 65, 127, 128, 8191, 8192, 16383, 16384))
	case 4:
		return []uint64{math.MaxInt64, 1 << 63, math.MaxInt32, 1 << 31, ^uint64(1<<31 - 1), math.MaxInt16, 1 << 15, ^uint64(1<<15 - 1), 127, 128, ^uint64(127), math.MaxUint64}[g.Intn(12)]
	case 5:
		return uint64(g.Intn(256))
	default:
		return g.Uint64() >> g.Intn(64)
	}
}

func (g *G) double() uint64 {
	switch g.Intn(4) {
	case 0:
		return []uint64{0, 1 << 63, math.Float64bits(math.Inf(1)), math.Float64bits(math.Inf(-1)), 0x7ff8000000000001, 0x7ff0000000000001, 0xfff8000000000000, 1, math.Float64bits(math.MaxFloat64), math.Float64bits(math.Pi)}[g.Intn(10)]
	case 1:
		return math.Float64bits(float64(g.Intn(1000)) / 8)
	default:
		return g.Uint64()
	}
}

// str draws a string, now and then one related to one drawn before.
func (g *G) str() []byte {
	if len(g.seenB) > 0 && g.one(5) {
		b := append([]byte{}, g.seenB[g.Intn(len(g.seenB))]...)
		i := 0
		if len(b) > 0 {
			i = g.Intn(len(b))
		}
		switch k := g.Intn(6); {
		case k == 0:
		case k == 1 || len(b) == 0:
			b = append(b, byte(g.Uint32()))
		case k == 2:
			b = b[:len(b)-1]
		case k == 3:
			b[len(b)-1] ^= 1 << g.Intn(8)
		case k == 4:
			b[0] ^= 1 << g.Intn(8)
		default:
			b[i] ^= 1 << g.Intn(8)
		}
		g.seenB[g.Intn(len(g.seenB))] = b
		return append([]byte{}, b...)
	}
	b := g.newStr()
	if len(g.seenB) < 4 {
		g.seenB = append(g.seenB, append([]byte{}, b...))
	} else {
		g.seenB[g.Intn(4)] = append([]byte{}, b...)
	}
	return b
}

func (g *G) newStr() []byte {
	n := 0
	switch g.Intn(10) {
	case 0:
	case 1, 2, 3, 4, 5:
		n = g.Intn(12)
	case 6:
		n = g.pick(15, 16, 63, 64, 127, 128, 129)
	default:
		n = g.Intn(40)
	}
	if g.big > 0 && g.Intn(1000) < g.big {
		n = g.pick(255, 256, 1000, 4085, 4090, 4094, 4095, 4096, 4097, 4100, 5000, 8191, 8192, 8193)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.Uint32())
	}
	return b
}

func (g *G) id() int16 {
	if g.one(8) {
		g.seenID = g.relatedID(g.seenID)
	} else {
		g.seenID = g.newID()
	}
	return g.seenID
}

// relatedID draws an ID that might be taken for id.
func (g *G) relatedID(id int16) int16 {
	switch g.Intn(4) {
	case 0:
		return -id
	case 1:
		return id + int16(g.pick(-256, 256, -16, 16, -128, 128))
	default:
		return id ^ 1<<g.Intn(16)
	}
}

func (g *G) newID() int16 {
	switch g.Intn(5) {
	case 0:
		return []int16{math.MinInt16, math.MinInt16 + 1, -1, 0, 1, 14, 15, 16, 17, 255, 256, math.MaxInt16 - 15, math.MaxInt16 - 1, math.MaxInt16}[g.Intn(14)]
	case 1:
		return int16(g.Uint32())
	default:
		return int16(g.Intn(40) - 5)
	}
}

func (g *G) typ(depth int) byte {
	if depth <= 0 || g.Intn(3) > 0 {
		return scalarTypes[g.Intn(len(scalarTypes))]
	}
	return valueTypes[g.Intn(len(valueTypes))]
}

// val draws a value of type t nested at most depth deep.
func (g *G) val(t byte, depth int) *V {
	g.budget--
	v := &V{T: t}
	switch t {
	case tBool:
		v.N = uint64(g.Intn(2))
	case tByte:
		v.N = g.bits() & 0xff
	case tI16:
		v.N = uint64(int16(g.bits()))
	case tI32:
		v.N = uint64(int32(g.bits()))
	case tI64:
		v.N = g.bits()
	case tDouble:
		v.N = g.double()
	case tString:
		v.B = g.str()
		v.Raw = g.Intn(2)
	case tUUID:
		v.B = make([]byte, 16)
		switch g.Intn(8) {
		case 0: // all zero
		case 1:
			v.B[g.pick(0, 15, g.Intn(16))] = byte(g.pick(1, 0x80, 0xff))
		case 2:
			copy(v.B, bytes.Repeat([]byte{byte(g.pick(1, 0x7f, 0xff))}, 16))
		default:
			for i := range v.B {
				v.B[i] = byte(g.Uint32())
			}
		}
	case tStruct:
		n := g.Intn(6)
		id := int16(0)
		mode := g.Intn(3)
		for i := 0; i < n && g.budget > 0; i++ {
			switch mode {
			case 0: // ascending
				d := g.pick(1, 1, 1, 2, 14, 15, 16, 17, 100)
				if int(id)+d > math.MaxInt16 {
					d = 0
				}
				id += int16(d)
			case 1:
				id = g.id()
			default: // around the previous one
				id += int16(g.Intn(40) - 20)
			}
			v.Fs = append(v.Fs, F{id, g.val(g.typ(depth-1), depth-1)})
		}
	case tMap:
		n := g.size()
		v.K, v.E = g.typ(depth-1), g.typ(depth-1)
		for i := 0; i < n && g.budget > 0; i++ {
			v.Kids = append(v.Kids, g.val(v.K, depth-1), g.val(v.E, depth-1))
		}
		if n == 0 && g.one(2) {
			v.K, v.E = 0, 0
		}
	case tSet, tList:
		n := g.size()
		v.E = g.typ(depth - 1)
		if n > 20 {
			v.E = scalarTypes[g.Intn(6)]
		}
		for i := 0; i < n && (g.budget > 0 || n > 20); i++ {
			v.Kids = append(v.Kids, g.val(v.E, depth-1))
		}
		if n == 0 && g.one(2) {
			v.E = 0
		}
	}
	return v
}

func (g *G) size() int {
	switch g.Intn(12) {
	case 0, 1, 2:
		return 0
	case 3:
		return g.pick(13, 14, 15, 16)
	case 4:
		if g.one(8) {
			return g.pick(127, 128, 129)
		}
		return 1
	default:
		return g.Intn(4)
	}
}

func (g *G) value() *V {
	g.budget = 40
	t := g.typ(4)
	if g.one(2) {
		t = tStruct
	}
	return g.val(t, g.Intn(5)+1)
}

func (g *G) msg() Msg {
	g.budget = 40
	m := Msg{Name: string(g.str()), Type: byte(g.Intn(4) + 1), ID: int32(g.bits())}
	if g.one(6) {
		m.Name = ""
	}
	m.Body = g.val(tStruct, g.Intn(4)+1)
	return m
}

// emit writes v.
func emit(w thriftwire.Writer, v *V) error {
	switch v.T {
	case tBool:
		return w.WriteBool(v.N != 0)
	case tByte:
		return w.WriteByte(byte(v.N))
	case tDouble:
		return w.WriteDouble(math.Float64frombits(v.N))
	case tI16:
		return w.WriteI16(int16(v.N))
	case tI32:
		return w.WriteI32(int32(v.N))
	case tI64:
		return w.WriteI64(int64(v.N))
	case tString:
		if v.Raw == 1 {
			return w.WriteBytes(v.B)
		}
		return w.WriteString(string(v.B))
	case tUUID:
		u := [16]byte(v.B)
		return w.WriteUUID(&u)
	case tStruct:
		if err := w.WriteStructBegin(thriftwire.StructHeader{Name: "S"}); err != nil {
			return err
		}
		for _, f := range v.Fs {
			if err := w.WriteFieldBegin(thriftwire.FieldHeader{Name: "F", Type: thriftwire.Type(f.V.T), ID: f.ID}); err != nil {
				return err
			}
			if err := emit(w, f.V); err != nil {
				return err
			}
			if err := w.WriteFieldEnd(); err != nil {
				return err
			}
		}
		return w.WriteStructEnd()
	case tMap:
		if err := w.WriteMapBegin(thriftwire.MapHeader{Key: thriftwire.Type(v.K), Value: thriftwire.Type(v.E), Size: len(v.Kids) / 2}); err != nil {
			return err
		}
		for _, k := range v.Kids {
			if err := emit(w, k); err != nil {
				return err
			}
		}
		return w.WriteMapEnd()
	case tSet:
		if err := w.WriteSetBegin(thriftwire.SetHeader{Element: thriftwire.Type(v.E), Size: len(v.Kids)}); err != nil {
			return err
		}
		for _, k := range v.Kids {
			if err := emit(w, k); err != nil {
				return err
			}
		}
		return w.WriteSetEnd()
	case tList:
		if err := w.WriteListBegin(thriftwire.ListHeader{Element: thriftwire.Type(v.E), Size: len(v.Kids)}); err != nil {
			return err
		}
		for _, k := range v.Kids {
			if err := emit(w, k); err != nil {
				return err
			}
		}
		return w.WriteListEnd()
	}
	panic("emit")
}

func emitMsg(w thriftwire.Writer, m Msg) error {
	if err := w.WriteMessageBegin(thriftwire.MessageHeader{Name: m.Name, Type: thriftwire.MessageType(m.Type), ID: m.ID}); err != nil {
		return err
	}
	if err := emit(w, m.Body); err != nil {
		return err
	}
	return w.WriteMessageEnd()
}

// ------------------------------------------------------------- encoder

// Enc is an encoder of its own, which also produces the legal forms the
// library's writers do not: with g set, it draws among them.  It only makes
// inputs; what they mean is decided by the specification.
type Enc struct {
	p    string
	g    *G
	b    []byte
	last int16
	lie  int // one in so many sizes and lengths is made up, 0 none
}

// claim is what is said about a size or length of n.
func (e *Enc) claim(n int) int {
	if e.lie == 0 || !e.g.one(e.lie) {
		return n
	}
	return e.g.pick(n+1, n+200, 1<<31-1, 1<<31-2, 1<<30, 100<<20, 1<<24, 70000, 1<<31-1, 1<<28)
}

func (e *Enc) alt(n int) bool { return e.g != nil && e.g.one(n) }

func (e *Enc) uv(v uint64) {
	n := 1
	for v >= 0x80 {
		e.b = append(e.b, byte(v)|0x80)
		v >>= 7
		n++
	}
	if n < 10 && e.alt(8) { // not minimal
		e.b = append(e.b, byte(v)|0x80)
		n++
		for n < 10 && e.g.one(2) {
			e.b = append(e.b, 0x80)
			n++
		}
		e.b = append(e.b, 0)
		return
	}
	e.b = append(e.b, byte(v))
}

func (e *Enc) sv(v int64) { e.uv(uint64(v)<<1 ^ uint64(v>>63)) }

func ccode(t byte) byte {
	return map[byte]byte{tStop: 0, tBool: 2, tByte: 3, tI16: 4, tI32: 5, tI64: 6, tDouble: 7, tString: 8, tList: 9, tSet: 10, tMap: 11, tStruct: 12, tUUID: 13}[t]
}

func (e *Enc) ecode(t byte) byte {
	if t == tBool && e.alt(2) {
		return 1
	}
	return ccode(t)
}

func (e *Enc) str(b []byte) {
	n := e.claim(len(b))
	if e.p == "compact" {
		e.uv(uint64(n))
	} else {
		e.b = append(e.b, w4(int32(n))...)
	}
	e.b = append(e.b, b...)
}

func (e *Enc) seq(t byte, n int) {
	n = e.claim(n)
	if e.p != "compact" {
		e.b = append(e.b, t)
		e.b = append(e.b, w4(int32(n))...)
		return
	}
	if n < 15 && !e.alt(5) {
		e.b = append(e.b, byte(n)<<4|e.ecode(t))
		return
	}
	e.b = append(e.b, 0xf0|e.ecode(t))
	e.uv(uint64(n))
}

func (e *Enc) val(v *V, inField bool) {
	c := e.p == "compact"
	switch v.T {
	case tBool:
		if c && inField {
			return
		}
		n := byte(v.N)
		if !c && n == 1 && e.alt(3) {
			n = byte(e.g.Intn(255) + 1)
		}
		e.b = append(e.b, n)
	case tByte:
		e.b = append(e.b, byte(v.N))
	case tDouble:
		b := w8(v.N)
		if c {
			for i := 0; i < 4; i++ {
				b[i], b[7-i] = b[7-i], b[i]
			}
		}
		e.b = append(e.b, b...)
	case tI16, tI32, tI64:
		if c {
			e.sv(int64(v.N))
			return
		}
		n := map[byte]int{tI16: 2, tI32: 4, tI64: 8}[v.T]
		e.b = append(e.b, w8(v.N)[8-n:]...)
	case tString:
		e.str(v.B)
	case tUUID:
		e.b = append(e.b, v.B...)
	case tStruct:
		saved := e.last
		e.last = 0
		for _, f := range v.Fs {
			if !c {
				e.b = append(e.b, f.V.T)
				e.b = append(e.b, w2(f.ID)...)
				e.val(f.V, true)
				continue
			}
			code := ccode(f.V.T)
			if f.V.T == tBool {
				code = byte(2 - f.V.N)
			}
			if d := int(f.ID) - int(e.last); d >= 1 && d <= 15 && !e.alt(4) {
				e.b = append(e.b, byte(d)<<4|code)
			} else {
				e.b = append(e.b, code)
				e.sv(int64(f.ID))
			}
			e.last = f.ID
			e.val(f.V, true)
		}
		e.b = append(e.b, 0)
		e.last = saved
	case tMap:
		n := e.claim(len(v.Kids) / 2)
		if c {
			if n == 0 {
				e.uv(0)
			} else {
				e.uv(uint64(n))
				e.b = append(e.b, e.ecode(v.K)<<4|e.ecode(v.E))
			}
		} else {
			e.b = append(e.b, v.K, v.E)
			e.b = append(e.b, w4(int32(n))...)
		}
		for _, k := range v.Kids {
			e.val(k, false)
		}
	case tSet, tList:
		e.seq(v.E, len(v.Kids))
		for _, k := range v.Kids {
			e.val(k, false)
		}
	}
}

func (e *Enc) msg(m Msg) {
	switch {
	case e.p == "compact":
		e.b = append(e.b, 0x82, 1|m.Type<<5)
		if e.alt(4) {
			e.uv(uint64(int64(m.ID)))
		} else {
			e.uv(uint64(uint32(m.ID)))
		}
		e.str([]byte(m.Name))
	case e.p == "binary" || e.alt(2):
		e.b = append(e.b, 0x80, 1, 0, m.Type)
		e.str([]byte(m.Name))
		e.b = append(e.b, w4(m.ID)...)
	default:
		e.str([]byte(m.Name))
		e.b = append(e.b, m.Type)
		e.b = append(e.b, w4(m.ID)...)
	}
	e.val(m.Body, false)
}

// -------------------------------------------------------------- walker

// Walk reads a value of type t guided by what the reader returns, drawing
// among the ways to read it; at most limit calls in all.
type Walk struct {
	r     *TR
	g     *G
	skips bool // also skip values
	limit int
}

var errLimit = abort{}

func (w *Walk) value(t byte, depth int) error {
	r, g := w.r, w.g
	if w.limit--; w.limit < 0 || depth > 1500 {
		panic(errLimit)
	}
	if w.skips && g.one(6) {
		return r.skip(thriftwire.Type(t))
	}
	var err error
	switch t {
	case tBool:
		_, err = r.ReadBool()
	case tByte:
		_, err = r.ReadByte()
	case tDouble:
		_, err = r.ReadDouble()
	case tI16:
		_, err = r.ReadI16()
	case tI32:
		_, err = r.ReadI32()
	case tI64:
		_, err = r.ReadI64()
	case tString:
		switch g.Intn(4) {
		case 0:
			buf := make([]byte, g.Intn(5), 5+g.Intn(60))
			for i := range buf {
				buf[i] = byte(g.Uint32())
			}
			if g.one(3) {
				buf = nil
			}
			_, err = r.ReadBytes(buf)
		case 1:
			if w.skips {
				err = r.SkipString()
				break
			}
			fallthrough
		default:
			_, err = r.ReadString()
		}
	case tUUID:
		if w.skips && g.one(4) {
			return r.SkipUUID()
		}
		u := [16]byte{9, 9, 9}
		err = r.ReadUUID(&u)
	case tStruct:
		if _, err = r.ReadStructBegin(); err != nil {
			return err
		}
		for {
			h, err := r.ReadFieldBegin()
			if err != nil {
				return err
			}
			if h.Type == 0 {
				break
			}
			if err := w.value(byte(h.Type), depth+1); err != nil {
				return err
			}
			if err := r.ReadFieldEnd(); err != nil {
				return err
			}
			if w.limit--; w.limit < 0 {
				panic(errLimit)
			}
		}
		return r.ReadStructEnd()
	case tMap:
		h, err := r.ReadMapBegin()
		if err != nil {
			return err
		}
		for i := 0; i < h.Size; i++ {
			if err := w.value(byte(h.Key), depth+1); err != nil {
				return err
			}
			if err := w.value(byte(h.Value), depth+1); err != nil {
				return err
			}
		}
		return r.ReadMapEnd()
	case tSet:
		h, err := r.ReadSetBegin()
		if err != nil {
			return err
		}
		for i := 0; i < h.Size; i++ {
			if err := w.value(byte(h.Element), depth+1); err != nil {
				return err
			}
		}
		return r.ReadSetEnd()
	case tList:
		h, err := r.ReadListBegin()
		if err != nil {
			return err
		}
		for i := 0; i < h.Size; i++ {
			if err := w.value(byte(h.Element), depth+1); err != nil {
				return err
			}
		}
		return r.ReadListEnd()
	default:
		return r.skip(thriftwire.Type(t)) // an error
	}
	return err
}

func (w *Walk) msg() error {
	if _, err := w.r.ReadMessageBegin(); err != nil {
		return err
	}
	if err := w.value(tStruct, 0); err != nil {
		return err
	}
	return w.r.ReadMessageEnd()
}
