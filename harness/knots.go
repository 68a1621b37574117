package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// A type that refers to itself in many ways.
type (
	Knot struct {
		A *Knot               `thrift:"-7"`
		B []Knot              `thrift:"1"`
		C map[int8]*Knot      `thrift:"2"`
		D thrift.Set[*Knot]   `thrift:"300"`
		E map[KnotKey]bool    `thrift:"4"`
		F *KnotHop            `thrift:"-32768"`
		G []map[string][]Knot `thrift:"5"`
		H **Knot              `thrift:"32767"`
		I map[string]Knot     `thrift:"0"`
		J *[]*[]Knot          `thrift:"16"`
		L int32               `thrift:"6"`
	}
	KnotKey struct {
		M *map[KnotKey]bool `thrift:"1"`
		K *Knot             `thrift:"-2"`
	}
	KnotHop struct {
		L []byte `thrift:"2"`
		K Knots  `thrift:"1"`
	}
	Knots []Knot
)

const knotSteps = 11

// knotStep wraps a knot (or, for 10, a key) into one more, levels deeper.
func (x *X) knotStep(kind int, v *V) (out *V, levels int) {
	list := func(e *V) *V { return &V{T: tList, E: e.T, Kids: []*V{e}} }
	str := func(e *V) *V { return &V{T: tStruct, Fs: []F{{1, e}}} }
	one := func(id int16, e *V) *V {
		s := &V{T: tStruct, Fs: []F{{id, e}}}
		if x.one(4) {
			s.Fs = append(s.Fs, F{6, &V{T: tI32, N: 5}})
		}
		if x.one(4) {
			s.Fs = append([]F{{99, &V{T: tBool, N: 1}}}, s.Fs...)
		}
		return s
	}
	keyed := func(k, e *V) *V { return &V{T: tMap, K: k.T, E: e.T, Kids: []*V{k, e}} }
	yes := &V{T: tBool, N: 1}
	switch kind {
	case 0:
		return one(-7, v), 1
	case 1:
		return one(1, list(v)), 2
	case 2:
		return one(2, keyed(&V{T: tByte, N: 3}, v)), 2
	case 3:
		return one(300, &V{T: tSet, E: v.T, Kids: []*V{v}}), 2
	case 4:
		return one(4, keyed(&V{T: tStruct, Fs: []F{{-2, v}}}, yes)), 3
	case 5:
		return one(-32768, str(list(v))), 3
	case 6:
		return one(5, list(keyed(&V{T: tString}, list(v)))), 4
	case 7:
		return one(32767, v), 1
	case 8:
		return one(0, keyed(&V{T: tString, B: []byte("k")}, v)), 2
	case 9:
		return one(16, list(list(v))), 3
	default: // many keys within keys
		k := &V{T: tStruct, Fs: []F{{-2, v}}}
		n := 1 + x.Intn(20)
		for i := 0; i < n; i++ {
			k = str(keyed(k, yes))
		}
		return one(4, keyed(k, yes)), 3 + 2*n
	}
}

// knot draws a knot of exactly that depth, repeating few steps.
func (x *X) knot(depth int) *V {
	v, d := &V{T: tStruct}, 1
	period := make([]int, 1+x.Intn(3))
	for i := range period {
		period[i] = x.Intn(knotSteps)
	}
	if x.Idx < knotSteps {
		period = []int{x.Idx}
	}
	for i := 0; d < depth; i++ {
		n, l := x.knotStep(period[i%len(period)], v)
		if d+l > depth {
			n, l = x.knotStep(0, v)
		}
		v, d = n, d+l
	}
	return v
}

// knots: read around the limit and far beyond it.
func knots(p string) func(*X) {
	return func(x *X) {
		t := x.arsh()
		for _, d := range []int{1 + x.Intn(50), 100 + x.Intn(9000), 9999, 10000, 10001, 10002 + x.Intn(30), 11000 + x.Intn(20000), 100000} {
			e := &Enc{p: p, g: x.G}
			e.val(x.knot(d), false)
			var err error
			k := new(Knot)
			t.lib(func() { err = thrift.Unmarshal(protocol(p).NewReader(bytes.NewReader(e.b)), k) })
			t.add(Ev{"c": "Deep", "depth": d, "e": code(err)})
		}
	}
}

// knotValues: what was read is written again, and nothing without end is.
func knotValues(x *X) {
	t := x.trace("Tags", nil)
	p := protos[x.Intn(3)]
	for _, d := range []int{1 + x.Intn(50), 100 + x.Intn(9000), 9999, 10000} {
		e := &Enc{p: p, g: x.G}
		e.val(x.knot(d), false)
		var err error
		k := new(Knot)
		t.lib(func() { err = thrift.Unmarshal(protocol(p).NewReader(bytes.NewReader(e.b)), k) })
		if err == nil {
			var out bytes.Buffer
			w := protocol(p).NewWriter(&out)
			t.lib(func() { err = thrift.Marshal(w, k) })
		}
		t.add(Ev{"c": "Deep", "depth": d, "e": code(err)})
	}
	// Rings: a path of steps back to where it began.
	for n := 0; n < 20; n++ {
		first := new(Knot)
		at := first
		steps := 1 + x.Intn(4)
		for i := 0; i < steps; i++ {
			to := new(Knot)
			if i == steps-1 {
				to = first
			}
			x.tie(at, to)
			at = to
		}
		var v any = first
		if x.one(3) {
			v = *first
		} else if x.one(3) {
			v = map[string][]*Knot{"r": {first}}
		}
		var err error
		t.lib(func() { err = thrift.Marshal(&textW{}, v) })
		t.add(Ev{"c": "Cycle", "e": code(err), "sem": sem(err)})
	}
	// The same by way of maps and slices, without a pointer to a knot.
	m := map[string]Knot{}
	m["x"] = Knot{I: m}
	b := make([]Knot, 1)
	b[0].B = b
	h := Knots{{F: &KnotHop{}}}
	h[0].F.K = h
	g := []map[string][]Knot{{"g": {{}}}}
	g[0]["g"][0].G = g
	km := map[KnotKey]bool{}
	km[KnotKey{M: &km}] = true
	ks := make([]Knot, 1)
	js := []*[]Knot{&ks}
	ks[0].J = &js
	for _, v := range []any{m, Knot{B: b}, h, g, km, ks} {
		var err error
		t.lib(func() { err = thrift.Marshal(&textW{}, v) })
		t.add(Ev{"c": "Cycle", "e": code(err), "sem": sem(err)})
	}
}

// tie makes one knot refer to the other.
func (x *X) tie(at, to *Knot) {
	switch x.Intn(6) {
	case 0:
		at.A = to
	case 1:
		at.C = map[int8]*Knot{1: nil, 2: to}
	case 2:
		at.D = thrift.Set[*Knot]{nil, to}
	case 3:
		at.E = map[KnotKey]bool{{K: to}: true}
	case 4:
		m := map[KnotKey]bool{{K: to}: false}
		at.E = map[KnotKey]bool{{M: &m}: true}
	case 5:
		at.H = &to
	}
}

// ------------------------------------------------ anything after a reset

// outcome makes a call, however senseless; a panic is an outcome like others.
func outcome(f func() (any, error)) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = "panic "
		}
	}()
	v, err := f()
	return fmt.Sprintf("%v:%d ", v, code(err))
}

type anyCall struct {
	name string
	args []reflect.Value
}

// anyCalls draws calls of w's or r's methods in no sensible order.
func (x *X) anyCalls(t reflect.Type, n int) []anyCall {
	var out []anyCall
	for len(out) < n {
		m := t.Method(x.Intn(t.NumMethod()))
		if m.Name == "Reset" {
			continue
		}
		if x.one(3) {
			m, _ = t.MethodByName(pick(x.G, "WriteStructBegin", "WriteStructEnd", "WriteFieldBegin", "WriteBool", "ReadStructBegin", "ReadStructEnd", "ReadFieldBegin", "ReadBool"))
			if m.Type == nil {
				continue
			}
		}
		c := anyCall{name: m.Name}
		typ := func() thriftwire.Type {
			if x.one(10) {
				return thriftwire.Type(x.Intn(256))
			}
			return thriftwire.Type(pick(x.G, valueTypes...))
		}
		for i := 0; i < m.Type.NumIn(); i++ {
			var a any
			switch m.Type.In(i) {
			case typeOf[thriftwire.MessageHeader]():
				a = thriftwire.MessageHeader{Name: string(x.str()), Type: thriftwire.MessageType(x.Intn(6)), ID: int32(x.bits())}
			case typeOf[thriftwire.StructHeader]():
				a = thriftwire.StructHeader{Name: "s"}
			case typeOf[thriftwire.FieldHeader]():
				a = thriftwire.FieldHeader{Type: typ(), ID: x.id()}
			case typeOf[thriftwire.MapHeader]():
				a = thriftwire.MapHeader{Key: typ(), Value: typ(), Size: x.pick(-1, 0, 1, 2, 15, 300)}
			case typeOf[thriftwire.SetHeader]():
				a = thriftwire.SetHeader{Element: typ(), Size: x.pick(-1, 0, 1, 2, 15, 300)}
			case typeOf[thriftwire.ListHeader]():
				a = thriftwire.ListHeader{Element: typ(), Size: x.pick(-1, 0, 1, 2, 15, 300)}
			case typeOf[bool]():
				a = x.one(2)
			case typeOf[byte]():
				a = byte(x.Uint32())
			case typeOf[float64]():
				a = math.Float64frombits(x.double())
			case typeOf[int16]():
				a = int16(x.bits())
			case typeOf[int32]():
				a = int32(x.bits())
			case typeOf[int64]():
				a = int64(x.bits())
			case typeOf[string]():
				a = string(x.str())
			case typeOf[[]byte]():
				a = append([]byte{}, x.str()...)
			case typeOf[*[16]byte]():
				a = &[16]byte{1, 2, byte(x.Intn(256))}
			}
			c.args = append(c.args, reflect.ValueOf(a))
		}
		out = append(out, c)
	}
	return out
}

func (c anyCall) on(v reflect.Value) string {
	return outcome(func() (any, error) {
		out := v.MethodByName(c.name).Call(c.args)
		err, _ := out[len(out)-1].Interface().(error)
		if len(out) == 1 {
			if len(c.args) == 1 && c.args[0].Kind() == reflect.Pointer {
				return *c.args[0].Interface().(*[16]byte), err
			}
			return "", err
		}
		if f, ok := out[0].Interface().(float64); ok {
			return math.Float64bits(f), err
		}
		return out[0].Interface(), err
	})
}

// resetAnything: the same calls, in any order, to a reset one and a new one.
func resetAnything(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		x.big = 40
		wt, rt := typeOf[thriftwire.Writer](), typeOf[thriftwire.Reader]()
		for k := 0; k < 4; k++ {
			// A writer.
			w := protocol(p).NewWriter(io.Discard)
			for n := x.Intn(4); n >= 0; n-- {
				for _, c := range x.anyCalls(wt, x.Intn(12)) {
					c.on(reflect.ValueOf(w))
				}
				if n > 0 {
					w.Reset(io.Discard)
				}
			}
			var got, want bytes.Buffer
			var a, b string
			t.lib(func() { w.Reset(&got) })
			f := protocol(p).NewWriter(&want)
			for _, c := range x.anyCalls(wt, 3+x.Intn(12)) {
				a += c.on(reflect.ValueOf(w))
				b += c.on(reflect.ValueOf(f))
			}
			a += outcome(func() (any, error) { err := w.Flush(); return got.Bytes(), err })
			b += outcome(func() (any, error) { err := f.Flush(); return want.Bytes(), err })
			t.add(Ev{"c": "Same", "a": B(a), "b": B(b)})

			// A reader.
			doc := func() []byte {
				e := &Enc{p: p, g: x.G}
				for i := x.Intn(3); i >= 0; i-- {
					e.val(x.boolish(), false)
				}
				if x.one(3) {
					e.b = e.b[:x.Intn(len(e.b))]
				}
				if x.one(3) {
					x.Read(e.b[x.Intn(len(e.b)+1):])
				}
				return e.b
			}
			r := protocol(p).NewReader(bytes.NewReader(doc()))
			for n := x.Intn(4); n >= 0; n-- {
				for _, c := range x.anyCalls(rt, x.Intn(12)) {
					c.on(reflect.ValueOf(r))
				}
				if n > 0 {
					r.Reset(bytes.NewReader(doc()))
				}
			}
			d := doc()
			a, b = "", ""
			t.lib(func() { r.Reset(bytes.NewReader(d)) })
			g := protocol(p).NewReader(bytes.NewReader(d))
			for _, c := range x.anyCalls(rt, 3+x.Intn(20)) {
				a += c.on(reflect.ValueOf(r))
				b += c.on(reflect.ValueOf(g))
			}
			t.add(Ev{"c": "Same", "a": B(a), "b": B(b)})
		}
	}
}

func init() {
	for _, p := range protos {
		register("C10", Class{"knots-" + p, knotSteps + 4, 60, knots(p)})
		register("C12", Class{"anything-" + p, 200, 2000, resetAnything(p)})
	}
	register("C18", Class{"knots", knotSteps + 4, 60, knotValues})
}
