package main

import (
	"bytes"
	"io"
	"math"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// Unmarshal from bytes: the source's deliveries, its end, and hostile
// contents.

// honest removes the sizes that only a player can announce.
func honest(v *V) *V {
	switch v.T {
	case tMap, tSet, tList:
		v.N = 0
	}
	for _, k := range v.Kids {
		honest(k)
	}
	for _, f := range v.Fs {
		honest(f.V)
	}
	return v
}

// fitting draws a type and a value for it.
func (x *X) fitting(foreign int) (reflect.Type, *V) {
	for {
		ty := x.gotype(3)
		if x.one(2) {
			ty = zooStructs[x.Intn(len(zooStructs))]
		}
		if wireOf(ty) == tStop {
			continue
		}
		x.budget = 30
		f := &Fit{G: x.G, foreign: foreign}
		return ty, honest(f.val(ty, 5, false))
	}
}

// same records what became of v's bytes.
func (t *AT) same(dst reflect.Value, err error) {
	ev := Ev{"c": "Same", "e": code(err), "v": 0, "objs": []objR{}}
	_, lb := t.tb.dest(reflect.New(dst.Type().Elem()))
	if err == nil {
		t.tb.after(ev, dst, lb)
	}
	t.types()
	t.add(ev)
}

// split makes s deliver its bytes in some way, the kth of many.
func (x *X) split(s *Src, k int) {
	if k > 0 && k < len(s.data) {
		s.plan = []int{k, math.MaxInt32}
		s.withData = x.one(2)
	} else {
		x.plan(s)
	}
}

// deliveries: a few values from one stream, delivered in different ways.
func deliveries(p string) func(*X) {
	return func(x *X) {
		x.big = x.pick(0, 20, 150)
		n := x.Intn(3) + 1
		tys, vs := make([]reflect.Type, n), make([]*V, n)
		e := &Enc{p: p, g: x.G}
		for i := range vs {
			tys[i], vs[i] = x.fitting(5)
			e.val(vs[i], false)
		}
		const K = 4
		from := 1
		if len(e.b) > 1 {
			from += x.Intn(len(e.b) - 1)
		}
		outs := make([][]reflect.Value, K)
		errs := make([][]error, K)
		top := x.arsh()
		for k := range outs {
			outs[k], errs[k] = make([]reflect.Value, n), make([]error, n)
			s := source(e.b)
			x.split(s, from+k)
			var r thriftwire.Reader
			top.lib(func() { r = protocol(p).NewReader(s) })
			for i := range vs {
				outs[k][i] = reflect.New(tys[i])
				top.lib(func() { errs[k][i] = thrift.Unmarshal(r, outs[k][i].Interface()) })
				if errs[k][i] != nil {
					for j := i + 1; j < n; j++ {
						outs[k][j], errs[k][j] = reflect.New(tys[j]), io.ErrNoProgress
					}
					break
				}
			}
		}
		for i, v := range vs {
			if top.unmarshal(&CR{r: play(v), limit: 5000}, reflect.New(tys[i])) != nil {
				return
			}
			for k := range outs {
				top.same(outs[k][i], errs[k][i])
			}
		}
	}
}

// truncated: the stream of a value ends, or its source fails, at every point.
func truncated(p string) func(*X) {
	return func(x *X) {
		t := x.arsh()
		x.big = x.pick(0, 0, 100)
		ty, v := x.fitting(4)
		if t.unmarshal(&CR{r: play(v), limit: 5000}, reflect.New(ty)) != nil {
			return
		}
		e := &Enc{p: p, g: x.G}
		e.val(v, false)
		step := 1 + len(e.b)/40
		for n := x.Intn(step); n <= len(e.b); n += step {
			s := x.plan(source(append([]byte{}, e.b[:n]...)))
			if n == len(e.b) {
				s.withData = x.one(2)
			}
			switch x.Intn(4) {
			case 0, 1:
				s.end = errFault
				if !s.withData && x.one(2) {
					s.rest = e.b[n:]
				}
			case 2:
				s.end = io.ErrUnexpectedEOF
			}
			end := code(s.end)
			dst := reflect.New(ty)
			var err error
			t.lib(func() { err = thrift.Unmarshal(protocol(p).NewReader(s), dst.Interface()) })
			t.add(Ev{"c": "Cut", "n": n, "of": len(e.b), "end": end, "e": code(err)})
			if n == len(e.b) {
				t.same(dst, err)
			}
		}
	}
}

// enough: nothing is asked for once a value is there.
func enough(p string) func(*X) {
	return func(x *X) {
		t := x.arsh()
		x.big = x.pick(0, 0, 60)
		s := source(nil)
		var r thriftwire.Reader
		t.lib(func() { r = protocol(p).NewReader(s) })
		for k := x.Intn(4) + 1; k > 0; k-- {
			ty, v := x.fitting(4)
			if t.unmarshal(&CR{r: play(v), limit: 5000}, reflect.New(ty)) != nil {
				return
			}
			e := &Enc{p: p, g: x.G}
			e.val(v, false)
			s.data = append(s.data[:len(s.data):len(s.data)], e.b...)
			s.lastAsked, s.step, s.plan = -1, 0, nil
			x.plan(s)
			s.withData = false
			dst := reflect.New(ty)
			var err error
			t.lib(func() { err = thrift.Unmarshal(r, dst.Interface()) })
			t.add(Ev{"c": "Equal", "a": b01(s.lastAsked == len(s.data)), "b": 0})
			t.same(dst, err)
		}
	}
}

// largest is the size of the largest part of a value of type t.
func largest(t reflect.Type, seen map[reflect.Type]bool) int {
	if seen[t] {
		return 0
	}
	seen[t] = true
	n := int(t.Size())
	switch t.Kind() {
	case reflect.Slice, reflect.Array, reflect.Pointer:
		n = max(n, largest(t.Elem(), seen))
	case reflect.Map:
		n = max(n, largest(t.Key(), seen)+largest(t.Elem(), seen))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			n = max(n, largest(t.Field(i).Type, seen))
		}
	}
	return n
}

// measured unmarshals b and records how much was allocated for that.
func (t *AT) measured(p string, ty reflect.Type, b []byte) error {
	dst := reflect.New(ty)
	var err error
	// The first use of a type costs once.
	t.lib(func() { err = thrift.Unmarshal(protocol(p).NewReader(bytes.NewReader(nil)), dst.Interface()) })
	before := allocated()
	t.lib(func() { err = thrift.Unmarshal(protocol(p).NewReader(bytes.NewReader(b)), dst.Interface()) })
	kb := min(int(allocated()-before)/1024, 1<<30)
	t.add(Ev{"c": "Mem", "kb": kb, "kin": len(b)/1024 + 1, "mul": 64 + 400*largest(ty, map[reflect.Type]bool{})})
	return err
}

// hostileValues: damaged streams, and sizes that are not true.
func hostileValues(p string) func(*X) {
	return func(x *X) {
		t := x.arsh()
		for k := 0; k < 12; k++ {
			x.big = x.pick(0, 0, 60)
			ty, v := x.fitting(6)
			e := &Enc{p: p, g: x.G}
			if x.one(2) {
				e.lie = x.pick(1, 2, 5)
			}
			e.val(v, false)
			b := e.b
			if e.lie == 0 || x.one(4) {
				for i := x.Intn(4) + 1; i > 0 && len(b) > 0; i-- {
					j := x.Intn(len(b))
					switch x.Intn(4) {
					case 0:
						b[j] = byte(x.Uint32())
					case 1:
						b[j] ^= 1 << x.Intn(8)
					case 2:
						b[j] = byte(x.pick(0, 255, 127, 128))
					case 3:
						b = append(b[:j], b[min(len(b), j+x.Intn(4)+1):]...)
					}
				}
			}
			t.measured(p, ty, b)
		}
	}
}

// A type that refers to itself by each kind, and what opens a level of it,
// opens the last one, and ends one.
type (
	RecSet struct {
		S thrift.Set[RecSet] `thrift:"1"`
	}
	RecBytes map[int8]RecBytes
	RecWide  struct {
		A, B, C, D [16]byte          `thrift:"-"`
		L          []RecWide         `thrift:"1"`
		M          map[int8]*RecWide `thrift:"2"`
	}
)

func levels(p string, kind int, size int32) (ty reflect.Type, open, last, shut []byte) {
	c := p == "compact"
	n := w4(size)
	e := &Enc{p: p}
	e.uv(uint64(uint32(size)))
	switch kind {
	case 0:
		ty, open, last, shut = typeOf[Node](), []byte{tStruct, 0, 1}, nil, []byte{0}
		if c {
			open = []byte{0x1c}
		}
	case 1:
		ty, open, last = typeOf[RecSlice](), append([]byte{tList}, n...), []byte{tList, 0, 0, 0, 0}
		if c {
			open, last = append([]byte{0xf9}, e.b...), []byte{0x09}
		}
	case 2:
		ty, open, last = typeOf[RecBytes](), append(append([]byte{tByte, tMap}, n...), 7), []byte{tByte, tMap, 0, 0, 0, 0}
		if c {
			open, last = append(append([]byte{}, e.b...), 0x3b, 7), []byte{0}
		}
	case 3: // two levels each
		ty, open, last, shut = typeOf[RecSet](), append([]byte{tSet, 0, 1, tStruct}, n...), nil, []byte{0}
		if c {
			open = append([]byte{0x1a, 0xfc}, e.b...)
		}
	case 4: // the same
		ty, open, last, shut = typeOf[RecWide](), append([]byte{tList, 0, 1, tStruct}, n...), nil, []byte{0}
		if c {
			open = append([]byte{0x19, 0xfc}, e.b...)
		}
	case 5: // not a field of the type
		ty, open, last, shut = typeOf[Empty](), []byte{tStruct, 0, 1}, nil, []byte{0}
		if c {
			open = []byte{0x1c}
		}
	}
	return
}

// nestedValues: types that refer to themselves, around the limit and far beyond
// it; and as deep with false sizes everywhere.
func nestedValues(p string) func(*X) {
	return func(x *X) {
		t := x.arsh()
		kind := x.Idx % 6
		// Levels per opening, and those of the innermost.
		per, in := 1, 1
		if kind == 3 || kind == 4 {
			per = 2
		}
		for _, depth := range []int{2, 3, 1000, 9997, 9998, 9999, 10000, 10001, 10002, 10003, 100000, 2000000} {
			if (depth-in)%per != 0 || kind == 5 && depth > 9000 && depth < 12000 {
				continue
			}
			ty, open, last, shut := levels(p, kind, 1)
			b := bytes.Repeat(open, (depth-in)/per)
			b = append(b, last...)
			if shut != nil {
				b = append(b, bytes.Repeat(shut, (depth-in)/per+1)...)
			}
			t.add(Ev{"c": "Deep", "depth": depth, "e": code(t.measured(p, ty, b))})
		}
		ty, open, _, _ := levels(p, kind, int32(x.pick(1<<31-1, 1<<20, 1000, 70000)))
		if err := t.measured(p, ty, bytes.Repeat(open, x.pick(1000, 9000/per, 5000/per))); err == nil {
			t.add(Ev{"c": "Cut", "n": 0, "of": 1, "end": 1, "e": 0})
		}
	}
}

func init() {
	for _, p := range protos {
		register("C07", Class{"values-" + p, 120, 1200, deliveries(p)})
		register("C08", Class{"values-" + p, 120, 1200, enough(p)})
		register("C09", Class{"values-" + p, 120, 1200, truncated(p)})
		register("C10", Class{"values-" + p, 120, 2000, hostileValues(p)}, Class{"nested-" + p, 6, 12, nestedValues(p)})
	}
}
