package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// Structs of many fields, containers of many elements, many messages.

// wideType draws a struct type of n fields with IDs in no order.
func (g *G) wideType(n int) reflect.Type {
	ids := g.Perm(n)
	base, step := g.pick(1, 0, -n/2, 300, -32768, 32767-n, 32767-3*n), g.pick(1, 1, 3)
	if base+n*step > 32767 {
		step = 1
	}
	small := []reflect.Type{typeOf[bool](), typeOf[int8](), typeOf[uint16](), typeOf[int32](), typeOf[int64](), typeOf[string](), typeOf[[]byte]()}
	var fs []reflect.StructField
	for i, id := range ids {
		t := small[g.Intn(len(small))]
		switch {
		case g.one(12):
			t = reflect.SliceOf(t)
		case g.one(20):
			t = reflect.PointerTo(t)
		case g.one(30):
			t = typeOf[Point]()
		}
		tag := strconv.Itoa(base + id*step)
		if g.one(3) {
			tag += ",required"
		}
		fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: t, Tag: thriftTag(tag)})
	}
	return reflect.StructOf(fs)
}

func (g *G) wideSize() int { return g.pick(13, 17, 33, 65, 80, 129, 200, 257, 300) }

// wideValue draws a stream for most fields of ty.
func (x *X) wideValue(ty reflect.Type) *V {
	f := &Fit{G: x.G, foreign: 3}
	v := &V{T: tStruct}
	for i := 0; i < ty.NumField(); i++ {
		if x.one(5) {
			continue
		}
		x.budget = 5
		v.Fs = append(v.Fs, f.field(ty, i, 2, false)...)
	}
	if x.one(2) {
		x.Shuffle(len(v.Fs), func(i, j int) { v.Fs[i], v.Fs[j] = v.Fs[j], v.Fs[i] })
	}
	return v
}

func (x *X) wideGo(ty reflect.Type) reflect.Value {
	v := reflect.New(ty)
	for i := 0; i < ty.NumField(); i++ {
		x.budget = 5
		x.fill(v.Elem().Field(i), 2, false)
	}
	return v
}

func marshalWide(x *X) {
	ty := x.wideType(x.wideSize())
	x.arsh().marshal(&CW{limit: 5000}, x.wideGo(ty).Interface())
}

func unmarshalWide(x *X) {
	ty := x.wideType(x.wideSize())
	t := x.arsh()
	dst := reflect.New(ty)
	if x.one(2) {
		dst = x.wideGo(ty)
	}
	t.unmarshal(&CR{r: play(x.wideValue(ty)), limit: 5000}, dst)
}

func roundWide(x *X) {
	ty := x.wideType(x.wideSize())
	t := x.arsh()
	in, out := x.wideGo(ty), reflect.New(ty)
	pr := protocol(protos[x.Idx%3])
	var err error
	t.lib(func() {
		var buf bytes.Buffer
		w := pr.NewWriter(&buf)
		if err = errors.Join(thrift.Marshal(w, in.Interface()), w.Flush()); err == nil {
			err = thrift.Unmarshal(pr.NewReader(&buf), out.Interface())
		}
	})
	ti := t.tb.of(ty)
	t.types()
	t.add(Ev{"c": "Round", "e": code(err), "t": ti, "v": t.tb.render(ti, in.Elem(), nil, false), "out": t.tb.render(ti, out.Elem(), nil, false)})
}

// tagsWide: many fields, with at most one thing wrong.
func tagsWide(x *X) {
	t := x.trace("Tags", nil)
	n := x.pick(9, 13, 14, 20, 33, 65, 70, 130, 257)
	var fs []tagField
	for _, id := range x.Perm(n) {
		fs = append(fs, tagField{exported: true, raw: thriftTag(strconv.Itoa(id-n/3) + pick(x.G, "", ",required", ",a"))})
	}
	k := x.pick(0, n-1, x.Intn(n), x.Intn(n))
	switch x.Intn(6) {
	case 0:
		fs[k].raw = fs[x.Intn(n)].raw
	case 1:
		fs[k].raw = thriftTag(x.fieldTag())
	case 2:
		fs[k] = tagField{raw: pick(x.G, reflect.StructTag(""), thriftTag("-"), thriftTag("7"))}
	case 3:
		fs[k].raw = thriftTag("-")
	}
	x.tagged(t, fs, x.one(4))
}

// ------------------------------------------------------------- many elements

// manyOf is a container whose elements follow from their number.
type manyOf struct {
	p    string
	kind byte // of container
	ty   reflect.Type
	elem func(i int) *V
	key  func(i int) *V
	at   func(v reflect.Value, i int) bool // whether element i is as it should be
	set  func(v reflect.Value, n int)      // fills v
}

func manyInt(i int) uint64 { return uint64(i) * 0x9e3779b97f4a7c15 }

// manyKey is different for each i.
func manyKey(i int) int32 { return int32(uint32(i) * 2654435761) }

func manyInts[T int8 | int16 | int32 | int64 | uint8](w byte) manyOf {
	return manyOf{kind: tList, ty: typeOf[[]T](),
		elem: func(i int) *V { return &V{T: w, N: uint64(int64(T(manyInt(i))))} },
		at:   func(v reflect.Value, i int) bool { return v.Interface().([]T)[i] == T(manyInt(i)) },
		set: func(v reflect.Value, n int) {
			s := make([]T, n)
			for i := range s {
				s[i] = T(manyInt(i))
			}
			v.Set(reflect.ValueOf(s))
		}}
}

func manyUUID(i int) (u [16]byte) {
	binary.LittleEndian.PutUint64(u[i%8:], manyInt(i)|1)
	u[15] = byte(i >> 3)
	return u
}

func manyMap[K comparable, E comparable](k, w byte, key func(int) K, elem func(int) E, keyV, elemV func(int) *V) manyOf {
	return manyOf{kind: tMap, ty: typeOf[map[K]E](), key: keyV, elem: elemV,
		at: func(v reflect.Value, i int) bool {
			got, ok := v.Interface().(map[K]E)[key(i)]
			return ok && got == elem(i)
		},
		set: func(v reflect.Value, n int) {
			m := map[K]E{}
			for i := 0; i < n; i++ {
				m[key(i)] = elem(i)
			}
			v.Set(reflect.ValueOf(m))
		}}
}

func manys() []manyOf {
	set := manyInts[int32](tI32)
	set.kind, set.ty = tSet, typeOf[thrift.Set[int32]]()
	set.at = func(v reflect.Value, i int) bool { return v.Interface().(thrift.Set[int32])[i] == int32(manyInt(i)) }
	inner := set.set
	set.set = func(v reflect.Value, n int) {
		s := reflect.New(typeOf[[]int32]()).Elem()
		inner(s, n)
		v.Set(s.Convert(v.Type()))
	}
	return []manyOf{
		manyInts[int8](tByte), manyInts[int16](tI16), manyInts[int64](tI64), set,
		{kind: tList, ty: typeOf[[]bool](), elem: func(i int) *V { return &V{T: tBool, N: manyInt(i) >> 35 & 1} },
			at: func(v reflect.Value, i int) bool { return v.Interface().([]bool)[i] == (manyInt(i)>>35&1 == 1) },
			set: func(v reflect.Value, n int) {
				s := make([]bool, n)
				for i := range s {
					s[i] = manyInt(i)>>35&1 == 1
				}
				v.Set(reflect.ValueOf(s))
			}},
		{kind: tList, ty: typeOf[[]string](), elem: func(i int) *V { return &V{T: tString, B: []byte(strconv.Itoa(i * i))} },
			at: func(v reflect.Value, i int) bool { return v.Interface().([]string)[i] == strconv.Itoa(i*i) },
			set: func(v reflect.Value, n int) {
				s := make([]string, n)
				for i := range s {
					s[i] = strconv.Itoa(i * i)
				}
				v.Set(reflect.ValueOf(s))
			}},
		{kind: tList, ty: typeOf[[]Point](), elem: func(i int) *V {
			v := &V{T: tStruct}
			if i%3 > 0 {
				v.Fs = append(v.Fs, F{1, &V{T: tI32, N: uint64(i)}})
			}
			if i%5 > 0 {
				v.Fs = append(v.Fs, F{2, &V{T: tBool, N: uint64(i & 1)}})
			}
			return v
		}},
		manyMap(tUUID, tByte, manyUUID, func(i int) int8 { return int8(i) }, func(i int) *V { u := manyUUID(i); return &V{T: tUUID, B: u[:]} },
			func(i int) *V { return &V{T: tByte, N: uint64(int64(int8(i)))} }),
		manyMap(tDouble, tString, func(i int) float64 { return float64(i) / 3 }, strconv.Itoa,
			func(i int) *V { return &V{T: tDouble, N: math.Float64bits(float64(i) / 3)} }, func(i int) *V { return &V{T: tString, B: []byte(strconv.Itoa(i))} }),
		manyMap(tStruct, tI64, func(i int) Point { return Point{X: int32(i) + 1, Y: i%2 == 1} }, func(i int) int64 { return int64(i) << 33 },
			func(i int) *V {
				return &V{T: tStruct, Fs: []F{{1, &V{T: tI32, N: uint64(i + 1)}}, {2, &V{T: tBool, N: uint64(i & 1)}}}}
			}, func(i int) *V { return &V{T: tI64, N: uint64(i) << 33} }),
		{kind: tMap, ty: typeOf[map[int32]int16](), key: func(i int) *V { return &V{T: tI32, N: uint64(int64(manyKey(i)))} },
			elem: func(i int) *V { return &V{T: tI16, N: uint64(int64(int16(i)))} },
			at: func(v reflect.Value, i int) bool {
				got, ok := v.Interface().(map[int32]int16)[manyKey(i)]
				return ok && got == int16(i)
			},
			set: func(v reflect.Value, n int) {
				m := map[int32]int16{}
				for i := 0; i < n; i++ {
					m[manyKey(i)] = int16(i)
				}
				v.Set(reflect.ValueOf(m))
			}},
		{kind: tMap, ty: typeOf[map[string]bool](), key: func(i int) *V { return &V{T: tString, B: []byte(strconv.Itoa(i))} },
			elem: func(i int) *V { return &V{T: tBool, N: uint64(i & 1)} },
			at: func(v reflect.Value, i int) bool {
				got, ok := v.Interface().(map[string]bool)[strconv.Itoa(i)]
				return ok && got == (i&1 == 1)
			},
			set: func(v reflect.Value, n int) {
				m := map[string]bool{}
				for i := 0; i < n; i++ {
					m[strconv.Itoa(i)] = i&1 == 1
				}
				v.Set(reflect.ValueOf(m))
			}},
	}
}

func (x *X) manySize() int {
	return x.pick(257, 1000, 1025, 4097, 8193, 16385, 32769, 65537, 70000) + x.Intn(3) - 1
}

func (m manyOf) value(n int) *V {
	v := &V{T: m.kind}
	for i := 0; i < n; i++ {
		if m.key != nil {
			v.Kids = append(v.Kids, m.key(i))
		}
		v.Kids = append(v.Kids, m.elem(i))
	}
	if m.key != nil {
		v.K, v.E = v.Kids[0].T, v.Kids[1].T
	} else {
		v.E = v.Kids[0].T
	}
	return v
}

// encodings of the elements after the header, for comparison.
func (m manyOf) pieces(p string, n int) (map[string]int, int) {
	out := map[string]int{}
	size := 0
	for i := 0; i < n; i++ {
		e := &Enc{p: p}
		if m.key != nil {
			e.val(m.key(i), false)
		}
		e.val(m.elem(i), false)
		out[string(e.b)]++
		size += len(e.b)
	}
	return out, size
}

func same(v reflect.Value, m manyOf, n int) bool {
	if v.Len() != n {
		return false
	}
	for i := 0; i < n; i++ {
		if m.at != nil {
			if !m.at(v, i) {
				return false
			}
			continue
		}
		p := v.Index(i).Interface().(Point)
		want := Point{}
		if i%3 > 0 {
			want.X = int32(i)
		}
		if i%5 > 0 {
			want.Y = i&1 == 1
		}
		if p != want {
			return false
		}
	}
	return true
}

// signed extends the sign of a number.
func (v *V) signed() {
	for _, f := range v.Fs {
		f.V.signed()
	}
	switch v.T {
	case tI16:
		v.N = uint64(int64(int16(v.N)))
	case tI32:
		v.N = uint64(int64(int32(v.N)))
	}
}

func (x *X) many() (string, manyOf) {
	ms := manys()
	return protos[x.Idx%3], ms[x.Idx/3%len(ms)]
}

func (t *AT) many(what string, p string, m manyOf, n int, err error, ok bool) {
	t.add(Ev{"c": "Many", "what": what, "p": p, "type": m.ty.String(), "n": n, "e": code(err), "ok": b01(ok)})
}

func unmarshalMany(x *X) {
	p, m := x.many()
	n := x.manySize()
	t := x.arsh()
	e := &Enc{p: p, g: x.G}
	e.val(m.value(n), false)
	e.b = append(e.b, 0x5a)
	dst := reflect.New(m.ty)
	if m.set != nil && x.one(2) {
		m.set(dst.Elem(), x.pick(1, n-1, n))
	}
	var err error
	var c byte
	t.lib(func() {
		r := protocol(p).NewReader(x.plan(source(e.b)))
		if err = thrift.Unmarshal(r, dst.Interface()); err == nil {
			c, err = r.ReadByte()
		}
	})
	t.many("unmarshal", p, m, n, err, err == nil && c == 0x5a && same(dst.Elem(), m, n))
}

func marshalMany(x *X) {
	p, m := x.many()
	if m.set == nil {
		m = manys()[0]
	}
	n := x.manySize()
	t := x.arsh()
	src := reflect.New(m.ty)
	m.set(src.Elem(), n)
	var buf bytes.Buffer
	var err error
	t.lib(func() {
		w := protocol(p).NewWriter(&buf)
		err = errors.Join(thrift.Marshal(w, src.Interface()), w.Flush())
	})
	ok := same(src.Elem(), m, n)
	if m.kind != tMap {
		e := &Enc{p: p}
		e.val(m.value(n), false)
		ok = ok && bytes.Equal(e.b, buf.Bytes())
	} else {
		// Entries come in any order, each of them once.
		left, size := m.pieces(p, n)
		e := &Enc{p: p}
		e.val(m.value(n), false)
		head := len(e.b) - size
		ok = ok && len(e.b) == buf.Len() && bytes.Equal(e.b[:head], buf.Bytes()[:head])
		if ok {
			r := protocol(p).NewReader(bytes.NewReader(buf.Bytes()[head:]))
			for i := 0; i < n && ok; i++ {
				k, _ := readV(r, m.key(0).T, 0)
				v, _ := readV(r, m.elem(0).T, 0)
				e := &Enc{p: p}
				if ok = k != nil && v != nil; ok {
					k.signed()
					v.signed()
					e.val(k, false)
					e.val(v, false)
					left[string(e.b)]--
					ok = left[string(e.b)] >= 0
				}
			}
			_, err := r.ReadByte()
			ok = ok && err == io.EOF
		}
	}
	t.many("marshal", p, m, n, err, ok)
}

func roundMany(x *X) {
	p, m := x.many()
	if m.set == nil {
		m = manys()[4]
	}
	n := x.manySize()
	t := x.arsh()
	src, dst := reflect.New(m.ty), reflect.New(m.ty)
	m.set(src.Elem(), n)
	var err error
	t.lib(func() {
		var buf bytes.Buffer
		w := protocol(p).NewWriter(&buf)
		if err = errors.Join(thrift.Marshal(w, src.Interface()), w.WriteByte(9), w.Flush()); err == nil {
			r := protocol(p).NewReader(&buf)
			if err = thrift.Unmarshal(r, dst.Interface()); err == nil {
				if c, e := r.ReadByte(); c != 9 || e != nil {
					err = fmt.Errorf("not what follows")
				}
			}
		}
	})
	t.many("round", p, m, n, err, err == nil && same(dst.Elem(), m, n))
}

// usedBig: long strings and lists over other long ones.
func usedBig(x *X) {
	t := x.arsh()
	size := func() int {
		return x.pick(0, 1, 100, 1000, 4095, 4096, 4097, 5000, 8191, 8193, 20000, 65535, 65537, 100000) + x.Intn(2)
	}
	body := func(c byte) []byte { return bytes.Repeat([]byte{c, c + 1, 0xff}, size()/3+1) }
	pr := protocol(protos[x.Idx%3])
	var a struct {
		A []byte            `thrift:"1,required"`
		B string            `thrift:"2,required"`
		C NBytes            `thrift:"3,required"`
		D *[]byte           `thrift:"4,required"`
		E []int64           `thrift:"5,required"`
		F [][]byte          `thrift:"6,required"`
		G map[int8][]byte   `thrift:"7,required"`
		H []string          `thrift:"8,required"`
		I map[string]string `thrift:"9,required"`
	}
	dst := reflect.New(reflect.TypeOf(a))
	for k := 0; k < 4; k++ {
		src := reflect.New(reflect.TypeOf(a))
		p := src.Interface()
		c := byte('a' + 3*k)
		d := body(c)
		v := reflect.ValueOf(p).Elem()
		v.Field(0).SetBytes(body(c))
		v.Field(1).SetString(string(body(c)))
		v.Field(2).SetBytes(body(c))
		v.Field(3).Set(reflect.ValueOf(&d))
		e := make([]int64, size()/4)
		for i := range e {
			e[i] = int64(manyInt(i + k))
		}
		v.Field(4).Set(reflect.ValueOf(e))
		v.Field(5).Set(reflect.ValueOf([][]byte{body(c), body(c), {}, body(c)}[:x.Intn(5)]))
		v.Field(6).Set(reflect.ValueOf(map[int8][]byte{1: body(c), 2: body(c)}))
		v.Field(7).Set(reflect.ValueOf([]string{string(body(c)), string(body(c))}[:x.Intn(3)]))
		v.Field(8).Set(reflect.ValueOf(map[string]string{"a": string(body(c)), "b": string(body(c))}))
		var err error
		left := -1
		t.lib(func() {
			var buf bytes.Buffer
			w := pr.NewWriter(&buf)
			if err = errors.Join(thrift.Marshal(w, p), w.Flush()); err == nil {
				err = thrift.Unmarshal(pr.NewReader(x.plan(source(buf.Bytes()))), dst.Interface())
				left = 0
			}
		})
		ok := left == 0
		for i := 0; i < v.NumField(); i++ {
			// A nil slice and an empty one are the same here.
			ok = ok && fmt.Sprint(reflect.Indirect(v.Field(i)).Interface()) == fmt.Sprint(reflect.Indirect(dst.Elem().Field(i)).Interface()) ||
				ok && v.Field(i).Kind() == reflect.Slice && v.Field(i).Len() == 0 && dst.Elem().Field(i).Len() == 0
		}
		t.add(Ev{"c": "Many", "what": "used", "n": k, "e": code(err), "ok": b01(ok)})
	}
}

// skipMany: a container of many elements, alone or unknown to a struct.
func skipMany(x *X) {
	p, m := x.many()
	n := x.manySize()
	t := x.arsh()
	e := &Enc{p: p, g: x.G}
	v := m.value(n)
	within := x.one(2)
	if within {
		v = &V{T: tStruct, Fs: []F{{99, v}, {1, &V{T: tI32, N: 7}}}}
	}
	e.val(v, false)
	e.b = append(e.b, 0x5a)
	var err error
	var c byte
	pt := Point{X: 7}
	t.lib(func() {
		r := protocol(p).NewReader(x.plan(source(e.b)))
		if within {
			pt = Point{}
			err = thrift.Unmarshal(r, &pt)
		} else {
			err = thriftwire.Skip(r, thriftwire.Type(v.T))
		}
		if err == nil {
			c, err = r.ReadByte()
		}
	})
	t.many("skip", p, m, n, err, err == nil && c == 0x5a && pt == Point{X: 7})
}

// manyResets: a writer and a reader used for many short messages, each of
// them after a reset in the middle of something else.
func manyResets(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		n := x.pick(257, 1025, 5000, 66000) + x.Intn(3) - 1
		var err error
		ok := true
		var junk bytes.Buffer
		e := &Enc{p: p}
		v := &V{T: tStruct, Fs: []F{{7, &V{T: tBool, N: 1}}, {8, &V{T: tStruct, Fs: []F{{1, &V{T: tI16, N: 5}}}}}}}
		e.val(v, false)
		t.lib(func() {
			w, r := protocol(p).NewWriter(&junk), protocol(p).NewReader(&junk)
			for i := 0; i < n && ok && err == nil; i++ {
				var buf bytes.Buffer
				// Begun and left.
				w.WriteStructBegin(thriftwire.StructHeader{})
				w.WriteFieldBegin(thriftwire.FieldHeader{Type: thriftwire.Struct, ID: int16(i)})
				w.WriteStructBegin(thriftwire.StructHeader{})
				w.WriteFieldBegin(thriftwire.FieldHeader{Type: thriftwire.Bool, ID: 3})
				w.Reset(&buf)
				err = errors.Join(w.WriteStructBegin(thriftwire.StructHeader{}),
					w.WriteFieldBegin(thriftwire.FieldHeader{Type: thriftwire.Bool, ID: 7}), w.WriteBool(true), w.WriteFieldEnd(),
					w.WriteFieldBegin(thriftwire.FieldHeader{Type: thriftwire.Struct, ID: 8}), w.WriteStructBegin(thriftwire.StructHeader{}),
					w.WriteFieldBegin(thriftwire.FieldHeader{Type: thriftwire.I16, ID: 1}), w.WriteI16(5), w.WriteFieldEnd(),
					w.WriteStructEnd(), w.WriteFieldEnd(), w.WriteStructEnd(), w.Flush())
				ok = bytes.Equal(buf.Bytes(), e.b)

				r.ReadStructBegin()
				r.ReadFieldBegin()
				r.ReadStructBegin()
				r.ReadFieldBegin()
				r.Reset(bytes.NewReader(e.b))
				_, e1 := r.ReadStructBegin()
				f, e2 := r.ReadFieldBegin()
				b, e3 := r.ReadBool()
				g, e4 := r.ReadFieldBegin()
				_, e5 := r.ReadStructBegin()
				h, e6 := r.ReadFieldBegin()
				err = errors.Join(err, e1, e2, e3, e4, e5, e6)
				ok = ok && b && f.ID == 7 && g.ID == 8 && h.ID == 1
				r.Reset(bytes.NewReader(e.b)) // left in the inner struct
			}
		})
		t.add(Ev{"c": "Many", "n": n, "e": code(err), "ok": b01(ok)})
	}
}

// longInput: reading takes time in proportion to what is read; what takes
// more than that does not end in time.
func longInput(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		var err error
		ok := true
		n := 4 << 20
		list := func(kind byte) io.Reader {
			e := &Enc{p: p}
			v := &V{T: kind, E: tByte}
			if kind == tMap {
				v.K = tByte
			}
			v.Kids = make([]*V, 2*n)
			one := &V{T: tByte}
			for i := range v.Kids {
				v.Kids[i] = one
			}
			if kind != tMap {
				v.Kids = v.Kids[:n]
			}
			e.val(v, false)
			return bytes.NewReader(e.b)
		}
		blob := 96 << 20
		long := func() io.Reader { return io.MultiReader(bytes.NewReader(strHead(p, blob)), &anyBytes{blob}) }
		t.lib(func() {
			switch x.Idx % 6 {
			case 0:
				var s string
				s, err = protocol(p).NewReader(long()).ReadString()
				ok = len(s) == blob
			case 1:
				var b []byte
				b, err = protocol(p).NewReader(long()).ReadBytes(nil)
				ok = len(b) == blob
			case 2:
				var v []int8
				err = thrift.Unmarshal(protocol(p).NewReader(list(tList)), &v)
				ok = len(v) == n
			case 3:
				var v thrift.Set[int8]
				err = thrift.Unmarshal(protocol(p).NewReader(list(tSet)), &v)
				ok = len(v) == n
			case 4:
				err = thriftwire.Skip(protocol(p).NewReader(list(tList)), thriftwire.List)
			case 5:
				var v map[int8]int8
				err = thrift.Unmarshal(protocol(p).NewReader(list(tMap)), &v)
				ok = len(v) == 1
			}
		})
		t.add(Ev{"c": "Many", "what": x.Idx % 6, "e": code(err), "ok": b01(ok)})
	}
}

func init() {
	for _, p := range protos {
		w, r := "C01", "C03"
		if p == "compact" {
			w, r = "C02", "C04"
		}
		register(w, Class{"msgs-" + p, 6, 60, manyMsgs(p)})
		register(r, Class{"msgs-" + p, 6, 60, manyMsgs(p)})
		register("C05", Class{"many-" + p, 6, 60, manyMsgs(p)})
		register("C10", Class{"long-" + p, 6, 6, longInput(p)})
		register("C08", Class{"many-" + p, 8, 80, manyAnswers(p)})
		register("C12", Class{"many-" + p, 6, 60, manyResets(p)})
	}
	register("C06", Class{"many", 36, 270, skipMany})
	register("C13", Class{"wide", 18, 180, marshalWide}, Class{"many", 36, 270, marshalMany})
	register("C14", Class{"wide", 18, 180, unmarshalWide}, Class{"many", 36, 270, unmarshalMany})
	register("C15", Class{"big", 24, 240, usedBig})
	register("C16", Class{"wide", 18, 180, roundWide}, Class{"many", 36, 270, roundMany})
	register("C18", Class{"wide", 24, 240, tagsWide})
}

// oneByOne delivers a message only once the one before was read.
type oneByOne struct {
	left   []byte
	step   int
	waited bool
}

func (s *oneByOne) Read(b []byte) (int, error) {
	if len(s.left) == 0 {
		s.waited = true
		return 0, io.ErrNoProgress
	}
	n := min(len(s.left), len(b), s.step)
	copy(b, s.left[:n])
	s.left = s.left[n:]
	return n, nil
}

// manyAnswers: each of many messages is read once it is there.
func manyAnswers(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		n := x.pick(130, 300, 1000, 5000) + x.Intn(3)
		src := &oneByOne{step: x.pick(1, 3, 100000)}
		var err error
		k := 0
		t.lib(func() {
			r := protocol(p).NewReader(src)
			for ; k < n && err == nil && !src.waited; k++ {
				e := &Enc{p: p, g: x.G}
				e.msg(Msg{Name: "call"[:k%5], Type: byte(k%4 + 1), ID: int32(k), Body: &V{T: tStruct, Fs: []F{{1, &V{T: tI16, N: uint64(k % 100)}}, {2, &V{T: tString, B: []byte("ab")}}}}})
				src.left = e.b
				var h thriftwire.MessageHeader
				if h, err = r.ReadMessageBegin(); err == nil {
					err = errors.Join(thriftwire.Skip(r, thriftwire.Struct), r.ReadMessageEnd())
				}
				if h.ID != int32(k) {
					err = errors.Join(err, fmt.Errorf("another ID"))
				}
			}
		})
		t.add(Ev{"c": "Many", "n": n, "k": k, "e": code(err), "ok": b01(!src.waited && k == n)})
	}
}

// manyMsgs: many messages through one writer and one reader, which may
// each be reset now and then.
func manyMsgs(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		n := x.pick(257, 513, 1025, 5000, 40000, 66000) + x.Intn(3) - 1
		sub := x.Uint32() | 1
		name := func(i int) string { return strconv.Itoa(i * 31)[:i%4] }
		head := func(i int) thriftwire.MessageHeader {
			return thriftwire.MessageHeader{Name: name(i + 1000), Type: thriftwire.MessageType(i%4 + 1), ID: int32(uint32(i) * sub)}
		}
		var err error
		ok := true
		var buf bytes.Buffer
		e, alt := &Enc{p: p}, &Enc{p: p, g: x.G}
		for i := 0; i < n; i++ {
			h := head(i)
			m := Msg{Name: h.Name, Type: byte(h.Type), ID: h.ID, Body: &V{T: tStruct, Fs: []F{{int16(i), &V{T: tI32, N: uint64(int64(int32(i)))}}}}}
			e.msg(m)
			alt.msg(m)
		}
		t.lib(func() {
			w := protocol(p).NewWriter(&buf)
			for i := 0; i < n; i++ {
				err = errors.Join(err, w.WriteMessageBegin(head(i)), w.WriteStructBegin(thriftwire.StructHeader{}),
					w.WriteFieldBegin(thriftwire.FieldHeader{Type: thriftwire.I32, ID: int16(i)}), w.WriteI32(int32(i)), w.WriteFieldEnd(),
					w.WriteStructEnd(), w.WriteMessageEnd())
				if i%3 == 0 {
					err = errors.Join(err, w.Flush())
				}
			}
			err = errors.Join(err, w.Flush())
		})
		ok = ok && bytes.Equal(buf.Bytes(), e.b)
		t.lib(func() {
			r := protocol(p).NewReader(x.plan(source(alt.b)))
			for i := 0; i < n && ok && err == nil; i++ {
				h, e1 := r.ReadMessageBegin()
				_, e2 := r.ReadStructBegin()
				f, e3 := r.ReadFieldBegin()
				v, e4 := r.ReadI32()
				e5 := r.ReadFieldEnd()
				f2, e6 := r.ReadFieldBegin()
				err = errors.Join(e1, e2, e3, e4, e5, e6, r.ReadStructEnd(), r.ReadMessageEnd())
				ok = h == head(i) && f == thriftwire.FieldHeader{Type: thriftwire.I32, ID: int16(i)} && v == int32(i) && f2.Type == thriftwire.Stop
			}
		})
		t.add(Ev{"c": "Many", "n": n, "e": code(err), "ok": b01(ok)})
	}
}

// longStrings: strings and byte slices longer than buffers, there and back.
func longStrings(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		n := x.pick(4000, 4096, 5000, 20000, 70000, 300000) + x.Intn(9)
		s := strings.Repeat(string(rune('a'+x.Intn(26)))+strconv.Itoa(x.Intn(1000)), n)[:n]
		var err error
		ok := true
		t.lib(func() {
			var buf bytes.Buffer
			w := protocol(p).NewWriter(&buf)
			err = errors.Join(w.WriteString(s), w.WriteBytes([]byte(s)), w.WriteString(s), w.WriteByte(7), w.Flush())
			r := protocol(p).NewReader(x.plan(source(buf.Bytes())))
			a, e1 := r.ReadString()
			b, e2 := r.ReadBytes(nil)
			e3 := thriftwire.Skip(r, thriftwire.String)
			c, e4 := r.ReadByte()
			err = errors.Join(err, e1, e2, e3, e4)
			ok = a == s && string(b) == s && c == 7
		})
		t.add(Ev{"c": "Many", "n": n, "e": code(err), "ok": b01(ok)})
	}
}
