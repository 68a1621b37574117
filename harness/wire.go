package main

import (
	"bufio"
	"bytes"
	"io"
	"math"
	"runtime"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

func (x *X) wire(p string) *Trace {
	return x.trace("Wire", map[string]any{"p": p, "srcs": []B{}, "fks": []int{}, "ask": 0})
}

func noFail() *Sink { return &Sink{failAt: -1} }

func source(data []byte) *Src { return &Src{data: data, end: io.EOF, lastAsked: -1} }

// plan draws how a source delivers its bytes.
func (x *X) plan(s *Src) *Src {
	switch x.Intn(7) {
	case 0:
	case 1:
		s.plan = []int{1}
	case 2:
		s.plan = []int{x.Intn(6) + 1}
	case 3:
		s.plan = []int{1, 0, 2, 0, 0}
	case 4:
		s.plan = []int{x.pick(4095, 4096, 4097, 2048, 1000)}
	case 5:
		for i := x.Intn(9) + 2; i > 0; i-- {
			s.plan = append(s.plan, x.Intn(7))
		}
	default:
		for i := x.Intn(9) + 2; i > 0; i-- {
			s.plan = append(s.plan, x.Intn(40)+1)
		}
	}
	s.withData = x.one(2)
	return s
}

// writeDocs: any number of values and messages, flushed now and then.
func writeDocs(p string, big int) func(*X) {
	return func(x *X) {
		x.big = big
		t := x.wire(p)
		s := noFail()
		s.has = x.one(2)
		w := newTW(t, protocol(p), s)
		n := x.Intn(6) + 1
		for i := 0; i < n; i++ {
			if x.one(2) {
				emitMsg(w, x.msg())
			} else {
				emit(w, x.value())
			}
			if x.one(3) {
				w.Flush()
			}
		}
		w.Flush()
		w.end()
	}
}

// writeMany: one writer used for many messages.
func writeMany(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		w := newTW(t, protocol(p), noFail())
		for i := 0; i < 60; i++ {
			x.budget = 6
			emitMsg(w, Msg{Name: "m", Type: byte(i%4 + 1), ID: int32(i), Body: x.val(tStruct, 2)})
			if i%9 == 0 {
				w.Flush()
			}
		}
		w.Flush()
		w.end()
	}
}

// chain nests structs (or containers) n deep.
func (x *X) chain(n int) *V {
	v := &V{T: tI16, N: 7}
	for i := 0; i < n; i++ {
		switch x.Intn(6) {
		case 0:
			v = &V{T: tList, E: v.T, Kids: []*V{v}}
		case 1:
			v = &V{T: tMap, K: tByte, E: v.T, Kids: []*V{{T: tByte, N: 1}, v}}
		default:
			s := &V{T: tStruct, Fs: []F{{x.id(), v}}}
			if x.one(2) {
				s.Fs = append(s.Fs, F{x.id(), &V{T: tBool, N: uint64(x.Intn(2))}})
			}
			if x.one(2) {
				s.Fs = append([]F{{x.id(), &V{T: tI32, N: uint64(i)}}}, s.Fs...)
			}
			if x.one(4) {
				if f := (F{x.id(), x.aside()}); x.one(2) {
					s.Fs = append(s.Fs, f)
				} else {
					s.Fs = append([]F{f}, s.Fs...)
				}
			}
			v = s
		}
	}
	return v
}

// aside is a small value beside a deep one, often of booleans.
func (x *X) aside() *V {
	b := func() *V { return &V{T: tBool, N: uint64(x.Intn(2))} }
	switch x.Intn(6) {
	case 0:
		return &V{T: tList, E: tBool, Kids: []*V{b(), b(), b()}}
	case 1:
		return &V{T: tSet, E: tBool, Kids: []*V{b()}}
	case 2:
		return &V{T: tMap, K: tBool, E: tBool, Kids: []*V{b(), b(), b(), b()}}
	case 3:
		return b()
	case 4:
		return &V{T: tStruct, Fs: []F{{x.id(), b()}, {x.id(), &V{T: tList, E: tBool, Kids: []*V{b(), b()}}}}}
	default:
		return x.val(scalarTypes[x.Intn(len(scalarTypes))], 0)
	}
}

func (x *X) depths() int {
	if x.Idx == 0 {
		return 1700
	}
	return x.pick(10, 40, 150, 300)
}

func writeDeep(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		w := newTW(t, protocol(p), noFail())
		emit(w, x.chain(x.depths()))
		emit(w, x.value())
		w.Flush()
		w.end()
	}
}

// writeEdges: every kind of call with the buffer filled to around its edge.
func writeEdges(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		s := noFail()
		w := newTW(t, protocol(p), s)
		kind := x.Idx % 16
		for off := -20; off <= 2; off++ {
			if (off+x.Idx/16+40)%2 == 0 {
				continue
			}
			pad := make([]byte, 4096+off-4)
			w.WriteBytes(pad)
			switch kind {
			case 0:
				w.WriteI64(math.MinInt64)
			case 1:
				w.WriteI32(math.MaxInt32)
			case 2:
				w.WriteI16(-300)
			case 3:
				w.WriteByte(200)
				w.WriteBool(true)
			case 4:
				w.WriteDouble(math.Pi)
			case 5:
				w.WriteUUID(&[16]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16})
			case 6:
				w.WriteString("abcdefgh")
			case 7:
				w.WriteBytes([]byte("abcdefghijkl"))
			case 8:
				w.WriteMessageBegin(thriftwire.MessageHeader{Name: "name", Type: 1, ID: -1})
			case 9:
				w.WriteStructBegin(thriftwire.StructHeader{})
				w.WriteFieldBegin(thriftwire.FieldHeader{Type: tI16, ID: 30000})
				w.WriteI16(1)
				w.WriteFieldEnd()
				w.WriteStructEnd()
			case 10:
				w.WriteStructBegin(thriftwire.StructHeader{})
				w.WriteFieldBegin(thriftwire.FieldHeader{Type: tBool, ID: -30000})
				w.WriteBool(off%2 == 0)
				w.WriteFieldEnd()
				w.WriteStructEnd()
			case 11:
				w.WriteMapBegin(thriftwire.MapHeader{Key: tBool, Value: tUUID, Size: math.MaxInt32})
			case 12:
				w.WriteSetBegin(thriftwire.SetHeader{Element: tBool, Size: math.MaxInt32})
			case 13:
				w.WriteListBegin(thriftwire.ListHeader{Element: tStruct, Size: 20000})
			case 14:
				w.WriteI64(1 << 48)
				w.WriteI64(-1)
			case 15:
				w.WriteStructBegin(thriftwire.StructHeader{})
				w.WriteStructEnd()
			}
			w.Flush()
			if off%3 == 0 {
				s = noFail()
				w.reset(s)
			}
		}
		w.end()
	}
}

// writeSizes: container sizes of every magnitude.
func writeSizes(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		w := newTW(t, protocol(p), noFail())
		sizes := []int{0, 1, 2, 13, 14, 15, 16, 127, 128, 129, 255, 256, 16383, 16384, 65535, 65536, 1 << 21, 1<<28 - 1, 1 << 28, math.MaxInt32 - 1, math.MaxInt32}
		if p != "compact" {
			sizes = append(sizes, math.MaxInt32+1, 1<<32-1, 1<<32, 1<<32+5, 1<<33, 1<<62, math.MaxInt64, -1, -2, math.MinInt32, math.MinInt32-1, math.MinInt64, -1<<32, -1<<32+3)
		}
		for _, n := range sizes {
			for _, e := range valueTypes {
				if !x.one(3) {
					continue
				}
				switch x.Intn(3) {
				case 0:
					w.WriteListBegin(thriftwire.ListHeader{Element: thriftwire.Type(e), Size: n})
				case 1:
					w.WriteSetBegin(thriftwire.SetHeader{Element: thriftwire.Type(e), Size: n})
				case 2:
					w.WriteMapBegin(thriftwire.MapHeader{Key: thriftwire.Type(e), Value: thriftwire.Type(valueTypes[x.Intn(len(valueTypes))]), Size: n})
				}
				w.Flush()
				w.reset(noFail())
			}
		}
		w.end()
	}
}

// writeScalars: runs of scalars of one kind, boundary values included.
func writeScalars(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		w := newTW(t, protocol(p), noFail())
		for i := 0; i < 120; i++ {
			switch x.Idx % 8 {
			case 0:
				w.WriteI16(int16(x.bits()))
			case 1:
				w.WriteI32(int32(x.bits()))
			case 2:
				w.WriteI64(int64(x.bits()))
			case 3:
				w.WriteDouble(math.Float64frombits(x.double()))
			case 4:
				w.WriteByte(byte(i + x.Idx*16))
			case 5: // every power of two
				v := int64(1) << (i % 64)
				w.WriteI64(v - 1 + int64(x.Intn(3)))
				w.WriteI64(-v - 1 + int64(x.Intn(3)))
			case 6:
				w.WriteBool(x.one(2))
				u := [16]byte(x.val(tUUID, 0).B)
				w.WriteUUID(&u)
			case 7:
				w.WriteI16(int16(1)<<(i%16) - 1 + int16(x.Intn(3)))
				w.WriteI32(int32(1)<<(i%32) - 1 + int32(x.Intn(3)))
			}
		}
		w.Flush()
		w.end()
	}
}

// writeIDs: structs with many fields in every ID order.
func writeIDs(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		w := newTW(t, protocol(p), noFail())
		v := &V{T: tStruct}
		id := x.id()
		for i := 0; i < 50; i++ {
			switch x.Intn(5) {
			case 0:
				id = x.id()
			case 1:
				id += int16(x.Intn(70) - 35)
			case 2:
				id += int16(x.pick(1, 14, 15, 16, 17, 0, -1, -15, -16))
			case 3:
				id = []int16{math.MaxInt16, math.MinInt16, math.MinInt16 + 14, math.MaxInt16 - 14, 0}[x.Intn(5)]
			}
			var f *V
			if x.one(2) {
				f = &V{T: tBool, N: uint64(x.Intn(2))}
			} else {
				x.budget = 5
				f = x.val(x.typ(2), 2)
			}
			v.Fs = append(v.Fs, F{id, f})
		}
		emit(w, v)
		w.Flush()
		w.end()
	}
}

func bigBody(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	return b
}

// writeHuge: payloads many times the buffer.
func writeHuge(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		w := newTW(t, protocol(p), noFail())
		w.WriteI32(5)
		for _, n := range []int{x.pick(4096, 8192, 12288) + x.Intn(9) - 4, x.pick(30000, 65535, 65536, 70000)} {
			if x.one(2) {
				w.WriteString(string(bigBody(n)))
			} else {
				w.WriteBytes(bigBody(n))
			}
			w.WriteI16(3)
		}
		w.Flush()
		w.end()
	}
}

// helperHeaders: the exported functions that append compact headers.
func helperHeaders(x *X) {
	t := x.wire("compact")
	for i := 0; i < 150; i++ {
		pre := make([]byte, x.Intn(4), 4+x.Intn(30))
		x.Read(pre)
		if x.one(8) {
			pre = nil
		}
		var out []byte
		var err error
		var ev Ev
		typ := thriftwire.Type(valueTypes[x.Intn(len(valueTypes))])
		if x.one(12) {
			typ = thriftwire.Type(x.pick(0, 1, 5, 7, 9, 17, 200))
		}
		size := int(x.bits() >> 1)
		if x.one(2) {
			size = x.Intn(40)
		}
		want := string(pre)
		t.lib(func() {
			switch x.Intn(4) {
			case 0:
				id, last := x.id(), x.id()
				if x.one(2) {
					last = id - int16(x.Intn(40)-10)
				}
				v := x.one(2)
				ev = Ev{"c": "HField", "t": int(typ), "id": int(id), "last": int(last), "v": b01(v), "max": thriftcompact.MaxFieldHeaderSize}
				out, err = thriftcompact.AppendFieldHeader(pre, thriftwire.FieldHeader{Type: typ, ID: id}, v, last)
			case 1:
				v := thriftwire.Type(valueTypes[x.Intn(len(valueTypes))])
				ev = Ev{"c": "HMap", "k": int(typ), "v": int(v), "s": w8(uint64(size)), "max": thriftcompact.MaxMapHeaderSize}
				out, err = thriftcompact.AppendMapHeader(pre, thriftwire.MapHeader{Key: typ, Value: v, Size: size})
			case 2:
				ev = Ev{"c": "HSet", "t": int(typ), "s": w8(uint64(size)), "max": thriftcompact.MaxSetHeaderSize}
				out, err = thriftcompact.AppendSetHeader(pre, thriftwire.SetHeader{Element: typ, Size: size})
			case 3:
				ev = Ev{"c": "HSet", "t": int(typ), "s": w8(uint64(size)), "max": thriftcompact.MaxListHeaderSize}
				out, err = thriftcompact.AppendListHeader(pre, thriftwire.ListHeader{Element: typ, Size: size})
			}
		})
		ev["e"] = code(err)
		ev["pre"] = b01(string(pre) == want && strings.HasPrefix(string(out), want))
		ev["b"] = B{}
		if err == nil && len(out) >= len(want) {
			ev["b"] = append(B{}, out[len(want):]...)
		}
		t.add(ev)
	}
}

// ------------------------------------------------------------------ reads

// doc encodes a random sequence of values and messages; kinds tells which.
func (x *X) doc(p string, n int) (data []byte, kinds []byte) {
	e := &Enc{p: p, g: x.G}
	for i := 0; i < n; i++ {
		if x.one(3) {
			e.msg(x.msg())
			kinds = append(kinds, 255)
		} else {
			v := x.value()
			e.val(v, false)
			kinds = append(kinds, v.T)
		}
	}
	return e.b, kinds
}

func (w *Walk) all(kinds []byte) error {
	for _, k := range kinds {
		var err error
		if k == 255 {
			err = w.msg()
		} else {
			err = w.value(k, 0)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// readDocs reads documents in all legal forms.
func readDocs(p string, big int, skips, plans bool) func(*X) {
	return func(x *X) {
		x.big = big
		t := x.wire(p)
		data, kinds := x.doc(p, x.Intn(5)+1)
		s := source(data)
		if plans {
			x.plan(s)
		}
		r := newTR(x, t, protocol(p), s)
		w := &Walk{r: r, g: x.G, skips: skips, limit: 5000}
		if w.all(kinds) == nil {
			r.ReadByte() // the end
		}
		r.end()
	}
}

func readDeep(p string, skips bool) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		e := &Enc{p: p, g: x.G}
		v, v2 := x.chain(x.depths()), x.value()
		if skips { // only what the specification skips in reasonable time
			v = x.chain(x.pick(10, 40, 150))
		}
		e.val(v, false)
		e.val(v2, false)
		r := newTR(x, t, protocol(p), source(e.b))
		w := &Walk{r: r, g: x.G, skips: skips, limit: 5000}
		w.all([]byte{v.T, v2.T})
		r.end()
	}
}

func readMany(p string, plans bool) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		e := &Enc{p: p, g: x.G}
		var kinds []byte
		for i := 0; i < 60; i++ {
			x.budget = 6
			e.msg(Msg{Name: "m", Type: byte(i%4 + 1), ID: int32(i), Body: x.val(tStruct, 2)})
			kinds = append(kinds, 255)
		}
		s := source(e.b)
		if plans {
			x.plan(s)
		}
		r := newTR(x, t, protocol(p), s)
		w := &Walk{r: r, g: x.G, limit: 5000}
		w.all(kinds)
		r.end()
	}
}

// readEdges: every kind of value around the edge of the reader's buffer.
func readEdges(p string, skips, plans bool) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		var r *TR
		for off := -18; off <= 2; off++ {
			if (off+x.Idx/13+40)%2 == 0 {
				continue
			}
			typ := valueTypes[x.Idx%len(valueTypes)]
			x.budget = 12
			v := x.val(typ, 2)
			if typ == tString {
				v.B = bigBody(x.pick(0, 1, 12, 4095, 4096, 4097, 8192))
			}
			e := &Enc{p: p, g: x.G}
			e.val(&V{T: tString, B: make([]byte, 4096+off-4)}, false)
			e.val(&V{T: tStruct, Fs: []F{{x.id(), v}}}, false)
			e.val(&V{T: tI32, N: 77}, false)
			s := source(e.b)
			if plans {
				x.plan(s)
			}
			if r == nil {
				r = newTR(x, t, protocol(p), s)
			} else {
				r.reset(s)
			}
			w := &Walk{r: r, g: x.G, skips: skips, limit: 2000}
			w.all([]byte{tString, tStruct, tI32})
		}
		r.end()
	}
}

func readHuge(p string, skips, plans bool) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		e := &Enc{p: p, g: x.G}
		kinds := []byte{tI32, tString, tI16, tString, tI64}
		e.val(&V{T: tI32, N: 5}, false)
		e.val(&V{T: tString, B: bigBody(x.pick(4096, 8192, 12288) + x.Intn(9) - 4)}, false)
		e.val(&V{T: tI16, N: 3}, false)
		e.val(&V{T: tString, B: bigBody(x.pick(20000, 33000, 65536))}, false)
		e.val(&V{T: tI64, N: 1}, false)
		s := source(e.b)
		if plans {
			x.plan(s)
			if len(s.plan) > 0 { // not tiny ones
				for i := range s.plan {
					s.plan[i] *= 61
				}
			}
		}
		r := newTR(x, t, protocol(p), s)
		w := &Walk{r: r, g: x.G, skips: skips, limit: 5000}
		w.all(kinds)
		r.end()
	}
}

// readSmall: every short byte string in a given context, read by every call.
func readSmall(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		var r *TR
		for k := 0; k < 64; k++ {
			n := x.Idx*64 + k
			b := []byte{byte(n), byte(x.bits()), byte(x.Uint32()), byte(x.Intn(3)), byte(x.Intn(3)), 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
			if x.one(3) {
				b[1] |= 0x80
				b[2] |= 0x80
			}
			s := source(b)
			if r == nil {
				r = newTR(x, t, protocol(p), s)
			} else {
				r.reset(s)
			}
			switch (n / 256) % 8 {
			case 0:
				r.ReadStructBegin()
				r.ReadFieldBegin()
			case 1:
				r.ReadListBegin()
			case 2:
				r.ReadSetBegin()
			case 3:
				r.ReadMapBegin()
			case 4:
				r.ReadBool()
				r.ReadByte()
				r.ReadI16()
			case 5:
				r.ReadI32()
				r.ReadI64()
			case 6: // a type byte after a map's size
				b[0], b[1] = 1, byte(n)
				r.ReadMapBegin()
			case 7:
				// a field after another one
				c := []byte{0x55, 0x00}
				if p != "compact" {
					c = []byte{tByte, 0, 5, 0x00}
				}
				s.data = append(c, b...)
				r.srcs[len(r.srcs)-1] = B(s.data)
				r.ReadStructBegin()
				if h, err := r.ReadFieldBegin(); err == nil && h.Type != 0 {
					if p == "compact" {
						r.ReadI32()
					} else {
						r.ReadByte()
					}
					r.ReadFieldEnd()
					r.ReadFieldBegin()
				}
			}
		}
		r.end()
	}
}

// hdrReader reads container headers with the exported helpers.
type hdrReader struct {
	thriftwire.Reader
	b *bufio.Reader
}

func (h hdrReader) ReadMapBegin() (thriftwire.MapHeader, error) {
	return thriftcompact.ReadMapHeader(h.b)
}
func (h hdrReader) ReadSetBegin() (thriftwire.SetHeader, error) {
	return thriftcompact.ReadSetHeader(h.b)
}
func (h hdrReader) ReadListBegin() (thriftwire.ListHeader, error) {
	return thriftcompact.ReadListHeader(h.b)
}

func readHelpers(x *X) {
	t := x.wire("compact")
	e := &Enc{p: "compact", g: x.G}
	var kinds []byte
	for i := 0; i < 40; i++ {
		k := []byte{tList, tSet, tMap}[x.Intn(3)]
		kinds = append(kinds, k)
		switch n := x.pick(0, 1, 14, 15, 16, 127, 128, 16384, 1<<31-1); k {
		case tMap:
			e.uv(uint64(n))
			if n > 0 {
				e.b = append(e.b, byte(x.Intn(14))<<4|byte(x.Intn(14)))
			}
		default:
			e.seq(valueTypes[x.Intn(len(valueTypes))], n)
		}
	}
	b := bufio.NewReader(x.plan(source(e.b)))
	rd := hdrReader{protocol("compact").NewReader(b), b}
	s := source(e.b)
	r := wrapTR(x, t, rd, s)
	for _, k := range kinds {
		switch k {
		case tMap:
			r.ReadMapBegin()
		case tSet:
			r.ReadSetBegin()
		case tList:
			r.ReadListBegin()
		}
	}
	r.end()
}

// --------------------------------------------------------------- messages

// similar changes one byte of s.
func similar(g *G, s string) string {
	b := []byte(s)
	if len(b) > 0 {
		b[g.Intn(len(b))] ^= 1 << g.Intn(8)
	}
	return string(b)
}

func roundMsgs(x *X) {
	wp, rp := protos[x.Intn(3)], ""
	switch wp {
	case "binary":
		rp = []string{"binary", "nonstrict"}[x.Intn(2)]
	default:
		rp = wp
	}
	pw, pr := protocol(wp), protocol(rp)
	if x.one(2) { // joined protocols
		j := thriftwire.JoinProtocol(pr, pw)
		pw, pr = j, j
		if x.one(2) {
			j2 := thriftwire.JoinProtocol(j, thriftwire.JoinProtocol(protocol(protos[x.Intn(3)]), pw))
			pw, pr = j2, j2
		}
	}
	x.big = 30
	tw := x.wire(wp)
	s := noFail()
	w := newTW(tw, pw, s)
	n := x.Intn(8) + 1
	last := ""
	for i := 0; i < n; i++ {
		m := Msg{Name: string(x.str()), Type: byte(x.Intn(4) + 1), ID: int32(x.bits()), Body: &V{T: tStruct}}
		switch x.Intn(6) {
		case 0:
			m.Name = ""
		case 1:
			m.Name = "größe☃\x00"
		case 2:
			if i > 0 {
				m.Name = similar(x.G, last)
			}
		case 3:
			m.ID = []int32{0, -1, 1, math.MinInt32, math.MaxInt32, 127, 128, -128}[x.Intn(8)]
		}
		last = m.Name
		emitMsg(w, m)
	}
	w.Flush()
	w.end()
	tr := x.wire(rp)
	r := newTR(x, tr, pr, x.plan(source(append([]byte{}, s.got...))))
	k := &Walk{r: r, g: x.G, limit: 500}
	for i := 0; i < n; i++ {
		if k.msg() != nil {
			break
		}
	}
	r.end()
}

// badMsgs: envelopes with a damaged byte, another protocol's, or random ones.
func badMsgs(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		var r *TR
		for k := 0; k < 40; k++ {
			q := p
			if x.one(3) {
				q = protos[x.Intn(3)]
			}
			e := &Enc{p: q, g: x.G}
			name := string(x.str())
			if x.one(4) {
				name = ""
			}
			e.msg(Msg{Name: name, Type: byte(x.Intn(4) + 1), ID: int32(x.bits()), Body: &V{T: tStruct}})
			b := append(e.b, 0, 0, 0, 0, 0, 0, 0, 0)
			switch x.Intn(6) {
			case 0:
				b[0] = byte(x.Idx*40 + k)
			case 1:
				b[1] = byte(x.Idx*40 + k)
			case 2:
				b[x.Intn(4)] = byte(x.Uint32())
			case 3:
				i := x.Intn(4)
				b[i] ^= 1 << x.Intn(8)
			}
			s := source(b)
			if r == nil {
				r = newTR(x, t, protocol(p), s)
			} else {
				r.reset(s)
			}
			r.ReadMessageBegin()
		}
		r.end()
	}
}

// ------------------------------------------------------------------- skip

// skipVals: a value of each type is skipped; what follows must be intact.
func skipVals(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		x.big = 60
		e := &Enc{p: p, g: x.G}
		v := &V{T: tStruct}
		for i := 0; i < 8; i++ {
			x.budget = 25
			f := x.val(valueTypes[(x.Idx+i*5)%len(valueTypes)], 3)
			v.Fs = append(v.Fs, F{x.id(), f}, F{x.id(), &V{T: tI32, N: uint64(i)}})
			if x.one(2) {
				v.Fs = append(v.Fs, F{x.id(), &V{T: tBool, N: uint64(i % 2)}})
			}
		}
		e.val(v, false)
		e.val(&V{T: tString, B: []byte("after")}, false)
		r := newTR(x, t, protocol(p), x.plan(source(e.b)))
		if x.one(8) {
			r.skip(tStruct)
		} else {
			r.ReadStructBegin()
			for {
				h, err := r.ReadFieldBegin()
				if err != nil {
					return
				}
				if h.Type == 0 {
					break
				}
				if h.Type == tI32 {
					_, err = r.ReadI32()
				} else if h.Type == tBool && x.one(2) {
					_, err = r.ReadBool()
				} else {
					err = r.skip(h.Type)
				}
				if err != nil {
					return
				}
				r.ReadFieldEnd()
			}
			r.ReadStructEnd()
		}
		r.ReadString()
		r.end()
	}
}

// skipCuts: a skipped value that does not end.
func skipCuts(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		x.budget = 10
		v := x.val(valueTypes[x.Idx%len(valueTypes)], 2)
		e := &Enc{p: p, g: x.G}
		e.val(v, false)
		var r *TR
		step := 1 + len(e.b)/45
		for n := x.Intn(step); n <= len(e.b); n += step {
			s := x.plan(source(append([]byte{}, e.b[:n]...)))
			if x.one(3) {
				s.end = errFault
			}
			if r == nil {
				r = newTR(x, t, protocol(p), s)
			} else {
				r.reset(s)
			}
			r.skip(thriftwire.Type(v.T))
		}
		r.end()
	}
}

// skipBad: types that are no value types, outside and inside the stream.
func skipBad(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		var r *TR
		for k := 0; k < 24; k++ {
			bad := byte(x.pick(0, 1, 5, 7, 9, 17, 18, 20, 64, 127, 128, 255))
			if x.one(3) {
				bad = byte(x.Uint32())
			}
			var b []byte
			typ := byte(tStruct)
			c := p == "compact"
			n := x.Intn(3) + 1
			switch x.Intn(5) {
			case 0:
				typ = bad
			case 1: // a field
				if c {
					b = []byte{0x10 | byte(x.pick(14, 15, 0))}
				} else {
					b = []byte{bad, 0, 1}
				}
			case 2: // elements
				typ = byte(x.pick(tList, tSet))
				if c {
					b = []byte{byte(n)<<4 | byte(x.pick(14, 15, 0))}
				} else {
					b = append([]byte{bad}, w4(int32(n))...)
				}
			case 3: // keys
				typ = tMap
				if c {
					b = []byte{byte(n), byte(x.pick(14, 15, 0))<<4 | 3}
				} else {
					b = append([]byte{bad, tByte}, w4(int32(n))...)
				}
			case 4: // values
				typ = tMap
				if c {
					b = []byte{byte(n), 3<<4 | byte(x.pick(14, 15, 0))}
				} else {
					b = append([]byte{tByte, bad}, w4(int32(n))...)
				}
			}
			b = append(b, make([]byte, 40)...)
			s := source(b)
			if r == nil {
				r = newTR(x, t, protocol(p), s)
			} else {
				r.reset(s)
			}
			r.skip(thriftwire.Type(typ))
		}
		r.end()
	}
}

// ---------------------------------------------------------- interruptions

// cuts: a document ends, or its source fails, at every point.
func cuts(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		e := &Enc{p: p, g: x.G}
		x.budget = 12
		var kinds []byte
		if x.one(2) {
			e.msg(Msg{Name: string(x.str()), Type: 1, ID: int32(x.bits()), Body: x.val(tStruct, 2)})
			kinds = append(kinds, 255)
		} else {
			v := x.val(x.typ(3), 2)
			e.val(v, false)
			kinds = append(kinds, v.T)
		}
		x.budget = 4
		v := x.val(x.typ(1), 1)
		e.val(v, false)
		kinds = append(kinds, v.T)
		if len(e.b) > 120 {
			x.Idx++ // unusually long ones: only some of the points
		}
		var r *TR
		step := 1 + len(e.b)/45
		for n := x.Intn(step); n <= len(e.b); n += step {
			s := x.plan(source(append([]byte{}, e.b[:n]...)))
			if x.one(2) {
				s.end = errFault
				if !s.withData && x.one(2) {
					s.rest = e.b[n:]
				}
			} else if x.one(4) {
				s.end = io.ErrUnexpectedEOF
			}
			switch {
			case r == nil:
				r = newTR(x, t, protocol(p), s)
			case x.one(2):
				r.renew(protocol(p), s)
			default:
				r.reset(s)
			}
			w := &Walk{r: r, g: x.G, skips: x.one(2), limit: 1000}
			if w.all(kinds) == nil {
				r.ReadI32() // at the very end
			}
		}
		r.end()
	}
}

// bigCuts: long strings cut around the edges of the reader's buffer.
func bigCuts(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		e := &Enc{p: p}
		n := x.pick(4090, 4096, 4100, 8192, 10000)
		e.val(&V{T: tI16, N: 2}, false)
		e.val(&V{T: tString, B: bigBody(n)}, false)
		e.val(&V{T: tI16, N: 2}, false)
		cut := len(e.b) - x.pick(0, 1, 2, 3, 4, 5, 50, 4090, 4095, 4096, 4097, n, n+1, n+2)
		if cut < 0 {
			cut = x.Intn(len(e.b))
		}
		s := x.plan(source(e.b[:cut]))
		for i := range s.plan {
			s.plan[i] *= 100
		}
		if !x.one(3) {
			s.end = errFault
			if !s.withData && x.one(2) {
				s.rest = e.b[cut:]
			}
		}
		r := newTR(x, t, protocol(p), s)
		w := &Walk{r: r, g: x.G, skips: x.one(2), limit: 1000}
		if w.all([]byte{tI16, tString, tI16}) == nil {
			r.ReadI32()
		}
		r.end()
	}
}

// flaky: a skipped string larger than the reader's buffer, in which the
// transport fails once before delivering the rest.
func flaky(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		e := &Enc{p: p}
		n := x.pick(5000, 8192, 8200, 10000, 16000)
		e.val(&V{T: tI16, N: 2}, false)
		e.val(&V{T: tString, B: bigBody(n)}, false)
		from := len(e.b) - n
		e.val(&V{T: tI16, N: 2}, false)
		cut := x.pick(from, from+1, from+n-1, from+x.Intn(n), from+4096+x.Intn(n-4096), 4096, 4097, 8191, 8192)
		cut = min(cut, len(e.b)-1)
		s := x.plan(source(e.b[:cut]))
		for i := range s.plan {
			s.plan[i] *= 100
		}
		s.end, s.withData = errFault, false
		s.rest = e.b[cut:]
		r := newTR(x, t, protocol(p), s)
		w := &Walk{r: r, g: x.G, skips: !x.one(4), limit: 1000}
		if w.all([]byte{tI16, tString, tI16}) == nil {
			r.ReadI32()
		}
		r.end()
	}
}

// ---------------------------------------------------------------- hostile

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// hostile: random and damaged documents, read, skipped, with the memory.
func hostile(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		var r *TR
		for k := 0; k < 12; k++ {
			var b []byte
			var typ byte = valueTypes[x.Intn(len(valueTypes))]
			switch x.Intn(4) {
			case 0: // noise
				b = make([]byte, x.Intn(60))
				x.Read(b)
				for i := range b {
					if x.one(3) {
						b[i] = byte(x.Intn(17))
					}
				}
			case 1, 2: // a damaged document
				e := &Enc{p: p, g: x.G}
				v := x.value()
				e.val(v, false)
				typ, b = v.T, e.b
				for i := x.Intn(4) + 1; i > 0 && len(b) > 0; i-- {
					j := x.Intn(len(b))
					switch x.Intn(4) {
					case 0:
						b[j] = byte(x.Uint32())
					case 1:
						b[j] ^= 1 << x.Intn(8)
					case 2:
						b[j] = byte(x.pick(0, 255, 127, 128))
					case 3:
						b = append(b[:j], b[min(len(b), j+x.Intn(4)+1):]...)
					}
				}
			case 3: // a message
				e := &Enc{p: p, g: x.G}
				e.msg(x.msg())
				typ, b = 255, e.b
				for i := x.Intn(3); i >= 0; i-- {
					b[x.Intn(len(b))] = byte(x.Uint32())
				}
			}
			s := source(b)
			if r == nil {
				r = newTR(x, t, protocol(p), s)
			} else {
				r.reset(s)
			}
			w := &Walk{r: r, g: x.G, skips: true, limit: 3000}
			if typ == 255 {
				w.msg()
			} else if x.one(3) {
				r.skip(thriftwire.Type(typ))
			} else {
				w.all([]byte{typ})
			}
		}
		r.end()
	}
}

// claims: headers that claim more than there is.
func claims(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		var r *TR
		sizes := []uint64{1<<31 - 1, 1<<31 - 2, 1 << 30, 100 << 20, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, math.MaxUint64, 5000, 70000}
		for k := 0; k < 20; k++ {
			n := sizes[(x.Idx+k)%len(sizes)]
			e := &Enc{p: p}
			num := func() {
				if p == "compact" {
					e.uv(n)
				} else {
					e.b = append(e.b, w4(int32(n))...)
				}
			}
			tail := bigBody(x.pick(0, 1, 3, 100, 5000))
			what := x.Intn(6)
			switch what {
			case 0, 1: // string
				num()
			case 2: // list
				if p == "compact" {
					e.b = append(e.b, 0xf0|ccode(scalarTypes[x.Intn(7)]))
				} else {
					e.b = append(e.b, scalarTypes[x.Intn(7)])
				}
				num()
			case 3: // map
				if p == "compact" {
					num()
					e.b = append(e.b, 0x33)
				} else {
					e.b = append(e.b, tByte, tString)
					num()
				}
			case 4: // message
				if p == "compact" {
					e.b = append(e.b, 0x82, 0x21, 1)
				} else if p == "binary" {
					e.b = append(e.b, 0x80, 1, 0, 1)
				}
				num()
			}
			switch what {
			case 2, 3:
				tail = tail[:min(len(tail), 200)]
			case 5: // uuid or number cut short
				tail = tail[:min(len(tail), 3)]
			}
			e.b = append(e.b, tail...)
			s := source(e.b)
			if r == nil {
				r = newTR(x, t, protocol(p), s)
			} else {
				r.reset(s)
			}
			before := allocated()
			switch what {
			case 0:
				switch x.Intn(3) {
				case 0:
					r.ReadString()
				case 1:
					r.ReadBytes(nil)
				case 2:
					r.SkipString()
				}
			case 1:
				r.skip(tString)
			case 2:
				if x.one(2) {
					r.ReadListBegin()
				} else {
					r.skip(tList)
				}
			case 3:
				if x.one(2) {
					r.ReadMapBegin()
				} else {
					r.skip(tMap)
				}
			case 4:
				r.ReadMessageBegin()
			case 5:
				u := [16]byte{}
				r.ReadUUID(&u)
			}
			t.add(Ev{"c": "Mem", "kb": min(int(allocated()-before)/1024, 1<<30), "kin": len(e.b)/1024 + 1})
		}
		r.end()
	}
}

// deepBytes nests n levels of a kind around a boolean.
func deepBytes(p string, kind, n int) (typ byte, b []byte) {
	c := p == "compact"
	var open, shut []byte
	var inner []byte
	switch kind {
	case 0: // structs; the innermost is empty
		typ = tStruct
		open, shut = []byte{tStruct, 0, 1}, []byte{0}
		if c {
			open = []byte{0x1c}
		}
		b = append(bytes.Repeat(open, n-1), bytes.Repeat(shut, n)...)
		return
	case 1:
		typ = tList
		open = append([]byte{tList}, w4(1)...)
		inner = append([]byte{tBool}, w4(1)...)
		if c {
			open, inner = []byte{0x19}, []byte{0x12}
		}
	case 2:
		typ = tSet
		open = append([]byte{tSet}, w4(1)...)
		inner = append([]byte{tBool}, w4(1)...)
		if c {
			open, inner = []byte{0x1a}, []byte{0x12}
		}
	case 3: // in the values of maps
		typ = tMap
		open = append(append([]byte{tByte, tMap}, w4(1)...), 7)
		inner = append(append([]byte{tByte, tBool}, w4(1)...), 7)
		if c {
			open, inner = []byte{1, 0x3b, 7}, []byte{1, 0x32, 7}
		}
	case 4: // in the keys of maps
		typ = tMap
		open = append([]byte{tMap, tByte}, w4(1)...)
		inner = append(append([]byte{tBool, tByte}, w4(1)...), 1)
		shut = []byte{7}
		if c {
			open, inner = []byte{1, 0xb3}, []byte{1, 0x23, 1}
		}
		b = append(bytes.Repeat(open, n-2), inner...)
		return typ, append(b, bytes.Repeat(shut, n-1)...)
	}
	// n-1 containers around a boolean
	b = append(bytes.Repeat(open, n-2), inner...)
	b = append(b, 1)
	return
}

// deepSkip: nesting around the limit, and far beyond it.
func deepSkip(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		for kind := 0; kind < 5; kind++ {
			depth := []int{9999, 10000, 10001, 10002, 3000, 100000, 3000000}[(x.Idx+kind)%7]
			typ, b := deepBytes(p, kind, depth)
			var err error
			t.lib(func() { err = thriftwire.Skip(protocol(p).NewReader(bytes.NewReader(b)), thriftwire.Type(typ)) })
			t.add(Ev{"c": "Deep", "kind": kind, "depth": depth, "e": code(err)})
		}
	}
}

// ------------------------------------------------------------------ sinks

// sinkFaults: the sink fails somewhere, in some way.
func sinkFaults(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		x.big = 80
		s := noFail()
		s.has = x.one(2)
		total := 0
		docs := make([]*V, x.Intn(4)+1)
		for i := range docs {
			docs[i] = x.value()
			if x.one(4) {
				docs[i] = &V{T: tString, B: bigBody(x.pick(100, 4090, 4096, 5000, 9000)), Raw: x.Intn(2)}
			}
			e := &Enc{p: p}
			e.val(docs[i], false)
			total += len(e.b)
		}
		s.failAt = x.Intn(total + 2)
		s.short = x.one(3)
		s.full = x.one(4)
		s.transient = x.one(3)
		w := newTW(t, protocol(p), s)
		err := error(nil)
		for _, d := range docs {
			if err = emit(w, d); err != nil {
				break
			}
			if x.one(2) {
				if err = w.Flush(); err != nil {
					break
				}
			}
		}
		for i := x.Intn(3) + 1; i > 0; i-- {
			if w.Flush() == nil && s.failed != 0 {
				break // rejected
			}
			if err == nil && x.one(3) {
				err = w.WriteI32(4)
			}
		}
		if x.one(2) {
			s2 := noFail()
			s2.has = x.one(2)
			w.reset(s2)
			emit(w, x.value())
			w.Flush()
		}
		w.end()
	}
}

// flushes: Flush with and without data, with a sink that has its own Flush,
// sometimes failing; before and after Reset, and never called otherwise.
func flushes(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		mk := func() *Sink {
			s := noFail()
			s.has = !x.one(5)
			s.flushFail = map[int]bool{}
			for i := 0; i < 8; i++ {
				if x.one(4) {
					s.flushFail[i] = true
				}
			}
			return s
		}
		w := newTW(t, protocol(p), mk())
		for i := 0; i < 12; i++ {
			switch x.Intn(6) {
			case 0:
				w.reset(mk())
			case 1, 2:
				w.Flush()
			case 3:
				emit(w, x.value())
			case 4:
				w.WriteString(string(bigBody(x.pick(10, 4096, 5000, 9000))))
			case 5:
				x.budget = 5
				emitMsg(w, Msg{Name: "x", Type: 1, ID: 1, Body: x.val(tStruct, 2)})
			}
		}
		w.Flush()
		w.end()
	}
}

// exactFlushes: flushes of exactly as much as a buffer holds, or nearly so.
func exactFlushes(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		mk := func() *Sink {
			s := noFail()
			s.has = !x.one(5)
			s.flushFail = map[int]bool{}
			if x.one(3) {
				s.flushFail[x.Intn(8)] = true
			}
			return s
		}
		w := newTW(t, protocol(p), mk())
		for i := 0; i < 8; i++ {
			size := x.pick(4096, 4096, 4096, 64, 512, 1024, 2048, 8192)
			tail := x.Intn(4)
			n := size - tail - 4
			if p == "compact" {
				n = size - tail - 2
				if n < 128 {
					n++
				}
			}
			if x.one(3) {
				n += x.Intn(5) - 2
			}
			w.WriteString(string(bigBody(n)))
			for ; tail > 0; tail-- {
				w.WriteByte(byte(x.Uint32()))
			}
			w.Flush()
			if x.one(4) {
				w.Flush()
			}
			if x.one(4) {
				w.reset(mk())
			}
		}
		w.end()
	}
}

// ------------------------------------------------------------------ reset

// someCalls makes the first n of the calls of a document.
func (x *X) someCalls(w *TW, v *V, n int) {
	lim := &limitW{TW: w, left: n}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stopCalls); !ok {
				panic(p)
			}
		}
	}()
	emit(lim, v)
}

type stopCalls struct{}

// limitW stops after a number of calls.
type limitW struct {
	*TW
	left int
}

func (l *limitW) tick() {
	if l.left--; l.left < 0 {
		panic(stopCalls{})
	}
}
func (l *limitW) WriteStructBegin(h thriftwire.StructHeader) error {
	l.tick()
	return l.TW.WriteStructBegin(h)
}
func (l *limitW) WriteFieldBegin(h thriftwire.FieldHeader) error {
	l.tick()
	return l.TW.WriteFieldBegin(h)
}
func (l *limitW) WriteFieldEnd() error       { l.tick(); return l.TW.WriteFieldEnd() }
func (l *limitW) WriteStructEnd() error      { l.tick(); return l.TW.WriteStructEnd() }
func (l *limitW) WriteBool(v bool) error     { l.tick(); return l.TW.WriteBool(v) }
func (l *limitW) WriteI32(v int32) error     { l.tick(); return l.TW.WriteI32(v) }
func (l *limitW) WriteString(v string) error { l.tick(); return l.TW.WriteString(v) }
func (l *limitW) WriteListBegin(h thriftwire.ListHeader) error {
	l.tick()
	return l.TW.WriteListBegin(h)
}

func (x *X) boolish() *V {
	v := x.value()
	s := &V{T: tStruct}
	id := int16(0)
	for i := 0; i < 3; i++ {
		id += int16(x.pick(1, 2, 15, 100))
		s.Fs = append(s.Fs, F{id, &V{T: tBool, N: uint64(x.Intn(2))}})
	}
	s.Fs = append(s.Fs, F{id + 1, v}, F{id + 3, &V{T: tBool, N: 1}}, F{id + 4, s})
	s.Fs[len(s.Fs)-1].V = &V{T: tStruct, Fs: []F{{1, &V{T: tBool}}, {5, &V{T: tI32, N: 3}}}}
	return s
}

func resetWriter(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		x.big = 40
		var old []*Sink
		mk := func() *Sink {
			s := noFail()
			s.has = x.one(2)
			if x.one(4) {
				s.failAt = x.Intn(40)
			}
			if len(old) > 0 && x.one(4) { // the same once more
				o := old[len(old)-1]
				o.failAt, o.failed = s.failAt, 0
				if o.failAt >= 0 {
					o.failAt += len(o.got)
				}
				return o
			}
			old = append(old, s)
			return s
		}
		w := newTW(t, protocol(p), mk())
		for i := x.Intn(5) + 1; i > 0; i-- {
			switch x.Intn(4) {
			case 0:
				x.someCalls(w, x.boolish(), x.Intn(12))
			case 1:
				x.someCalls(w, x.value(), x.Intn(12))
			case 2:
				w.WriteMessageBegin(thriftwire.MessageHeader{Name: "half", Type: 1, ID: 3})
				w.WriteStructBegin(thriftwire.StructHeader{})
				w.WriteFieldBegin(thriftwire.FieldHeader{Type: tBool, ID: 9})
			case 3:
				emit(w, x.boolish())
			}
			if x.one(4) {
				w.Flush()
			}
			w.reset(mk())
		}
		w.s.failAt = -1
		emit(w, x.boolish())
		emitMsg(w, x.msg())
		w.WriteBool(true)
		w.Flush()
		w.end()
		// nothing reached a former sink after it was replaced
		bad := 0
		for _, s := range old {
			if s.acct != len(s.got) {
				bad = 1
			}
		}
		t.add(Ev{"c": "Stable", "e": bad})
	}
}

func resetReader(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		x.big = 40
		var old []*Src
		mk := func() (*Src, []byte) {
			e := &Enc{p: p, g: x.G}
			var kinds []byte
			v := x.boolish()
			if x.one(3) {
				v = &V{T: tList, E: tBool, Kids: []*V{{T: tBool, N: uint64(x.Intn(2))}, {T: tBool, N: uint64(x.Intn(2))}}}
				if x.one(2) {
					v = v.Kids[0]
				}
			}
			e.val(v, false)
			kinds = append(kinds, v.T)
			if x.one(2) {
				e.msg(x.msg())
				kinds = append(kinds, 255)
			}
			b := e.b
			if x.one(4) {
				b = b[:x.Intn(len(b))]
			}
			s := x.plan(source(b))
			if x.one(4) {
				s.end = errFault
			}
			if x.one(5) { // malformed
				copy(b[x.Intn(len(b)+1):], []byte{0xff})
			}
			if len(old) > 0 && x.one(4) { // the same once more
				*old[len(old)-1] = *s
				return old[len(old)-1], kinds
			}
			old = append(old, s)
			return s, kinds
		}
		s, kinds := mk()
		r := newTR(x, t, protocol(p), s)
		for i := x.Intn(6) + 2; i > 0; i-- {
			lim := x.Intn(30)
			if x.one(2) {
				lim = x.Intn(3) + 1
			}
			if i == 1 {
				lim = 3000
			}
			w := &Walk{r: r, g: x.G, skips: x.one(2), limit: lim}
			func() {
				defer func() {
					if p := recover(); p != nil {
						if p != any(errLimit) || w.limit >= 0 {
							panic(p)
						}
					}
				}()
				w.all(kinds)
			}()
			if i > 1 {
				s, kinds = mk()
				for _, o := range old {
					o.lastAsked = -1
				}
				r.reset(s)
			}
			for _, o := range old[:len(old)-1] {
				if o != s && o.lastAsked >= 0 && i > 1 {
					t.add(Ev{"c": "Stable", "e": 1, "what": "a former source was read"})
				}
			}
		}
		r.end()
	}
}

func init() {
	for _, p := range []string{"binary", "nonstrict"} {
		register("C01",
			Class{"docs-" + p, 500, 4000, writeDocs(p, 0)}, Class{"big-" + p, 40, 600, writeDocs(p, 150)},
			Class{"many-" + p, 8, 40, writeMany(p)}, Class{"deep-" + p, 8, 80, writeDeep(p)},
			Class{"edges-" + p, 16, 64, writeEdges(p)}, Class{"sizes-" + p, 3, 30, writeSizes(p)},
			Class{"scalars-" + p, 32, 400, writeScalars(p)}, Class{"ids-" + p, 10, 100, writeIDs(p)},
			Class{"huge-" + p, 2, 10, writeHuge(p)})
		register("C03",
			Class{"docs-" + p, 600, 5000, readDocs(p, 0, false, false)}, Class{"big-" + p, 40, 600, readDocs(p, 150, false, true)},
			Class{"many-" + p, 8, 40, readMany(p, false)}, Class{"deep-" + p, 8, 80, readDeep(p, false)},
			Class{"edges-" + p, 26, 104, readEdges(p, false, false)}, Class{"small-" + p, 32, 64, readSmall(p)},
			Class{"huge-" + p, 2, 10, readHuge(p, false, false)})
	}
	register("C02",
		Class{"docs", 800, 8000, writeDocs("compact", 0)}, Class{"big", 60, 900, writeDocs("compact", 150)},
		Class{"many", 6, 60, writeMany("compact")}, Class{"deep", 15, 150, writeDeep("compact")},
		Class{"edges", 32, 64, writeEdges("compact")}, Class{"sizes", 4, 40, writeSizes("compact")},
		Class{"scalars", 64, 800, writeScalars("compact")}, Class{"ids", 60, 1000, writeIDs("compact")},
		Class{"huge", 3, 12, writeHuge("compact")}, Class{"helpers", 20, 400, helperHeaders})
	register("C04",
		Class{"docs", 1000, 10000, readDocs("compact", 0, false, false)}, Class{"big", 60, 900, readDocs("compact", 150, false, true)},
		Class{"many", 6, 60, readMany("compact", false)}, Class{"deep", 15, 150, readDeep("compact", false)},
		Class{"edges", 26, 104, readEdges("compact", false, false)}, Class{"small", 64, 256, readSmall("compact")},
		Class{"huge", 3, 12, readHuge("compact", false, false)}, Class{"helpers", 20, 400, readHelpers})
	register("C05", Class{"round", 3000, 15000, roundMsgs})
	for _, p := range protos {
		register("C05", Class{"bad-" + p, 40, 300, badMsgs(p)})
		register("C06",
			Class{"vals-" + p, 240, 2500, skipVals(p)}, Class{"bad-" + p, 50, 300, skipBad(p)}, Class{"cuts-" + p, 39, 390, skipCuts(p)},
			Class{"docs-" + p, 200, 2000, readDocs(p, 30, true, true)}, Class{"deep-" + p, 6, 60, readDeep(p, true)},
			Class{"edges-" + p, 13, 104, readEdges(p, true, false)}, Class{"huge-" + p, 2, 10, readHuge(p, true, false)})
		register("C07",
			Class{"docs-" + p, 500, 5000, readDocs(p, 10, true, true)}, Class{"many-" + p, 8, 40, readMany(p, true)},
			Class{"edges-" + p, 26, 104, readEdges(p, true, true)}, Class{"huge-" + p, 4, 30, readHuge(p, true, true)},
			Class{"big-" + p, 40, 400, readDocs(p, 200, true, true)})
		register("C09", Class{"cuts-" + p, 120, 1500, cuts(p)}, Class{"bigcuts-" + p, 20, 200, bigCuts(p)},
			Class{"flaky-" + p, 20, 200, flaky(p)})
		register("C10", Class{"hostile-" + p, 200, 3000, hostile(p)}, Class{"claims-" + p, 20, 200, claims(p)},
			Class{"deep-" + p, 7, 7, deepSkip(p)})
		register("C11", Class{"faults-" + p, 600, 6000, sinkFaults(p)}, Class{"flushes-" + p, 160, 1500, flushes(p)},
			Class{"exact-" + p, 40, 400, exactFlushes(p)})
		register("C12", Class{"writer-" + p, 800, 6000, resetWriter(p)}, Class{"reader-" + p, 800, 6000, resetReader(p)})
	}
}
