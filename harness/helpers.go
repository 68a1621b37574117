package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"io"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/thriftmemo"
)

// ---------------------------------------------- buffered-read helpers

// Pieces is a source that delivers its content in pieces, with faults.
type Pieces struct {
	*G
	d      []byte
	p      int
	faults []int
	end    error // nil: it gives nothing any more, until it fails after many attempts
	stalls int
	mode   int // 0 all at once, 1 byte by byte, 2 random, 3 random with empty reads
	with   bool
}

func (s *Pieces) Read(b []byte) (int, error) {
	limit, err := len(s.d), s.end
	if len(s.faults) > 0 {
		limit, err = s.faults[0], errFault
	}
	n := min(len(b), limit-s.p)
	switch s.mode {
	case 1:
		n = min(n, 1)
	case 2:
		n = min(n, 1+s.Intn(9))
	case 3:
		n = min(n, s.Intn(5))
	}
	copy(b, s.d[s.p:s.p+n])
	s.p += n
	if s.p < limit || n > 0 && !s.with {
		return n, nil
	}
	if len(s.faults) > 0 {
		s.faults = s.faults[1:]
	} else if s.end == nil {
		if s.stalls++; s.stalls > 1000 {
			return n, errFault
		}
	}
	return n, err
}

func word8(u uint64) B { return w8(u) }

func bufCalls(x *X) {
	for k := 0; k < 8; k++ {
		bufRun(x, false)
	}
}

func bufVarints(x *X) {
	for k := 0; k < 8; k++ {
		bufRun(x, true)
	}
}

func (g *G) varintBytes() []byte {
	var b []byte
	switch g.Intn(5) {
	case 0:
		b = binary.AppendUvarint(nil, g.Uint64()>>uint(g.Intn(64)))
	case 1:
		b = binary.AppendUvarint(nil, pick(g, uint64(1)<<uint(g.Intn(64)), uint64(1)<<uint(g.Intn(64))-1, math.MaxUint64, 0))
	case 2:
		// Not the shortest, or too long.
		for n := g.Intn(13); n > 0; n-- {
			b = append(b, 0x80|byte(g.Intn(128)))
		}
		b = append(b, byte(g.Intn(128)))
	case 3:
		for n := 9; n > 0; n-- {
			b = append(b, pick(g, byte(0x80), 0xff))
		}
		b = append(b, byte(pick(g, 0, 1, 2, 3, 127, 128, 129, 255)))
	case 4:
		b = binary.AppendVarint(nil, int64(g.Uint64())>>uint(g.Intn(64)))
	}
	return b
}

func bufRun(x *X, varints bool) {
	size := pick(x.G, 16, 16, 17, 20, 32, 64, 100)
	var d []byte
	if varints {
		for k := x.Intn(8); k >= 0; k-- {
			d = append(d, x.varintBytes()...)
		}
		if x.one(2) {
			d = d[:x.Intn(len(d)+1)]
		}
	} else {
		d = make([]byte, x.Intn(3*size+2))
		x.Read(d)
	}
	end := pick(x.G, eEOF, eEOF, eFault, eStall)
	var faults []int
	if x.one(3) {
		for k := x.Intn(3); k > 0 && len(d) > 0; k-- {
			faults = append(faults, x.Intn(len(d)))
		}
		sort.Ints(faults)
		for k := 1; k < len(faults); k++ {
			if faults[k] == faults[k-1] {
				faults = faults[:k]
				break
			}
		}
	}
	fs := append([]int{}, faults...)
	t := x.trace("Buf", map[string]any{"d": B(d), "fs": fs, "end": end, "size": size})
	src := &Pieces{G: x.G, d: append([]byte(nil), d...), faults: faults, end: io.EOF, mode: x.Intn(4), with: x.one(2)}
	switch end {
	case eFault:
		src.end = errFault
	case eStall:
		src.end = nil
	}
	r := bufio.NewReaderSize(src, size)
	var want []string // the results
	var later []func() string
	for k := 1 + x.Intn(8); k > 0; k-- {
		n := pick(x.G, 0, 1, 2, x.Intn(size+1), size, size, x.Intn(3*size), size+1, 2*size, size-1)
		op := x.Intn(5)
		if varints && op < 3 {
			op = 3 + op%2
		}
		switch op {
		case 0:
			n = min(n, size)
			var b []byte
			var err error
			t.lib(func() { b, err = thriftwire.Next(r, n) })
			t.add(Ev{"c": "Bytes", "n": n, "b": append(B{}, b...), "e": code(err), "pre": B{}, "out": B{}})
		case 1:
			var s string
			var err error
			t.lib(func() { s, err = thriftwire.ReadString(r, n) })
			t.add(Ev{"c": "Bytes", "n": n, "b": B(s), "e": code(err), "pre": B{}, "out": B{}})
			want, later = append(want, strings.Clone(s)), append(later, func() string { return s })
		case 2:
			pre := make([]byte, x.Intn(5), 5+x.Intn(2*size))
			x.Read(pre)
			old := append(B{}, pre...)
			if x.one(4) {
				pre = nil
				old = B{}
			}
			var b []byte
			var err error
			t.lib(func() { b, err = thriftwire.ReadBytes(r, n, pre) })
			ev := Ev{"c": "Bytes", "n": n, "b": B{}, "e": code(err), "pre": old, "out": append(B{}, b[:min(len(b), len(old))]...)}
			if len(b) > len(old) {
				ev["b"] = append(B{}, b[len(old):]...)
			}
			t.add(ev)
			want, later = append(want, string(b)), append(later, func() string { return string(b) })
			// The given bytes themselves are as they were.
			t.add(Ev{"c": "Bytes", "n": 0, "b": B{}, "e": 0, "pre": old, "out": append(B{}, pre...)})
		case 3:
			var v uint64
			var err error
			t.lib(func() { v, err = thriftwire.ReadUvarint(r) })
			t.add(Ev{"c": "Uvarint", "v": word8(v), "e": code(err)})
		case 4:
			var v int64
			var err error
			t.lib(func() { v, err = thriftwire.ReadVarint(r) })
			t.add(Ev{"c": "Varint", "v": word8(uint64(v)), "e": code(err)})
		}
	}
	n, err := 0, error(nil)
	for ; err == nil; n++ {
		_, err = r.ReadByte()
	}
	t.add(Ev{"c": "Rest", "n": n - 1, "e": code(err)})
	// What was returned stays as it is.
	for i, w := range want {
		t.add(Ev{"c": "Bytes", "n": 0, "b": B{}, "e": 0, "pre": B(w), "out": B(later[i]())})
	}
}

// All n around all multiples of the buffer size.
func bufEdges(x *X) {
	size := 16 + x.Idx
	for have := 0; have <= 2*size+2; have += 1 + x.Intn(3) {
		for _, n := range []int{have - 1, have, have + 1, size, size + 1} {
			if n < 0 {
				continue
			}
			d := make([]byte, have)
			x.Read(d)
			op := x.Intn(2)
			t := x.trace("Buf", map[string]any{"d": B(d), "fs": []int{}, "end": eEOF, "size": size})
			r := bufio.NewReaderSize(&Pieces{G: x.G, d: d, end: io.EOF, mode: x.Intn(4), with: x.one(2)}, size)
			off := 0
			if x.one(2) {
				off = x.Intn(size)
				b, err := make([]byte, off), error(nil)
				t.lib(func() { b, err = thriftwire.Next(r, off) })
				t.add(Ev{"c": "Bytes", "n": off, "b": append(B{}, b...), "e": code(err), "pre": B{}, "out": B{}})
			}
			var b []byte
			var err error
			if op == 0 {
				var s string
				t.lib(func() { s, err = thriftwire.ReadString(r, n) })
				b = []byte(s)
			} else {
				t.lib(func() { b, err = thriftwire.ReadBytes(r, n, nil) })
			}
			t.add(Ev{"c": "Bytes", "n": n, "b": append(B{}, b...), "e": code(err), "pre": B{}, "out": B{}})
			rest, err := io.ReadAll(r)
			if err == nil {
				err = io.EOF
			}
			t.add(Ev{"c": "Rest", "n": len(rest), "e": code(err)})
		}
	}
}

// ------------------------------------------------------------- memos

var memoKinds = []string{"Bool", "Byte", "I16", "I32", "I64", "Double", "String", "Bytes", "UUID", "MessageBegin", "MessageEnd", "StructBegin", "StructEnd",
	"FieldBegin", "FieldEnd", "MapBegin", "MapEnd", "SetBegin", "SetEnd", "ListBegin", "ListEnd"}

func memoErr(err error) int {
	switch {
	case err == nil:
		return 0
	case errors.Is(err, thriftmemo.ErrBreak):
		return 1
	}
	return 2
}

func cat(bs ...B) B {
	out := B{}
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

func (x *X) i32() int32 { return int32(x.Uint32()) >> uint(x.Intn(32)) }

// memoWrite makes one writer call with a value of its own.
func (x *X) memoWrite(t *Trace, w thriftwire.Writer, s string) {
	var v B
	var err error
	t.lib(func() {
		v, err = x.memoPut(w, s)
	})
	t.add(Ev{"c": "W", "s": s, "v": v, "e": memoErr(err)})
}

func (x *X) memoPut(w thriftwire.Writer, s string) (B, error) {
	typ := thriftwire.Type(x.Intn(256))
	n := int(x.i32())
	switch s {
	case "Bool":
		b := x.one(2)
		return B{byte(b01(b))}, w.WriteBool(b)
	case "Byte":
		b := byte(x.Uint32())
		return B{b}, w.WriteByte(b)
	case "I16":
		v := int16(x.Uint32())
		return w2(v), w.WriteI16(v)
	case "I32":
		v := x.i32()
		return w4(v), w.WriteI32(v)
	case "I64":
		v := int64(x.Uint64())
		return w8(uint64(v)), w.WriteI64(v)
	case "Double":
		v := math.Float64frombits(x.Uint64())
		return w8(math.Float64bits(v)), w.WriteDouble(v)
	case "String":
		v := make([]byte, x.Intn(5))
		x.Read(v)
		return B(v), w.WriteString(string(v))
	case "Bytes":
		v := make([]byte, x.Intn(5))
		x.Read(v)
		was := append(B{}, v...)
		err := w.WriteBytes(v)
		x.Read(v) // as before: a caller may use its buffer again
		return was, err
	case "UUID":
		var v [16]byte
		x.Read(v[:])
		was := v
		err := w.WriteUUID(&v)
		x.Read(v[:]) // the memo has its own copy
		return B(was[:]), err
	case "MessageBegin":
		h := thriftwire.MessageHeader{Name: pick(x.G, "", "a", "xyz"), Type: thriftwire.MessageType(x.Intn(5)), ID: x.i32()}
		return cat(B(h.Name), B{byte(h.Type)}, w4(h.ID)), w.WriteMessageBegin(h)
	case "MessageEnd":
		return B{}, w.WriteMessageEnd()
	case "StructBegin":
		h := thriftwire.StructHeader{Name: pick(x.G, "", "a", "xyz")}
		return B(h.Name), w.WriteStructBegin(h)
	case "StructEnd":
		return B{}, w.WriteStructEnd()
	case "FieldBegin":
		h := thriftwire.FieldHeader{Name: pick(x.G, "", "a", "xyz"), Type: typ, ID: int16(x.Uint32())}
		return cat(B(h.Name), B{byte(h.Type)}, w2(h.ID)), w.WriteFieldBegin(h)
	case "FieldEnd":
		return B{}, w.WriteFieldEnd()
	case "MapBegin":
		h := thriftwire.MapHeader{Key: typ, Value: thriftwire.Type(x.Intn(256)), Size: n}
		return cat(B{byte(h.Key), byte(h.Value)}, w8(uint64(h.Size))), w.WriteMapBegin(h)
	case "MapEnd":
		return B{}, w.WriteMapEnd()
	case "SetBegin":
		h := thriftwire.SetHeader{Element: typ, Size: n}
		return cat(B{byte(h.Element)}, w8(uint64(h.Size))), w.WriteSetBegin(h)
	case "SetEnd":
		return B{}, w.WriteSetEnd()
	case "ListBegin":
		h := thriftwire.ListHeader{Element: typ, Size: n}
		return cat(B{byte(h.Element)}, w8(uint64(h.Size))), w.WriteListBegin(h)
	case "ListEnd":
		return B{}, w.WriteListEnd()
	}
	panic(s)
}

func (x *X) memoRead(t *Trace, r thriftwire.Reader, s string) (panicked bool) {
	ev := Ev{"c": "R", "s": s, "p": 0, "v": B{}, "e": 0}
	if (s == "String" || s == "UUID") && x.one(3) {
		ev["c"] = "Skip"
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				ev["p"] = 1
				panicked = true
			}
		}()
		var v B
		var err error
		if ev["c"] == "Skip" {
			if s == "String" {
				err = r.SkipString()
			} else {
				err = r.SkipUUID()
			}
		} else {
			v, err = x.memoGet(r, s)
		}
		ev["v"], ev["e"] = append(B{}, v...), memoErr(err)
	}()
	t.add(ev)
	return
}

func (x *X) memoGet(r thriftwire.Reader, s string) (B, error) {
	switch s {
	case "Bool":
		v, err := r.ReadBool()
		return B{byte(b01(v))}, err
	case "Byte":
		v, err := r.ReadByte()
		return B{v}, err
	case "I16":
		v, err := r.ReadI16()
		return w2(v), err
	case "I32":
		v, err := r.ReadI32()
		return w4(v), err
	case "I64":
		v, err := r.ReadI64()
		return w8(uint64(v)), err
	case "Double":
		v, err := r.ReadDouble()
		return w8(math.Float64bits(v)), err
	case "String":
		v, err := r.ReadString()
		return B(v), err
	case "Bytes":
		// What is read is appended to what the caller has.
		pre := append(make([]byte, 0, x.Intn(20)), make([]byte, x.Intn(4))...)
		x.Read(pre)
		was := append(B{}, pre...)
		v, err := r.ReadBytes(pre)
		if err != nil {
			return B{}, err
		}
		if len(v) < len(was) || !bytes.Equal(v[:len(was)], was) {
			return append(B("lost: "), v...), err
		}
		got := append(B{}, v[len(was):]...)
		x.Read(v[:cap(v)]) // the caller's now
		return got, err
	case "UUID":
		var v [16]byte
		err := r.ReadUUID(&v)
		return B(v[:]), err
	case "MessageBegin":
		h, err := r.ReadMessageBegin()
		return cat(B(h.Name), B{byte(h.Type)}, w4(h.ID)), err
	case "MessageEnd":
		return B{}, r.ReadMessageEnd()
	case "StructBegin":
		h, err := r.ReadStructBegin()
		return B(h.Name), err
	case "StructEnd":
		return B{}, r.ReadStructEnd()
	case "FieldBegin":
		h, err := r.ReadFieldBegin()
		return cat(B(h.Name), B{byte(h.Type)}, w2(h.ID)), err
	case "FieldEnd":
		return B{}, r.ReadFieldEnd()
	case "MapBegin":
		h, err := r.ReadMapBegin()
		return cat(B{byte(h.Key), byte(h.Value)}, w8(uint64(h.Size))), err
	case "MapEnd":
		return B{}, r.ReadMapEnd()
	case "SetBegin":
		h, err := r.ReadSetBegin()
		return cat(B{byte(h.Element)}, w8(uint64(h.Size))), err
	case "SetEnd":
		return B{}, r.ReadSetEnd()
	case "ListBegin":
		h, err := r.ReadListBegin()
		return cat(B{byte(h.Element)}, w8(uint64(h.Size))), err
	case "ListEnd":
		return B{}, r.ReadListEnd()
	}
	panic(s)
}

func memoSteps(t *Trace, m *thriftmemo.Memo) {
	l := append([]string{}, m.Steps()...)
	t.add(Ev{"c": "Steps", "l": l})
	// What Steps returns is a copy.
	s := m.Steps()
	for k := range s {
		s[k] = "?"
	}
	_ = append(s, "?")
}

func memoRandom(x *X) {
	var m thriftmemo.Memo
	t := x.trace("Memo", map[string]any{})
	for round := 0; round < 3; round++ {
		if round > 0 {
			t.lib(m.Reset)
		}
		bp := 0
		if x.one(2) {
			bp = x.Intn(12)
			m.Breakpoint = bp
		} else if x.one(3) {
			m.Breakpoint = -x.Intn(3)
		}
		t.add(Ev{"c": "New", "bp": bp})
		var w thriftwire.Writer
		var r thriftwire.Reader
		t.lib(func() { w, r = m.Writer(), m.Reader() })
		var wrote []string
		for k := x.Intn(12); k > 0; k-- {
			s := pick(x.G, memoKinds...)
			if x.one(8) {
				t.lib(func() { w = m.Writer() })
			}
			x.memoWrite(t, w, s)
			if s == "StructEnd" {
				wrote = append(wrote, "FieldBegin")
			}
			wrote = append(wrote, s)
			if x.one(6) {
				memoSteps(t, &m)
			}
		}
		memoSteps(t, &m)
		panicked := false
		for _, s := range wrote {
			if x.one(10) {
				s = pick(x.G, memoKinds...)
			}
			if panicked = x.memoRead(t, r, s); panicked {
				break
			}
			if x.one(6) {
				memoSteps(t, &m)
			}
		}
		if !panicked {
			memoSteps(t, &m)
		}
	}
}

// memoMany: many steps, with and without a breakpoint among them.
func memoMany(x *X) {
	var m thriftmemo.Memo
	t := x.trace("Memo", map[string]any{})
	for round := 0; round < 3; round++ {
		if round > 0 {
			m.Reset()
		}
		n := x.pick(127, 255, 256, 300, 500, 512, 1000, 1025, 5000, 65536, 70000) + x.Intn(3)
		bp := x.pick(0, 0, n, n+1, n+2, n-1, n/2+1, 2*n, 2*n+1)
		m.Breakpoint = bp
		sub := x.Intn(1000)
		ok := true
		t.lib(func() {
			w, r := m.Writer(), m.Reader()
			var want []string
			done := 0
			for i := 0; i < n; i++ {
				var err error
				step := "String"
				switch (i + sub) % 3 {
				case 0:
					step = "I64"
					err = w.WriteI64(int64(i * sub))
				case 1:
					err = w.WriteString(strconv.Itoa(i + sub))
				default:
					step = "FieldBegin"
					err = w.WriteFieldBegin(thriftwire.FieldHeader{ID: int16(i + sub), Type: thriftwire.I16})
				}
				if bp > 0 && i+1 >= bp {
					ok = ok && errors.Is(err, thriftmemo.ErrBreak)
					continue
				}
				ok = ok && err == nil
				want = append(want, step)
				done++
			}
			ok = ok && slices.Equal(m.Steps(), want)
			for i := 0; i < done && ok; i++ {
				switch (i + sub) % 3 {
				case 0:
					v, err := r.ReadI64()
					ok = err == nil && v == int64(i*sub)
				case 1:
					v, err := r.ReadString()
					ok = err == nil && v == strconv.Itoa(i+sub)
				default:
					h, err := r.ReadFieldBegin()
					ok = err == nil && h.ID == int16(i+sub) && h.Type == thriftwire.I16
				}
			}
			ok = ok && slices.Equal(m.Steps(), append(want, want...))
			if bp > 0 && bp <= n {
				_, err := r.ReadI64()
				ok = ok && errors.Is(err, thriftmemo.ErrBreak)
			}
		})
		t.add(Ev{"c": "Many", "n": n, "bp": bp, "ok": b01(ok)})
	}
}

type memoGen struct {
	Bp  int
	Ops []struct{ O, S string }
}

func memoReplay(x *X) {
	lines := genLines(x, "memo")
	for n := x.Idx; n < len(lines); n += x.N {
		var g memoGen
		if err := json.Unmarshal(lines[n], &g); err != nil {
			panic(err)
		}
		var m thriftmemo.Memo
		m.Breakpoint = g.Bp
		t := x.trace("Memo", map[string]any{})
		t.add(Ev{"c": "New", "bp": g.Bp})
		w, r := m.Writer(), m.Reader()
		// Other kinds than those of the model take part by turns.
		as := map[string]string{"FieldBegin": "FieldBegin", "StructEnd": "StructEnd"}
		left := append([]string{}, memoKinds...)
		for _, k := range []string{"Bool", "String"} {
			for {
				i := x.Intn(len(left))
				c := left[i]
				left = append(left[:i], left[i+1:]...)
				if c != "FieldBegin" && c != "StructEnd" {
					as[k] = c
					break
				}
			}
		}
		for _, o := range g.Ops {
			switch o.O {
			case "w":
				x.memoWrite(t, w, as[o.S])
			case "r":
				x.memoRead(t, r, as[o.S])
			case "x":
				x.memoRead(t, r, as[o.S])
			}
		}
		memoSteps(t, &m)
	}
}

func init() {
	register("C25", Class{"random", 800, 8000, memoRandom}, Class{"replay", 40, 40, memoReplay}, Class{"many", 20, 200, memoMany})
	register("C26", Class{"calls", 600, 6000, bufCalls}, Class{"varints", 400, 4000, bufVarints}, Class{"edges", 40, 100, bufEdges})
}
