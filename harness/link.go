package main

import (
	"io"
	"math"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

var protos = []string{"binary", "nonstrict", "compact"}

func protocol(name string) thriftwire.Protocol {
	switch name {
	case "binary":
		return thriftbinary.Protocol
	case "nonstrict":
		return thriftbinary.ProtocolNonStrict
	}
	return thriftcompact.Protocol
}

// ------------------------------------------------------------------- sink

// Sink is a scripted io.Writer.
type Sink struct {
	got       []byte
	acct      int  // bytes accounted by the trace
	failAt    int  // accept this many bytes, then fail; -1 never
	short     bool // accept a part without an error, once
	full      bool // fail although everything was accepted
	transient bool // fail once only
	failed    int  // error code given so far
	has       bool // has a Flush method
	flushes   int  // calls of Flush during the current call
	flushAt   int  // len(got)-acct at the last Flush
	flushFail map[int]bool
	flushN    int
	flushErr  int // error code Flush gave during the current call
}

type plainSink struct{ s *Sink }
type flushSink struct{ plainSink }

func (s *Sink) writer() io.Writer {
	if s.has {
		return flushSink{plainSink{s}}
	}
	return plainSink{s}
}

func (p plainSink) Write(b []byte) (int, error) {
	s := p.s
	if s.failAt < 0 || len(s.got)+len(b) <= s.failAt {
		s.got = append(s.got, b...)
		return len(b), nil
	}
	n := max(0, s.failAt-len(s.got))
	if s.full && s.failed == 0 {
		n = len(b)
	}
	s.got = append(s.got, b[:n]...)
	if s.transient || s.short {
		s.failAt = -1
	}
	if s.short && n < len(b) { // against the contract of io.Writer
		s.failed = eShortWrite
		return n, nil
	}
	s.failed = eFault
	return n, errFault
}

func (p flushSink) Flush() error {
	s := p.s
	s.flushes++
	s.flushN++
	s.flushAt = len(s.got) - s.acct
	if s.flushFail[s.flushN] {
		s.flushErr = eFlushFault
		return errFlush
	}
	return nil
}

// ------------------------------------------------------- recorded writer

// TW records the calls of a Writer.
type TW struct {
	t *Trace
	w thriftwire.Writer
	s *Sink
	n int // calls
}

func newTW(t *Trace, p thriftwire.Protocol, s *Sink) *TW {
	x := &TW{t: t, s: s}
	t.lib(func() { x.w = p.NewWriter(s.writer()) })
	t.add(Ev{"c": "WNew"})
	return x
}

func (x *TW) call(ev Ev, f func() error) error {
	x.s.flushes, x.s.flushErr = 0, 0
	var err error
	x.t.lib(func() { err = f() })
	ev["e"] = code(err)
	ev["sl"] = len(x.s.got) - x.s.acct
	ev["sf"] = x.s.failed
	ev["uf"] = x.s.flushes
	x.t.add(ev)
	x.n++
	return err
}

func (x *TW) take() B {
	b := B(x.s.got[x.s.acct:len(x.s.got):len(x.s.got)])
	x.s.acct = len(x.s.got)
	return b
}

func (x *TW) Flush() error {
	ev := Ev{"c": "Flush"}
	err := x.call(ev, x.w.Flush)
	ev["has"] = b01(x.s.has)
	ev["un"] = x.s.flushAt
	ev["ff"] = x.s.flushErr
	ev["b"] = x.take()
	return err
}

func (x *TW) reset(s *Sink) {
	old := x.s
	n := len(x.s.got)
	x.t.lib(func() { x.w.Reset(s.writer()) })
	ev := Ev{"c": "WReset", "d": len(x.s.got) - n}
	x.s = old
	ev["b"] = x.take()
	x.t.add(ev)
	x.s = s
}

// end checks that nothing more reached the sink than was written.
func (x *TW) end() { x.t.add(Ev{"c": "WEnd", "b": x.take(), "d": 0}) }

func (x *TW) WriteMessageBegin(h thriftwire.MessageHeader) error {
	return x.call(Ev{"c": "WMsgBegin", "n": B(h.Name), "t": int(h.Type), "id": w4(h.ID)}, func() error { return x.w.WriteMessageBegin(h) })
}
func (x *TW) WriteMessageEnd() error { return x.call(Ev{"c": "WMsgEnd"}, x.w.WriteMessageEnd) }
func (x *TW) WriteStructBegin(h thriftwire.StructHeader) error {
	return x.call(Ev{"c": "WStructBegin"}, func() error { return x.w.WriteStructBegin(h) })
}
func (x *TW) WriteStructEnd() error { return x.call(Ev{"c": "WStructEnd"}, x.w.WriteStructEnd) }
func (x *TW) WriteFieldBegin(h thriftwire.FieldHeader) error {
	return x.call(Ev{"c": "WFieldBegin", "t": int(h.Type), "id": int(h.ID)}, func() error { return x.w.WriteFieldBegin(h) })
}
func (x *TW) WriteFieldEnd() error { return x.call(Ev{"c": "WFieldEnd"}, x.w.WriteFieldEnd) }
func (x *TW) WriteMapBegin(h thriftwire.MapHeader) error {
	return x.call(Ev{"c": "WMapBegin", "k": int(h.Key), "v": int(h.Value), "s": w8(uint64(h.Size))}, func() error { return x.w.WriteMapBegin(h) })
}
func (x *TW) WriteMapEnd() error { return x.call(Ev{"c": "WMapEnd"}, x.w.WriteMapEnd) }
func (x *TW) WriteSetBegin(h thriftwire.SetHeader) error {
	return x.call(Ev{"c": "WSetBegin", "t": int(h.Element), "s": w8(uint64(h.Size))}, func() error { return x.w.WriteSetBegin(h) })
}
func (x *TW) WriteSetEnd() error { return x.call(Ev{"c": "WSetEnd"}, x.w.WriteSetEnd) }
func (x *TW) WriteListBegin(h thriftwire.ListHeader) error {
	return x.call(Ev{"c": "WListBegin", "t": int(h.Element), "s": w8(uint64(h.Size))}, func() error { return x.w.WriteListBegin(h) })
}
func (x *TW) WriteListEnd() error { return x.call(Ev{"c": "WListEnd"}, x.w.WriteListEnd) }
func (x *TW) WriteBool(v bool) error {
	return x.call(Ev{"c": "WBool", "v": b01(v)}, func() error { return x.w.WriteBool(v) })
}
func (x *TW) WriteByte(v byte) error {
	return x.call(Ev{"c": "WByte", "v": int(v)}, func() error { return x.w.WriteByte(v) })
}
func (x *TW) WriteDouble(v float64) error {
	return x.call(Ev{"c": "WDouble", "v": w8(math.Float64bits(v))}, func() error { return x.w.WriteDouble(v) })
}
func (x *TW) WriteI16(v int16) error {
	return x.call(Ev{"c": "WI16", "v": w2(v)}, func() error { return x.w.WriteI16(v) })
}
func (x *TW) WriteI32(v int32) error {
	return x.call(Ev{"c": "WI32", "v": w4(v)}, func() error { return x.w.WriteI32(v) })
}
func (x *TW) WriteI64(v int64) error {
	return x.call(Ev{"c": "WI64", "v": w8(uint64(v))}, func() error { return x.w.WriteI64(v) })
}
func (x *TW) WriteString(v string) error {
	return x.call(Ev{"c": "WString", "v": B(v)}, func() error { return x.w.WriteString(v) })
}

// WriteBytes hands over a copy with canaries and overwrites it afterwards:
// a writer must neither change nor keep it.
func (x *TW) WriteBytes(v []byte) error {
	c := append(append(make([]byte, 0, len(v)+8), v...), 0xc5, 0xc5, 0xc5, 0xc5)
	err := x.call(Ev{"c": "WBytes", "v": append(B{}, v...)}, func() error { return x.w.WriteBytes(c[:len(v)]) })
	if string(c[:len(v)]) != string(v) || string(c[len(v):]) != "\xc5\xc5\xc5\xc5" {
		x.t.add(Ev{"c": "Stable", "e": 1, "what": "WriteBytes changed its argument"})
	}
	for i := range c {
		c[i] = 0xee
	}
	return err
}

func (x *TW) WriteUUID(v *[16]byte) error {
	u := *v
	err := x.call(Ev{"c": "WUUID", "v": append(B{}, v[:]...)}, func() error { return x.w.WriteUUID(&u) })
	if u != *v {
		x.t.add(Ev{"c": "Stable", "e": 1, "what": "WriteUUID changed its argument"})
	}
	u = [16]byte{}
	return err
}

func (x *TW) Reset(w io.Writer) { panic("use reset") }

// ----------------------------------------------------------------- source

// Src is a scripted io.Reader.
type Src struct {
	data      []byte
	off       int
	plan      []int // sizes of the deliveries, cyclic; 0 is an empty read
	step      int
	end       error // after the data
	withData  bool  // the end comes together with the last bytes
	lastAsked int   // off when last asked during the current call, -1 not asked
	empties   int
	stops     []int  // no delivery crosses these
	rest      []byte // comes after the end was reported once
}

// give reports the end.
func (s *Src) give() error {
	err := s.end
	if s.rest != nil {
		s.data = append(s.data[:len(s.data):len(s.data)], s.rest...)
		s.rest, s.end, s.withData = nil, io.EOF, false
	}
	return err
}

func (s *Src) Read(p []byte) (int, error) {
	s.lastAsked = s.off
	if len(p) == 0 {
		return 0, nil
	}
	if s.off == len(s.data) {
		return 0, s.give()
	}
	n := len(p)
	if len(s.plan) > 0 {
		n = s.plan[s.step%len(s.plan)]
		s.step++
		if n == 0 {
			if s.empties++; s.empties < 3 {
				return 0, nil
			}
			n = 1
		}
		s.empties = 0
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.data)-s.off {
		n = len(s.data) - s.off
	}
	for _, e := range s.stops {
		if e > s.off {
			n = min(n, e-s.off)
			break
		}
	}
	copy(p, s.data[s.off:s.off+n])
	s.off += n
	if s.withData && s.off == len(s.data) {
		return n, s.give()
	}
	return n, nil
}

// ------------------------------------------------------- recorded reader

// TR records the calls of a Reader.
type TR struct {
	t    *Trace
	r    thriftwire.Reader
	s    *Src
	srcs []B
	fks  []int
	kept []kept
	x    *X
}

type kept struct {
	s    string
	b    []byte
	want string
}

func (x *TR) source(s *Src) int {
	x.s = s
	x.srcs = append(x.srcs, B(s.data))
	x.fks = append(x.fks, code(s.end))
	x.t.Body["srcs"] = x.srcs
	x.t.Body["fks"] = x.fks
	return len(x.srcs)
}

func newTR(x *X, t *Trace, p thriftwire.Protocol, s *Src) *TR {
	r := &TR{t: t, x: x}
	n := r.source(s)
	t.lib(func() { r.r = p.NewReader(s) })
	t.add(Ev{"c": "RNew", "src": n})
	return r
}

// wrapTR records the calls of an existing reader over s.
func wrapTR(x *X, t *Trace, rd thriftwire.Reader, s *Src) *TR {
	r := &TR{t: t, x: x, r: rd}
	n := r.source(s)
	t.add(Ev{"c": "RNew", "src": n})
	return r
}

// renew replaces the reader by a new one.
func (x *TR) renew(p thriftwire.Protocol, s *Src) {
	n := x.source(s)
	x.t.lib(func() { x.r = p.NewReader(s) })
	x.t.add(Ev{"c": "RNew", "src": n})
}

func (x *TR) reset(s *Src) {
	n := x.source(s)
	s.lastAsked = -1
	x.t.lib(func() { x.r.Reset(s) })
	x.t.add(Ev{"c": "RReset", "src": n})
}

func (x *TR) Reset(io.Reader) { panic("use reset") }

func (x *TR) call(ev Ev, f func() error) error {
	x.s.lastAsked = -1
	var err error
	x.t.lib(func() { err = f() })
	ev["e"] = code(err)
	ev["df"] = x.s.lastAsked
	x.t.add(ev)
	return err
}

// end checks that values returned earlier were not changed by later calls.
func (x *TR) end() {
	bad := 0
	for _, k := range x.kept {
		if k.s != k.want || k.b != nil && string(k.b) != k.want {
			bad = 1
		}
	}
	x.t.add(Ev{"c": "Stable", "e": bad})
}

func (x *TR) keep(s string, b []byte) {
	if len(x.kept) < 200 {
		if b != nil {
			x.kept = append(x.kept, kept{s: string(append([]byte(nil), b...)), b: b, want: string(append([]byte(nil), b...))})
		} else {
			x.kept = append(x.kept, kept{s: s, want: string(append([]byte(nil), s...))})
		}
	}
}

func (x *TR) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
	ev := Ev{"c": "RMsgBegin"}
	err = x.call(ev, func() error { h, err = x.r.ReadMessageBegin(); return err })
	ev["n"], ev["t"], ev["id"] = B(h.Name), int(h.Type), w4(h.ID)
	x.keep(h.Name, nil)
	return
}
func (x *TR) ReadMessageEnd() error { return x.call(Ev{"c": "RMsgEnd"}, x.r.ReadMessageEnd) }
func (x *TR) ReadStructBegin() (h thriftwire.StructHeader, err error) {
	err = x.call(Ev{"c": "RStructBegin"}, func() error { h, err = x.r.ReadStructBegin(); return err })
	return
}
func (x *TR) ReadStructEnd() error { return x.call(Ev{"c": "RStructEnd"}, x.r.ReadStructEnd) }
func (x *TR) ReadFieldBegin() (h thriftwire.FieldHeader, err error) {
	ev := Ev{"c": "RFieldBegin"}
	err = x.call(ev, func() error { h, err = x.r.ReadFieldBegin(); return err })
	ev["t"], ev["id"] = int(h.Type), int(h.ID)
	return
}
func (x *TR) ReadFieldEnd() error { return x.call(Ev{"c": "RFieldEnd"}, x.r.ReadFieldEnd) }
func (x *TR) ReadMapBegin() (h thriftwire.MapHeader, err error) {
	ev := Ev{"c": "RMapBegin"}
	err = x.call(ev, func() error { h, err = x.r.ReadMapBegin(); return err })
	ev["k"], ev["v"], ev["s"] = int(h.Key), int(h.Value), w8(uint64(h.Size))
	return
}
func (x *TR) ReadMapEnd() error { return x.call(Ev{"c": "RMapEnd"}, x.r.ReadMapEnd) }
func (x *TR) ReadSetBegin() (h thriftwire.SetHeader, err error) {
	ev := Ev{"c": "RSetBegin"}
	err = x.call(ev, func() error { h, err = x.r.ReadSetBegin(); return err })
	ev["t"], ev["s"] = int(h.Element), w8(uint64(h.Size))
	return
}
func (x *TR) ReadSetEnd() error { return x.call(Ev{"c": "RSetEnd"}, x.r.ReadSetEnd) }
func (x *TR) ReadListBegin() (h thriftwire.ListHeader, err error) {
	ev := Ev{"c": "RListBegin"}
	err = x.call(ev, func() error { h, err = x.r.ReadListBegin(); return err })
	ev["t"], ev["s"] = int(h.Element), w8(uint64(h.Size))
	return
}
func (x *TR) ReadListEnd() error { return x.call(Ev{"c": "RListEnd"}, x.r.ReadListEnd) }
func (x *TR) ReadBool() (v bool, err error) {
	ev := Ev{"c": "RBool"}
	err = x.call(ev, func() error { v, err = x.r.ReadBool(); return err })
	ev["v"] = b01(v)
	return
}
func (x *TR) ReadByte() (v byte, err error) {
	ev := Ev{"c": "RByte"}
	err = x.call(ev, func() error { v, err = x.r.ReadByte(); return err })
	ev["v"] = int(v)
	return
}
func (x *TR) ReadDouble() (v float64, err error) {
	ev := Ev{"c": "RDouble"}
	err = x.call(ev, func() error { v, err = x.r.ReadDouble(); return err })
	ev["v"] = w8(math.Float64bits(v))
	return
}
func (x *TR) ReadI16() (v int16, err error) {
	ev := Ev{"c": "RI16"}
	err = x.call(ev, func() error { v, err = x.r.ReadI16(); return err })
	ev["v"] = w2(v)
	return
}
func (x *TR) ReadI32() (v int32, err error) {
	ev := Ev{"c": "RI32"}
	err = x.call(ev, func() error { v, err = x.r.ReadI32(); return err })
	ev["v"] = w4(v)
	return
}
func (x *TR) ReadI64() (v int64, err error) {
	ev := Ev{"c": "RI64"}
	err = x.call(ev, func() error { v, err = x.r.ReadI64(); return err })
	ev["v"] = w8(uint64(v))
	return
}
func (x *TR) ReadString() (v string, err error) {
	ev := Ev{"c": "RString"}
	err = x.call(ev, func() error { v, err = x.r.ReadString(); return err })
	ev["v"] = B(append([]byte{}, v...))
	x.keep(v, nil)
	return
}

// ReadBytes reads behind buf; the bytes of buf must stay, and the result
// must not depend on its spare capacity.
func (x *TR) ReadBytes(buf []byte) (v []byte, err error) {
	pre := string(buf)
	ev := Ev{"c": "RBytes", "v": B{}}
	err = x.call(ev, func() error { v, err = x.r.ReadBytes(buf); return err })
	if err == nil {
		if len(v) < len(pre) || string(v[:len(pre)]) != pre || string(buf) != pre {
			x.t.add(Ev{"c": "Stable", "e": 1, "what": "ReadBytes changed the buffer's content"})
			panic(abort{})
		}
		ev["v"] = append(B{}, v[len(pre):]...)
		x.keep("", v)
	} else {
		ev["v"] = B{}
	}
	return
}
func (x *TR) ReadUUID(u *[16]byte) (err error) {
	ev := Ev{"c": "RUUID"}
	err = x.call(ev, func() error { return x.r.ReadUUID(u) })
	ev["v"] = append(B{}, u[:]...)
	return
}
func (x *TR) SkipString() error { return x.call(Ev{"c": "RSkipString"}, x.r.SkipString) }
func (x *TR) SkipUUID() error   { return x.call(Ev{"c": "RSkipUUID"}, x.r.SkipUUID) }

// skip skips a whole value as one event.
func (x *TR) skip(t thriftwire.Type) error {
	return x.call(Ev{"c": "Skip", "t": int(t)}, func() error { return thriftwire.Skip(x.r, t) })
}
