package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/testing/thrifttest"
)

// The conformance suite, run on protocols with at most one fault
// (spec/Suite.tla).

type Fault struct {
	Side string `json:"side"`
	Act  string `json:"act"`
	K    string `json:"k"`
	From string `json:"from"`
	To   string `json:"to"`
	X    string `json:"x"`
	N    int    `json:"n"`
}

var errBad = errors.New("the protocol's fault")

// ---------------------------------------------------------- text protocol

// text is a protocol that writes one token per line, reads no byte ahead,
// writes nothing before Flush, and insists on calls that match.
type text struct{}

func (text) NewReader(r io.Reader) thriftwire.Reader { return &textR{r: r} }
func (text) NewWriter(w io.Writer) thriftwire.Writer { return &textW{w: w} }

type textW struct {
	w     io.Writer
	out   []byte
	stack []string
}

func (w *textW) Reset(to io.Writer) { *w = textW{w: to} }
func (w *textW) put(format string, a ...any) error {
	w.out = append(fmt.Appendf(w.out, format, a...), '\n')
	return nil
}
func (w *textW) open(kind, format string, a ...any) error {
	w.stack = append(w.stack, kind)
	return w.put(format, a...)
}
func (w *textW) shut(kind string) error {
	if n := len(w.stack); n == 0 || w.stack[n-1] != kind {
		return fmt.Errorf("text: end of %s in %v", kind, w.stack)
	}
	w.stack = w.stack[:len(w.stack)-1]
	return w.put("end %s", kind)
}
func (w *textW) Flush() error {
	_, err := w.w.Write(w.out)
	w.out = w.out[:0]
	return err
}
func (w *textW) WriteMessageBegin(h thriftwire.MessageHeader) error {
	return w.open("message", "message %d %d %q", h.Type, h.ID, h.Name)
}
func (w *textW) WriteMessageEnd() error                           { return w.shut("message") }
func (w *textW) WriteStructBegin(h thriftwire.StructHeader) error { return w.open("struct", "struct") }
func (w *textW) WriteStructEnd() error                            { return w.shut("struct") }
func (w *textW) WriteFieldBegin(h thriftwire.FieldHeader) error {
	return w.open("field", "field %d %d", h.Type, h.ID)
}
func (w *textW) WriteFieldEnd() error { return w.shut("field") }
func (w *textW) WriteMapBegin(h thriftwire.MapHeader) error {
	return w.open("map", "map %d %d %d", h.Key, h.Value, h.Size)
}
func (w *textW) WriteMapEnd() error { return w.shut("map") }
func (w *textW) WriteSetBegin(h thriftwire.SetHeader) error {
	return w.open("set", "set %d %d", h.Element, h.Size)
}
func (w *textW) WriteSetEnd() error { return w.shut("set") }
func (w *textW) WriteListBegin(h thriftwire.ListHeader) error {
	return w.open("list", "list %d %d", h.Element, h.Size)
}
func (w *textW) WriteListEnd() error { return w.shut("list") }
func (w *textW) WriteBool(v bool) error {
	return w.put("bool %d", b01(v))
}
func (w *textW) WriteByte(v byte) error      { return w.put("byte %d", v) }
func (w *textW) WriteDouble(v float64) error { return w.put("double %d", math.Float64bits(v)) }
func (w *textW) WriteI16(v int16) error      { return w.put("i16 %d", v) }
func (w *textW) WriteI32(v int32) error      { return w.put("i32 %d", v) }
func (w *textW) WriteI64(v int64) error      { return w.put("i64 %d", v) }
func (w *textW) WriteString(v string) error  { return w.put("string %q", v) }
func (w *textW) WriteBytes(v []byte) error   { return w.put("string %q", v) }
func (w *textW) WriteUUID(v *[16]byte) error { return w.put("uuid %q", v[:]) }

type textR struct {
	r      io.Reader
	line   string // read but not taken
	resync bool
}

func (r *textR) Reset(from io.Reader) { *r = textR{r: from, resync: r.resync} }

func (r *textR) next() (string, error) {
	if r.line != "" {
		l := r.line
		r.line = ""
		return l, nil
	}
	var b []byte
	for {
		var c [1]byte
		if _, err := io.ReadFull(r.r, c[:]); err != nil {
			return "", err
		}
		if c[0] == '\n' {
			return string(b), nil
		}
		b = append(b, c[0])
	}
}

func (r *textR) take(kind string) (args []string, err error) {
	l, err := r.next()
	for r.resync && kind == "message" && err == nil && !strings.HasPrefix(l, "message ") {
		l, err = r.next()
	}
	if err != nil {
		return nil, err
	}
	f := strings.SplitN(l, " ", 4)
	if f[0] != kind {
		return nil, fmt.Errorf("text: %s is no %s", l, kind)
	}
	return f[1:], nil
}

func (r *textR) shut(kind string) error {
	a, err := r.take("end")
	if err == nil && (len(a) != 1 || a[0] != kind) {
		err = fmt.Errorf("text: end of %v is no end of %s", a, kind)
	}
	return err
}

func parse[T ~byte | ~int | ~int16 | ~int32 | ~int64](s string) T {
	n, _ := strconv.ParseInt(s, 10, 64)
	return T(n)
}

func (r *textR) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
	a, err := r.take("message")
	if err != nil {
		return h, err
	}
	name, err := strconv.Unquote(a[2])
	return thriftwire.MessageHeader{Type: parse[thriftwire.MessageType](a[0]), ID: parse[int32](a[1]), Name: name}, err
}
func (r *textR) ReadMessageEnd() error { return r.shut("message") }
func (r *textR) ReadStructBegin() (h thriftwire.StructHeader, err error) {
	_, err = r.take("struct")
	return h, err
}
func (r *textR) ReadStructEnd() error { return nil }
func (r *textR) ReadFieldBegin() (h thriftwire.FieldHeader, err error) {
	l, err := r.next()
	if err != nil {
		return h, err
	}
	if l == "end struct" {
		return h, nil
	}
	r.line = l
	a, err := r.take("field")
	if err != nil {
		return h, err
	}
	return thriftwire.FieldHeader{Type: parse[thriftwire.Type](a[0]), ID: parse[int16](a[1])}, nil
}
func (r *textR) ReadFieldEnd() error { return r.shut("field") }
func (r *textR) ReadMapBegin() (h thriftwire.MapHeader, err error) {
	a, err := r.take("map")
	if err != nil {
		return h, err
	}
	return thriftwire.MapHeader{Key: parse[thriftwire.Type](a[0]), Value: parse[thriftwire.Type](a[1]), Size: parse[int](a[2])}, nil
}
func (r *textR) ReadMapEnd() error { return r.shut("map") }
func (r *textR) ReadSetBegin() (h thriftwire.SetHeader, err error) {
	a, err := r.take("set")
	if err != nil {
		return h, err
	}
	return thriftwire.SetHeader{Element: parse[thriftwire.Type](a[0]), Size: parse[int](a[1])}, nil
}
func (r *textR) ReadSetEnd() error { return r.shut("set") }
func (r *textR) ReadListBegin() (h thriftwire.ListHeader, err error) {
	a, err := r.take("list")
	if err != nil {
		return h, err
	}
	return thriftwire.ListHeader{Element: parse[thriftwire.Type](a[0]), Size: parse[int](a[1])}, nil
}
func (r *textR) ReadListEnd() error { return r.shut("list") }

func (r *textR) one(kind string) (string, error) {
	a, err := r.take(kind)
	return strings.Join(a, " "), err
}
func (r *textR) ReadBool() (bool, error) { s, err := r.one("bool"); return s == "1", err }
func (r *textR) ReadByte() (byte, error) { s, err := r.one("byte"); return parse[byte](s), err }
func (r *textR) ReadDouble() (float64, error) {
	s, err := r.one("double")
	u, _ := strconv.ParseUint(s, 10, 64)
	return math.Float64frombits(u), err
}
func (r *textR) ReadI16() (int16, error) { s, err := r.one("i16"); return parse[int16](s), err }
func (r *textR) ReadI32() (int32, error) { s, err := r.one("i32"); return parse[int32](s), err }
func (r *textR) ReadI64() (int64, error) { s, err := r.one("i64"); return parse[int64](s), err }
func (r *textR) ReadString() (string, error) {
	s, err := r.one("string")
	if err != nil {
		return "", err
	}
	return strconv.Unquote(s)
}
func (r *textR) ReadBytes(b []byte) ([]byte, error) {
	s, err := r.ReadString()
	return append(b, s...), err
}
func (r *textR) ReadUUID(u *[16]byte) error {
	s, err := r.one("uuid")
	if err == nil {
		s, err = strconv.Unquote(s)
		copy(u[:], s)
	}
	return err
}
func (r *textR) SkipString() error { _, err := r.one("string"); return err }
func (r *textR) SkipUUID() error   { _, err := r.one("uuid"); return err }

// ------------------------------------------------------- faulty protocols

// faulty is base with a fault.
type faulty struct {
	base thriftwire.Protocol
	f    Fault
	uuid bool // supports UUIDs
}

func (p faulty) NewReader(r io.Reader) thriftwire.Reader {
	b := p.base.NewReader(r)
	if t, ok := b.(*textR); ok {
		t.resync = p.f.Act == "resync"
	}
	return &faultyR{Reader: b, p: p}
}
func (p faulty) NewWriter(w io.Writer) thriftwire.Writer {
	return &faultyW{Writer: p.base.NewWriter(w), sink: w, p: p}
}

// in is the innermost struct or container.
type in []string

func (s *in) push(k string) { *s = append(*s, k) }
func (s *in) pop() {
	if len(*s) > 0 {
		*s = (*s)[:len(*s)-1]
	}
}
func (s in) top() string {
	if len(s) == 0 {
		return ""
	}
	return s[len(s)-1]
}

// hits tells if the fault concerns a token of side.
func (p faulty) hits(side, act, k, v, x string, n int) bool {
	f := p.f
	return f.Side == side && f.Act == act && n >= f.N && f.K == k && (f.From == "*" || f.From == v) && (f.X == "*" || f.X == x)
}

// bad tells if the protocol refuses something of kind k.
func (p faulty) bad(side, k, x string, n int) error {
	if k == "UUID" && !p.uuid || p.hits(side, "err", k, "", x, n) {
		return errBad
	}
	return nil
}

var (
	i16s    = map[string]int16{"min": math.MinInt16, "max": math.MaxInt16, "low": -1, "zero": 0}
	i32s    = map[string]int32{"min": math.MinInt32, "max": math.MaxInt32, "low": math.MinInt16, "zero": 0}
	i64s    = map[string]int64{"min": math.MinInt64, "max": math.MaxInt64, "low": math.MinInt32, "zero": 0}
	doubles = map[string]float64{"minf": math.SmallestNonzeroFloat32, "mind": math.SmallestNonzeroFloat64, "maxf": math.MaxFloat32, "maxd": math.MaxFloat64, "zero": 0}
)

// alter gives the value that a side makes of v; name names values, val
// makes them.
func alter[T any](p faulty, side, k, x string, n int, v T, name func(T) string, val func(string) T) T {
	if p.f.Side == side && p.f.K == k && p.hits(side, "set", k, name(v), x, n) {
		return val(p.f.To)
	}
	return v
}

func named[T comparable](m map[string]T) func(T) string {
	return func(v T) string {
		for k, w := range m {
			if w == v {
				return k
			}
		}
		return "?"
	}
}

func (p faulty) bool(side, x string, n int, v bool) bool {
	return alter(p, side, "Bool", x, n, v, func(v bool) string { return fmt.Sprint(b01(v)) }, func(s string) bool { return s == "1" })
}
func (p faulty) i16(side, x string, n int, v int16) int16 {
	return alter(p, side, "I16", x, n, v, named(i16s), func(s string) int16 { return i16s[s] })
}
func (p faulty) i32(side, x string, n int, v int32) int32 {
	return alter(p, side, "I32", x, n, v, named(i32s), func(s string) int32 { return i32s[s] })
}
func (p faulty) i64(side, x string, n int, v int64) int64 {
	return alter(p, side, "I64", x, n, v, named(i64s), func(s string) int64 { return i64s[s] })
}
func (p faulty) double(side, x string, n int, v float64) float64 {
	return alter(p, side, "Double", x, n, v, named(doubles), func(s string) float64 {
		if s == "float" {
			return float64(float32(v))
		}
		return doubles[s]
	})
}
func stringName(v string) string {
	if len(v) == 1 && v[0] >= 'A' && v[0] <= 'Z' {
		return "letter"
	}
	return v
}
func stringVal(s string) string {
	switch s {
	case "letter":
		return "Q"
	case "empty":
		return ""
	}
	return s
}
func (p faulty) string(side, x string, n int, v string) string {
	return alter(p, side, "String", x, n, v, stringName, stringVal)
}
func (p faulty) bytes(side, x string, n int, v []byte) []byte {
	return []byte(alter(p, side, "Bytes", x, n, string(v), stringName, stringVal))
}
func (p faulty) id(side string, n int, v [16]byte) [16]byte {
	return alter(p, side, "UUID", "Struct", n, v, func([16]byte) string { return "zero" }, func(string) [16]byte { v[7] ^= 1; return v })
}
func (p faulty) field(side string, n int, h thriftwire.FieldHeader) thriftwire.FieldHeader {
	return alter(p, side, "Field", "Struct", n, h, func(h thriftwire.FieldHeader) string { return fmt.Sprintf("%d:%d", h.Type, h.ID) },
		func(s string) thriftwire.FieldHeader {
			_, id, _ := strings.Cut(s, ":")
			h.ID = parse[int16](id)
			return h
		})
}
func (p faulty) size(side, k string, n int, v int) int {
	return alter(p, side, k, "Struct", n, v, strconv.Itoa, func(s string) int { return parse[int](s) })
}
func (p faulty) message(side string, n int, h thriftwire.MessageHeader) thriftwire.MessageHeader {
	h.Type = alter(p, side, "Type", "", n, h.Type, func(t thriftwire.MessageType) string { return strconv.Itoa(int(t)) },
		func(s string) thriftwire.MessageType { return parse[thriftwire.MessageType](s) })
	h.ID = alter(p, side, "Id", "", n, h.ID, func(int32) string { return "id" }, func(s string) int32 {
		switch s {
		case "zero":
			return 0
		case "neg":
			return -h.ID
		case "one":
			return 1
		}
		return h.ID + 1
	})
	h.Name = alter(p, side, "Name", "", n, h.Name, func(string) string { return "name" }, func(s string) string {
		switch s {
		case "empty":
			return ""
		case "lower":
			return strings.ToLower(h.Name)
		case "cut":
			return h.Name[:len(h.Name)-1]
		case "const":
			return "name"
		}
		return h.Name + "x"
	})
	return h
}

// A writer with a fault.
type faultyW struct {
	thriftwire.Writer
	sink io.Writer
	p    faulty
	n    int // messages since the last Reset
	in   in
	held *string // the first of two swapped elements
	move int     // elements left of a list to swap or drop
}

func (w *faultyW) Reset(to io.Writer) {
	w.Writer.Reset(to)
	*w = faultyW{Writer: w.Writer, sink: to, p: w.p}
}
func (w *faultyW) bad(k string) error { return w.p.bad("w", k, w.in.top(), w.n) }

func (w *faultyW) WriteMessageBegin(h thriftwire.MessageHeader) error {
	w.n++
	if err := errors.Join(w.bad("Type"), w.bad("Id"), w.bad("Name")); err != nil {
		return err
	}
	return w.Writer.WriteMessageBegin(w.p.message("w", w.n, h))
}
func (w *faultyW) WriteMessageEnd() error {
	if err := w.bad("End"); err != nil {
		return err
	}
	return w.Writer.WriteMessageEnd()
}
func (w *faultyW) WriteStructBegin(h thriftwire.StructHeader) error {
	if err := w.bad("Struct"); err != nil {
		return err
	}
	w.in.push("Struct")
	return w.Writer.WriteStructBegin(h)
}
func (w *faultyW) WriteStructEnd() error {
	if err := w.bad("Stop"); err != nil {
		return err
	}
	w.in.pop()
	return w.Writer.WriteStructEnd()
}
func (w *faultyW) WriteFieldBegin(h thriftwire.FieldHeader) error {
	if err := w.bad("Field"); err != nil {
		return err
	}
	return w.Writer.WriteFieldBegin(w.p.field("w", w.n, h))
}
func (w *faultyW) begin(k string, size int) (int, error) {
	if err := w.bad(k); err != nil {
		return 0, err
	}
	for _, act := range []string{"swap", "drop"} {
		if w.p.hits("w", act, k, strconv.Itoa(size), w.in.top(), w.n) {
			w.move = 2
			if act == "drop" {
				size--
			}
		}
	}
	size = w.p.size("w", k, w.n, size)
	w.in.push(k)
	return size, nil
}
func (w *faultyW) WriteMapBegin(h thriftwire.MapHeader) (err error) {
	if h.Size, err = w.begin("Map", h.Size); err != nil {
		return err
	}
	return w.Writer.WriteMapBegin(h)
}
func (w *faultyW) WriteSetBegin(h thriftwire.SetHeader) (err error) {
	if h.Size, err = w.begin("Set", h.Size); err != nil {
		return err
	}
	return w.Writer.WriteSetBegin(h)
}
func (w *faultyW) WriteListBegin(h thriftwire.ListHeader) (err error) {
	if h.Size, err = w.begin("List", h.Size); err != nil {
		return err
	}
	return w.Writer.WriteListBegin(h)
}
func (w *faultyW) WriteMapEnd() error  { w.in.pop(); return w.Writer.WriteMapEnd() }
func (w *faultyW) WriteSetEnd() error  { w.in.pop(); return w.Writer.WriteSetEnd() }
func (w *faultyW) WriteListEnd() error { w.in.pop(); return w.Writer.WriteListEnd() }
func (w *faultyW) WriteBool(v bool) error {
	if err := w.bad("Bool"); err != nil {
		return err
	}
	return w.Writer.WriteBool(w.p.bool("w", w.in.top(), w.n, v))
}
func (w *faultyW) WriteDouble(v float64) error {
	if err := w.bad("Double"); err != nil {
		return err
	}
	return w.Writer.WriteDouble(w.p.double("w", w.in.top(), w.n, v))
}
func (w *faultyW) WriteI16(v int16) error {
	if err := w.bad("I16"); err != nil {
		return err
	}
	return w.Writer.WriteI16(w.p.i16("w", w.in.top(), w.n, v))
}
func (w *faultyW) WriteI32(v int32) error {
	if err := w.bad("I32"); err != nil {
		return err
	}
	return w.Writer.WriteI32(w.p.i32("w", w.in.top(), w.n, v))
}
func (w *faultyW) WriteI64(v int64) error {
	if err := w.bad("I64"); err != nil {
		return err
	}
	return w.Writer.WriteI64(w.p.i64("w", w.in.top(), w.n, v))
}
func (w *faultyW) WriteString(v string) error {
	if err := w.bad("String"); err != nil {
		return err
	}
	if w.move > 0 {
		w.move--
		switch {
		case w.p.f.Act == "drop":
			if w.move == 0 {
				return nil
			}
		case w.move == 1:
			w.held = &v
			return nil
		default:
			if err := w.Writer.WriteString(v); err != nil {
				return err
			}
			v = *w.held
		}
	}
	return w.Writer.WriteString(w.p.string("w", w.in.top(), w.n, v))
}
func (w *faultyW) WriteBytes(v []byte) error {
	if err := w.bad("Bytes"); err != nil {
		return err
	}
	return w.Writer.WriteBytes(w.p.bytes("w", w.in.top(), w.n, v))
}
func (w *faultyW) WriteUUID(v *[16]byte) error {
	if err := w.bad("UUID"); err != nil {
		return err
	}
	u := w.p.id("w", w.n, *v)
	return w.Writer.WriteUUID(&u)
}
func (w *faultyW) Flush() error {
	f := w.p.f
	if f.Act == "noflush" {
		return nil
	}
	err := w.Writer.Flush()
	if err == nil && f.Act == "junk" && w.n >= f.N {
		_, err = w.sink.Write([]byte("\n"))
	}
	return err
}

// A reader with a fault.
type faultyR struct {
	thriftwire.Reader
	p  faulty
	n  int
	in in
}

func (r *faultyR) Reset(from io.Reader) {
	r.Reader.Reset(from)
	*r = faultyR{Reader: r.Reader, p: r.p}
}
func (r *faultyR) bad(k string) error { return r.p.bad("r", k, r.in.top(), r.n) }

func (r *faultyR) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
	r.n++
	if err := errors.Join(r.bad("Type"), r.bad("Id"), r.bad("Name")); err != nil {
		return h, err
	}
	h, err = r.Reader.ReadMessageBegin()
	if err != nil {
		return h, err
	}
	return r.p.message("r", r.n, h), nil
}
func (r *faultyR) ReadMessageEnd() error {
	if err := r.bad("End"); err != nil {
		return err
	}
	if a := r.p.f.Act; a == "stay" || a == "resync" {
		return nil
	}
	return r.Reader.ReadMessageEnd()
}
func (r *faultyR) ReadStructBegin() (h thriftwire.StructHeader, err error) {
	if err := r.bad("Struct"); err != nil {
		return h, err
	}
	r.in.push("Struct")
	return r.Reader.ReadStructBegin()
}
func (r *faultyR) ReadStructEnd() error {
	if err := r.bad("Stop"); err != nil {
		return err
	}
	r.in.pop()
	return r.Reader.ReadStructEnd()
}
func (r *faultyR) ReadFieldBegin() (h thriftwire.FieldHeader, err error) {
	if err := r.bad("Field"); err != nil {
		return h, err
	}
	h, err = r.Reader.ReadFieldBegin()
	if err != nil || h.Type == thriftwire.Stop {
		return h, err
	}
	return r.p.field("r", r.n, h), nil
}
func (r *faultyR) ReadMapBegin() (h thriftwire.MapHeader, err error) {
	if err := r.bad("Map"); err != nil {
		return h, err
	}
	h, err = r.Reader.ReadMapBegin()
	if err == nil {
		h.Size = r.p.size("r", "Map", r.n, h.Size)
	}
	r.in.push("Map")
	return h, err
}
func (r *faultyR) ReadSetBegin() (h thriftwire.SetHeader, err error) {
	if err := r.bad("Set"); err != nil {
		return h, err
	}
	h, err = r.Reader.ReadSetBegin()
	if err == nil {
		h.Size = r.p.size("r", "Set", r.n, h.Size)
	}
	r.in.push("Set")
	return h, err
}
func (r *faultyR) ReadListBegin() (h thriftwire.ListHeader, err error) {
	if err := r.bad("List"); err != nil {
		return h, err
	}
	h, err = r.Reader.ReadListBegin()
	if err == nil {
		h.Size = r.p.size("r", "List", r.n, h.Size)
	}
	r.in.push("List")
	return h, err
}
func (r *faultyR) ReadMapEnd() error  { r.in.pop(); return r.Reader.ReadMapEnd() }
func (r *faultyR) ReadSetEnd() error  { r.in.pop(); return r.Reader.ReadSetEnd() }
func (r *faultyR) ReadListEnd() error { r.in.pop(); return r.Reader.ReadListEnd() }

func readAs[T any](r *faultyR, k string, read func() (T, error), alter func(string, string, int, T) T) (v T, err error) {
	if err := r.bad(k); err != nil {
		return v, err
	}
	v, err = read()
	if err != nil {
		return v, err
	}
	return alter("r", r.in.top(), r.n, v), nil
}
func (r *faultyR) ReadBool() (bool, error) { return readAs(r, "Bool", r.Reader.ReadBool, r.p.bool) }
func (r *faultyR) ReadDouble() (float64, error) {
	return readAs(r, "Double", r.Reader.ReadDouble, r.p.double)
}
func (r *faultyR) ReadI16() (int16, error) { return readAs(r, "I16", r.Reader.ReadI16, r.p.i16) }
func (r *faultyR) ReadI32() (int32, error) { return readAs(r, "I32", r.Reader.ReadI32, r.p.i32) }
func (r *faultyR) ReadI64() (int64, error) { return readAs(r, "I64", r.Reader.ReadI64, r.p.i64) }
func (r *faultyR) ReadString() (string, error) {
	return readAs(r, "String", r.Reader.ReadString, r.p.string)
}
func (r *faultyR) ReadBytes(b []byte) ([]byte, error) {
	v, err := readAs(r, "Bytes", func() ([]byte, error) { return r.Reader.ReadBytes(nil) }, r.p.bytes)
	return append(b, v...), err
}
func (r *faultyR) ReadUUID(u *[16]byte) error {
	if err := r.bad("UUID"); err != nil {
		return err
	}
	err := r.Reader.ReadUUID(u)
	if err == nil {
		*u = r.p.id("r", r.n, *u)
	}
	return err
}
func (r *faultyR) skip(k string, f func() error) error {
	if r.p.bad("s", k, "", r.n) != nil {
		return errBad
	}
	if r.p.hits("s", "short", k, "", "", r.n) {
		return nil
	}
	return f()
}
func (r *faultyR) SkipString() error { return r.skip("String", r.Reader.SkipString) }
func (r *faultyR) SkipUUID() error   { return r.skip("UUID", r.Reader.SkipUUID) }

// --------------------------------------------------------------- scenarios

// theT is the test that the scenarios of C27 run in.
var theT *testing.T

// inTest runs f, which must not return, in a test.
func inTest(f func()) {
	os.Args = os.Args[:1]
	testing.Main(func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "Suite", F: func(t *testing.T) { theT = t; f() }}}, nil, nil)
}

// runSuite gives the suite's verdict.
func runSuite(p thriftwire.Protocol, uuid bool) bool {
	return theT.Run("s", func(t *testing.T) { thrifttest.TestProtocol(t, p, thrifttest.ProtocolOptions{UUID: uuid}) })
}

func suiteBase(name string) thriftwire.Protocol {
	if name == "text" {
		return text{}
	}
	return protocol(name)
}

// suiteFaults: the catalogue of faults the specification generated.
func suiteFaults(base string) func(*X) {
	return func(x *X) {
		fh, err := os.Open(filepath.Join(x.gen, "suite.ndjson"))
		if err != nil {
			panic(err)
		}
		defer fh.Close()
		sc := bufio.NewScanner(fh)
		for k := 0; sc.Scan(); k++ {
			if k%x.N != x.Idx {
				continue
			}
			var g struct {
				F    Fault `json:"f"`
				UUID bool  `json:"uuid"`
			}
			if err := json.Unmarshal(sc.Bytes(), &g); err != nil {
				panic(err)
			}
			if base != "text" {
				// What surely shows only in a protocol with redundancy: the
				// bytes left by the fault may mean something else (those of
				// a map depend on its order).
				if a := g.F.Act; a == "short" || a == "stay" || a == "resync" || g.F.Side == "w" && g.F.K == "Field" || g.F.K == "Map" && a == "set" {
					continue
				}
			}
			t := x.trace("Suite", map[string]any{"base": base})
			t.Tag = fmt.Sprintf("@%s.%s.%s.%s.%s.%s.%s.%d.%d", base, g.F.Side, g.F.Act, g.F.K, g.F.From, g.F.To, g.F.X, g.F.N, b01(g.UUID))
			p := faulty{suiteBase(base), g.F, g.UUID}
			t.add(Ev{"c": "Suite", "f": g.F, "uuid": g.UUID, "ok": b01(runSuite(p, g.UUID))})
		}
	}
}

// suiteSound: protocols as they are.
func suiteSound(x *X) {
	for _, base := range []string{"text", "binary", "nonstrict", "compact"} {
		for _, uuid := range []bool{true, false} {
			for _, f := range []Fault{{Act: "none", X: "*"}, {Side: "r", Act: "set", K: "Name", From: "*", To: "empty", X: "*"}} {
				t := x.trace("Suite", map[string]any{"base": base})
				t.lib(func() {
					p := suiteBase(base)
					if f.Act != "none" || !uuid {
						p = faulty{p, f, uuid}
					}
					t.add(Ev{"c": "Suite", "f": f, "uuid": uuid, "ok": b01(runSuite(p, uuid))})
				})
			}
		}
	}
}

func init() {
	register("C27", Class{"sound", 1, 1, suiteSound}, Class{"text", 16, 16, suiteFaults("text")},
		Class{"binary", 16, 16, suiteFaults("binary")}, Class{"compact", 16, 16, suiteFaults("compact")})
}
