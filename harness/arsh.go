package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// ------------------------------------------------------- description of types

type TD struct {
	K  string `json:"k"`
	El int    `json:"el"`
	Ky int    `json:"ky"`
	Fs []FD   `json:"fs"`
	Nm string `json:"nm"`
	Zm string `json:"zm"`
	Zc B      `json:"zc"`
}

type FD struct {
	ID int    `json:"id"`
	Nm string `json:"nm"`
	T  int    `json:"t"`
	Rq int    `json:"rq"`
	Ig int    `json:"ig"`
}

// Table describes Go types; indices count from 1.
type Table struct {
	tds []TD
	idx map[reflect.Type]int
	typ []reflect.Type
}

// isSet and isList tell the slice types that are sets and lists by method.
func isSet(t reflect.Type) bool {
	return t.PkgPath() == "github.com/itstarsun/go-thrift/thrift" && strings.HasPrefix(t.Name(), "Set[")
}

// zeroRules are the IsZero methods of the types below.
var zeroRules = map[reflect.Type]struct {
	m string
	c B
}{
	reflect.TypeOf(ZNever(0)):      {"never", B{}},
	reflect.TypeOf(ZAlways("")):    {"always", B{}},
	reflect.TypeOf(ZSeven(0)):      {"eq", w8(7)},
	reflect.TypeOf(ZPtrOdd(0)):     {"eq", w2(13)},
	reflect.TypeOf(ZStruct{}):      {"first", B{}},
	reflect.TypeOf(ZPtrStruct{}):   {"first", B{}},
	reflect.TypeOf(ZList(nil)):     {"empty", B{}},
	reflect.TypeOf(ZMap(nil)):      {"empty", B{}},
	reflect.TypeOf(ZTrue(false)):   {"eq", B{1}},
	reflect.TypeOf(ZNeverBytes{}):  {"never", B{}},
	reflect.TypeOf(ZNeverStruct{}): {"never", B{}},
	reflect.TypeOf(ZEmb{}):         {"first", B{}},
	reflect.TypeOf(ZRe{}):          {"first", B{}},
}

func (tb *Table) of(t reflect.Type) int {
	if tb.idx == nil {
		tb.idx = map[reflect.Type]int{}
	}
	if i, ok := tb.idx[t]; ok {
		return i
	}
	tb.tds = append(tb.tds, TD{Fs: []FD{}, Zc: B{}})
	tb.typ = append(tb.typ, t)
	i := len(tb.tds)
	tb.idx[t] = i
	d := TD{Fs: []FD{}, Zc: B{}, K: "bad"}
	if z, ok := zeroRules[t]; ok {
		d.Zm, d.Zc = z.m, z.c
	}
	switch t.Kind() {
	case reflect.Bool:
		d.K = "bool"
	case reflect.Int8, reflect.Uint8:
		d.K = "byte"
	case reflect.Int16, reflect.Uint16:
		d.K = "i16"
	case reflect.Int32, reflect.Uint32:
		d.K = "i32"
	case reflect.Int64, reflect.Uint64:
		d.K = "i64"
	case reflect.Float64:
		d.K = "double"
	case reflect.Float32:
		d.K = "float"
	case reflect.String:
		d.K = "string"
	case reflect.Array:
		if t == reflect.TypeOf([16]byte{}) {
			d.K = "uuid"
		}
	case reflect.Slice:
		switch {
		case isSet(t):
			d.K = "set"
		case t.Elem() == reflect.TypeOf(byte(0)) && !isList(t):
			d.K = "bytes"
		default:
			d.K = "list"
		}
		if d.K != "bytes" {
			d.El = tb.of(t.Elem())
		}
	case reflect.Map:
		d.K = "map"
		d.Ky = tb.of(t.Key())
		d.El = tb.of(t.Elem())
	case reflect.Pointer:
		d.K = "ptr"
		seen := map[reflect.Type]bool{t: true}
		for e := t.Elem(); e.Kind() == reflect.Pointer; e = e.Elem() {
			if seen[e] {
				d.K = "bad"
				break
			}
			seen[e] = true
		}
		if d.K == "ptr" {
			d.El = tb.of(t.Elem())
		}
	case reflect.Struct:
		d.K = "struct"
		d.Nm = t.Name()
		for j := 0; j < t.NumField(); j++ {
			sf := t.Field(j)
			tag := sf.Tag.Get("thrift")
			f := FD{Nm: sf.Name, T: 0}
			if tag == "-" || !sf.IsExported() {
				f.Ig = 1
				f.T = tb.opaque(sf.Type)
			} else {
				opts := strings.Split(tag, ",")
				n, err := strconv.Atoi(opts[0])
				if err != nil {
					panic("describe: tag " + tag)
				}
				f.ID = n
				for _, o := range opts[1:] {
					if o == "required" {
						f.Rq = 1
					}
				}
				f.T = tb.of(sf.Type)
			}
			d.Fs = append(d.Fs, f)
		}
	}
	tb.tds[i-1] = d
	return i
}

func isList(t reflect.Type) bool {
	return t.PkgPath() == "github.com/itstarsun/go-thrift/thrift" && strings.HasPrefix(t.Name(), "List[")
}

// opaque describes the type of a field that is no Thrift field.
func (tb *Table) opaque(t reflect.Type) int {
	tb.tds = append(tb.tds, TD{K: "opaque", Fs: []FD{}, Zc: B{}})
	tb.typ = append(tb.typ, t)
	return len(tb.tds)
}

// ------------------------------------------------------- rendering of values

type VR struct {
	N int  `json:"n"`
	B B    `json:"b"`
	C []VR `json:"c"`
	P int  `json:"p"`
}

// labels names the objects that pointers refer to.
type labels struct {
	of   map[labelKey]int
	ptrs []reflect.Value
}

type labelKey struct {
	a uintptr
	t reflect.Type
}

func scalarBits(k string, v reflect.Value) B {
	switch v.Kind() {
	case reflect.Bool:
		return B{byte(b01(v.Bool()))}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return trunc(k, uint64(v.Int()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return trunc(k, v.Uint())
	case reflect.Float64:
		return w8(math.Float64bits(v.Float()))
	case reflect.Float32:
		return w8(math.Float64bits(v.Float()))
	case reflect.String:
		return B(v.String())
	case reflect.Array:
		b := make(B, v.Len())
		for i := range b {
			b[i] = byte(v.Index(i).Uint())
		}
		return b
	}
	panic("bits")
}

func trunc(k string, u uint64) B {
	n := map[string]int{"byte": 1, "i16": 2, "i32": 4, "i64": 8}[k]
	return w8(u)[8-n:]
}

// render shows v; with lb nil as a tree, otherwise with the labels of known
// targets.
func (tb *Table) render(t int, v reflect.Value, lb *labels, add bool) VR {
	d := &tb.tds[t-1]
	r := VR{B: B{}, C: []VR{}}
	switch d.K {
	case "bad":
		r.N = 1
	case "opaque":
		if !v.IsZero() {
			r.B = B(opaqueText(v))
		}
	case "bytes":
		r.N = b01(v.IsNil())
		r.B = append(B{}, v.Bytes()...)
	case "list", "set":
		r.N = b01(v.IsNil())
		for i := 0; i < v.Len(); i++ {
			r.C = append(r.C, tb.render(d.El, v.Index(i), lb, add))
		}
		if lb != nil && add && v.Cap() > v.Len() { // what spare elements point to is nobody else's business
			for i, w := v.Len(), v.Slice3(0, v.Cap(), v.Cap()); i < w.Len(); i++ {
				tb.render(d.El, w.Index(i), lb, add)
			}
		}
	case "map":
		r.N = b01(v.IsNil())
		for _, k := range sortedEntries(v) {
			r.C = append(r.C, tb.render(d.Ky, k[0], lb, add), tb.render(d.El, k[1], lb, add))
		}
	case "struct":
		for i, f := range d.Fs {
			r.C = append(r.C, tb.render(f.T, v.Field(i), lb, add))
		}
	case "ptr":
		if v.IsNil() {
			r.N = 1
			break
		}
		if lb != nil && v.Type().Elem().Size() > 0 {
			k := labelKey{v.Pointer(), v.Type()}
			if n, ok := lb.of[k]; ok {
				r.P = n
				break
			}
			if add {
				own := reflect.New(v.Type()).Elem()
				own.Set(v) // v may be a variable
				lb.ptrs = append(lb.ptrs, own)
				r.P = len(lb.ptrs)
				lb.of[k] = r.P
				break
			}
		}
		r.C = append(r.C, tb.render(d.El, v.Elem(), lb, add))
	default:
		r.B = scalarBits(d.K, v)
	}
	return r
}

func opaqueText(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Chan, reflect.Func:
		return fmt.Sprintf("%x", v.Pointer())
	case reflect.Interface:
		return "interface"
	}
	return fmt.Sprint(v)
}

// sortedEntries lists a map's entries in some order that does not depend on
// the run.
func sortedEntries(v reflect.Value) [][2]reflect.Value {
	var es [][2]reflect.Value
	for it := v.MapRange(); it.Next(); {
		es = append(es, [2]reflect.Value{it.Key(), it.Value()})
	}
	key := make([]string, len(es))
	idx := make([]int, len(es))
	for i, e := range es {
		k := e[0]
		for k.Kind() == reflect.Pointer && !k.IsNil() {
			k = k.Elem()
		}
		key[i] = fmt.Sprint(k)
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return key[idx[a]] < key[idx[b]] })
	out := make([][2]reflect.Value, len(es))
	for i, j := range idx {
		out[i] = es[j]
	}
	return out
}

type objR struct {
	T int `json:"t"`
	V VR  `json:"v"`
}

// dest shows the destination dst points to, labelling all its targets.
func (tb *Table) dest(dst reflect.Value) (Ev, *labels) {
	lb := &labels{of: map[labelKey]int{}}
	t := tb.of(dst.Type().Elem())
	v := tb.render(t, dst.Elem(), lb, true)
	objs := []objR{}
	for i := 0; i < len(lb.ptrs); i++ {
		et := tb.of(lb.ptrs[i].Type().Elem())
		objs = append(objs, objR{et, tb.render(et, lb.ptrs[i].Elem(), lb, true)})
	}
	return Ev{"c": "Dest", "t": t, "v": v, "objs": objs}, lb
}

func (tb *Table) after(ev Ev, dst reflect.Value, lb *labels) {
	ev["v"] = tb.render(tb.of(dst.Type().Elem()), dst.Elem(), lb, false)
	objs := []objR{}
	for i := 0; i < len(lb.ptrs); i++ {
		et := tb.of(lb.ptrs[i].Type().Elem())
		objs = append(objs, objR{et, tb.render(et, lb.ptrs[i].Elem(), lb, false)})
	}
	ev["objs"] = objs
}

// ------------------------------------------------------ recorders of calls

// CW records calls of a writer and hands them on to w, if there is one; call
// number failAt (from 1) fails with err.
type CW struct {
	t      *Trace
	w      thriftwire.Writer
	n      int
	failAt int
	err    error
	limit  int // stop after so many calls
	hook   func(n int, ev Ev)
}

var errTooMany = errors.New("too many calls")

func (x *CW) call(ev Ev, f func() error) error {
	x.n++
	if x.hook != nil {
		x.hook(x.n, ev)
	}
	if x.limit > 0 && x.n > x.limit {
		if x.n == x.limit+1 {
			x.t.add(Ev{"c": "Hang", "what": "too many calls"})
		}
		return errTooMany
	}
	var err error
	if x.n == x.failAt {
		err = x.err
	} else if x.w != nil {
		err = f()
	}
	ev["e"] = code(err)
	x.t.add(ev)
	return err
}

func (x *CW) WriteMessageBegin(h thriftwire.MessageHeader) error {
	return x.call(Ev{"c": "WMsgBegin"}, func() error { return x.w.WriteMessageBegin(h) })
}
func (x *CW) WriteMessageEnd() error {
	return x.call(Ev{"c": "WMsgEnd"}, func() error { return x.w.WriteMessageEnd() })
}
func (x *CW) WriteStructBegin(h thriftwire.StructHeader) error {
	return x.call(Ev{"c": "WStructBegin", "n": h.Name}, func() error { return x.w.WriteStructBegin(h) })
}
func (x *CW) WriteStructEnd() error {
	return x.call(Ev{"c": "WStructEnd"}, func() error { return x.w.WriteStructEnd() })
}
func (x *CW) WriteFieldBegin(h thriftwire.FieldHeader) error {
	return x.call(Ev{"c": "WFieldBegin", "n": h.Name, "t": int(h.Type), "id": int(h.ID)}, func() error { return x.w.WriteFieldBegin(h) })
}
func (x *CW) WriteFieldEnd() error {
	return x.call(Ev{"c": "WFieldEnd"}, func() error { return x.w.WriteFieldEnd() })
}
func (x *CW) WriteMapBegin(h thriftwire.MapHeader) error {
	return x.call(Ev{"c": "WMapBegin", "k": int(h.Key), "v": int(h.Value), "s": h.Size}, func() error { return x.w.WriteMapBegin(h) })
}
func (x *CW) WriteMapEnd() error {
	return x.call(Ev{"c": "WMapEnd"}, func() error { return x.w.WriteMapEnd() })
}
func (x *CW) WriteSetBegin(h thriftwire.SetHeader) error {
	return x.call(Ev{"c": "WSetBegin", "t": int(h.Element), "s": h.Size}, func() error { return x.w.WriteSetBegin(h) })
}
func (x *CW) WriteSetEnd() error {
	return x.call(Ev{"c": "WSetEnd"}, func() error { return x.w.WriteSetEnd() })
}
func (x *CW) WriteListBegin(h thriftwire.ListHeader) error {
	return x.call(Ev{"c": "WListBegin", "t": int(h.Element), "s": h.Size}, func() error { return x.w.WriteListBegin(h) })
}
func (x *CW) WriteListEnd() error {
	return x.call(Ev{"c": "WListEnd"}, func() error { return x.w.WriteListEnd() })
}
func (x *CW) WriteBool(v bool) error {
	return x.call(Ev{"c": "WBool", "v": B{byte(b01(v))}}, func() error { return x.w.WriteBool(v) })
}
func (x *CW) WriteByte(v byte) error {
	return x.call(Ev{"c": "WByte", "v": B{v}}, func() error { return x.w.WriteByte(v) })
}
func (x *CW) WriteDouble(v float64) error {
	return x.call(Ev{"c": "WDouble", "v": w8(math.Float64bits(v))}, func() error { return x.w.WriteDouble(v) })
}
func (x *CW) WriteI16(v int16) error {
	return x.call(Ev{"c": "WI16", "v": w2(v)}, func() error { return x.w.WriteI16(v) })
}
func (x *CW) WriteI32(v int32) error {
	return x.call(Ev{"c": "WI32", "v": w4(v)}, func() error { return x.w.WriteI32(v) })
}
func (x *CW) WriteI64(v int64) error {
	return x.call(Ev{"c": "WI64", "v": w8(uint64(v))}, func() error { return x.w.WriteI64(v) })
}
func (x *CW) WriteString(v string) error {
	return x.call(Ev{"c": "WString", "v": B(v)}, func() error { return x.w.WriteString(v) })
}
func (x *CW) WriteBytes(v []byte) error {
	return x.call(Ev{"c": "WBytes", "v": append(B{}, v...)}, func() error { return x.w.WriteBytes(v) })
}
func (x *CW) WriteUUID(v *[16]byte) error {
	return x.call(Ev{"c": "WUUID", "v": append(B{}, v[:]...)}, func() error { return x.w.WriteUUID(v) })
}
func (x *CW) Flush() error {
	return x.call(Ev{"c": "WFlush"}, func() error { return x.w.Flush() })
}
func (x *CW) Reset(w io.Writer) { x.call(Ev{"c": "WReset"}, func() error { x.w.Reset(w); return nil }) }

// CR records calls of a reader and hands them on to r.
type CR struct {
	t      *Trace
	r      thriftwire.Reader
	n      int
	failAt int
	err    error
	limit  int
	hook   func(n int, ev Ev)
}

func (x *CR) call(ev Ev, f func() error) error {
	x.n++
	if x.hook != nil {
		x.hook(x.n, ev)
	}
	if x.limit > 0 && x.n > x.limit {
		if x.n == x.limit+1 {
			x.t.add(Ev{"c": "Hang", "what": "too many calls"})
		}
		return errTooMany
	}
	var err error
	if x.n == x.failAt {
		err = x.err
	} else {
		err = f()
	}
	ev["e"] = code(err)
	x.t.add(ev)
	return err
}

func (x *CR) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
	err = x.call(Ev{"c": "RMsgBegin"}, func() error { h, err = x.r.ReadMessageBegin(); return err })
	return
}
func (x *CR) ReadMessageEnd() error {
	return x.call(Ev{"c": "RMsgEnd"}, func() error { return x.r.ReadMessageEnd() })
}
func (x *CR) ReadStructBegin() (h thriftwire.StructHeader, err error) {
	err = x.call(Ev{"c": "RStructBegin"}, func() error { h, err = x.r.ReadStructBegin(); return err })
	return
}
func (x *CR) ReadStructEnd() error {
	return x.call(Ev{"c": "RStructEnd"}, func() error { return x.r.ReadStructEnd() })
}
func (x *CR) ReadFieldBegin() (h thriftwire.FieldHeader, err error) {
	ev := Ev{"c": "RFieldBegin"}
	err = x.call(ev, func() error { h, err = x.r.ReadFieldBegin(); return err })
	ev["t"], ev["id"] = int(h.Type), int(h.ID)
	return
}
func (x *CR) ReadFieldEnd() error {
	return x.call(Ev{"c": "RFieldEnd"}, func() error { return x.r.ReadFieldEnd() })
}
func (x *CR) ReadMapBegin() (h thriftwire.MapHeader, err error) {
	ev := Ev{"c": "RMapBegin"}
	err = x.call(ev, func() error { h, err = x.r.ReadMapBegin(); return err })
	ev["k"], ev["v"], ev["s"] = int(h.Key), int(h.Value), h.Size
	return
}
func (x *CR) ReadMapEnd() error {
	return x.call(Ev{"c": "RMapEnd"}, func() error { return x.r.ReadMapEnd() })
}
func (x *CR) ReadSetBegin() (h thriftwire.SetHeader, err error) {
	ev := Ev{"c": "RSetBegin"}
	err = x.call(ev, func() error { h, err = x.r.ReadSetBegin(); return err })
	ev["t"], ev["s"] = int(h.Element), h.Size
	return
}
func (x *CR) ReadSetEnd() error {
	return x.call(Ev{"c": "RSetEnd"}, func() error { return x.r.ReadSetEnd() })
}
func (x *CR) ReadListBegin() (h thriftwire.ListHeader, err error) {
	ev := Ev{"c": "RListBegin"}
	err = x.call(ev, func() error { h, err = x.r.ReadListBegin(); return err })
	ev["t"], ev["s"] = int(h.Element), h.Size
	return
}
func (x *CR) ReadListEnd() error {
	return x.call(Ev{"c": "RListEnd"}, func() error { return x.r.ReadListEnd() })
}
func (x *CR) ReadBool() (v bool, err error) {
	ev := Ev{"c": "RBool"}
	err = x.call(ev, func() error { v, err = x.r.ReadBool(); return err })
	ev["v"] = B{byte(b01(v))}
	return
}
func (x *CR) ReadByte() (v byte, err error) {
	ev := Ev{"c": "RByte"}
	err = x.call(ev, func() error { v, err = x.r.ReadByte(); return err })
	ev["v"] = B{v}
	return
}
func (x *CR) ReadDouble() (v float64, err error) {
	ev := Ev{"c": "RDouble"}
	err = x.call(ev, func() error { v, err = x.r.ReadDouble(); return err })
	ev["v"] = w8(math.Float64bits(v))
	return
}
func (x *CR) ReadI16() (v int16, err error) {
	ev := Ev{"c": "RI16"}
	err = x.call(ev, func() error { v, err = x.r.ReadI16(); return err })
	ev["v"] = w2(v)
	return
}
func (x *CR) ReadI32() (v int32, err error) {
	ev := Ev{"c": "RI32"}
	err = x.call(ev, func() error { v, err = x.r.ReadI32(); return err })
	ev["v"] = w4(v)
	return
}
func (x *CR) ReadI64() (v int64, err error) {
	ev := Ev{"c": "RI64"}
	err = x.call(ev, func() error { v, err = x.r.ReadI64(); return err })
	ev["v"] = w8(uint64(v))
	return
}
func (x *CR) ReadString() (v string, err error) {
	ev := Ev{"c": "RString"}
	err = x.call(ev, func() error { v, err = x.r.ReadString(); return err })
	ev["v"] = B(append([]byte{}, v...))
	return
}

// ReadBytes reports what is read behind the content of buf.
func (x *CR) ReadBytes(buf []byte) (v []byte, err error) {
	n := len(buf)
	ev := Ev{"c": "RBytes"}
	err = x.call(ev, func() error { v, err = x.r.ReadBytes(buf); return err })
	ev["v"] = B{}
	if err == nil && len(v) >= n {
		ev["v"] = append(B{}, v[n:]...)
	}
	return
}
func (x *CR) ReadUUID(u *[16]byte) (err error) {
	ev := Ev{"c": "RUUID"}
	err = x.call(ev, func() error { return x.r.ReadUUID(u) })
	ev["v"] = append(B{}, u[:]...)
	return
}
func (x *CR) SkipString() error {
	return x.call(Ev{"c": "RSkipString"}, func() error { return x.r.SkipString() })
}
func (x *CR) SkipUUID() error {
	return x.call(Ev{"c": "RSkipUUID"}, func() error { return x.r.SkipUUID() })
}
func (x *CR) Reset(r io.Reader) { x.call(Ev{"c": "RReset"}, func() error { x.r.Reset(r); return nil }) }

// ----------------------------------------------------------------- player

// player is a Reader that delivers a value given as a tree.
type player struct {
	toks []tok
	pos  int
}

type tok struct {
	c string
	v *V
	f thriftwire.FieldHeader
}

var errWrongCall = errors.New("player: wrong call")

func play(v *V) *player {
	p := &player{}
	p.add(v)
	return p
}

func (p *player) add(v *V) {
	switch v.T {
	case tStruct:
		p.toks = append(p.toks, tok{c: "sb", v: v})
		for _, f := range v.Fs {
			p.toks = append(p.toks, tok{c: "fb", f: thriftwire.FieldHeader{Type: thriftwire.Type(f.V.T), ID: f.ID}})
			p.add(f.V)
			p.toks = append(p.toks, tok{c: "fe"})
		}
		p.toks = append(p.toks, tok{c: "fb"}, tok{c: "se"})
	case tMap, tSet, tList:
		b := map[byte]string{tMap: "mb", tSet: "tb", tList: "lb"}[v.T]
		p.toks = append(p.toks, tok{c: b, v: v})
		for _, k := range v.Kids {
			p.add(k)
		}
		p.toks = append(p.toks, tok{c: b[:1] + "e"})
	default:
		p.toks = append(p.toks, tok{c: "v", v: v})
	}
}

func (p *player) next(c string, t byte) (tok, error) {
	if p.pos >= len(p.toks) {
		return tok{v: &V{}}, io.EOF
	}
	k := p.toks[p.pos]
	if k.c != c || c == "v" && k.v.T != t {
		return tok{v: &V{}}, errWrongCall
	}
	p.pos++
	return k, nil
}

func (p *player) do(c string) error { _, err := p.next(c, 0); return err }

func (p *player) ReadMessageBegin() (h thriftwire.MessageHeader, err error) { return h, errWrongCall }
func (p *player) ReadMessageEnd() error                                     { return errWrongCall }
func (p *player) ReadStructBegin() (h thriftwire.StructHeader, err error)   { return h, p.do("sb") }
func (p *player) ReadStructEnd() error                                      { return p.do("se") }
func (p *player) ReadFieldBegin() (h thriftwire.FieldHeader, err error) {
	k, err := p.next("fb", 0)
	return k.f, err
}
func (p *player) ReadFieldEnd() error { return p.do("fe") }

// sizes may be announced negative where there is nothing.
func (v *V) size(n int) int {
	if n == 0 && v.N == 99 {
		return -1
	}
	return n
}
func (p *player) ReadMapBegin() (h thriftwire.MapHeader, err error) {
	k, err := p.next("mb", 0)
	return thriftwire.MapHeader{Key: thriftwire.Type(k.v.K), Value: thriftwire.Type(k.v.E), Size: k.v.size(len(k.v.Kids) / 2)}, err
}
func (p *player) ReadMapEnd() error { return p.do("me") }
func (p *player) ReadSetBegin() (h thriftwire.SetHeader, err error) {
	k, err := p.next("tb", 0)
	return thriftwire.SetHeader{Element: thriftwire.Type(k.v.E), Size: k.v.size(len(k.v.Kids))}, err
}
func (p *player) ReadSetEnd() error { return p.do("te") }
func (p *player) ReadListBegin() (h thriftwire.ListHeader, err error) {
	k, err := p.next("lb", 0)
	return thriftwire.ListHeader{Element: thriftwire.Type(k.v.E), Size: k.v.size(len(k.v.Kids))}, err
}
func (p *player) ReadListEnd() error { return p.do("le") }
func (p *player) ReadBool() (bool, error) {
	k, err := p.next("v", tBool)
	return k.v.N != 0, err
}
func (p *player) ReadByte() (byte, error) {
	k, err := p.next("v", tByte)
	return byte(k.v.N), err
}
func (p *player) ReadDouble() (float64, error) {
	k, err := p.next("v", tDouble)
	return math.Float64frombits(k.v.N), err
}
func (p *player) ReadI16() (int16, error) {
	k, err := p.next("v", tI16)
	return int16(k.v.N), err
}
func (p *player) ReadI32() (int32, error) {
	k, err := p.next("v", tI32)
	return int32(k.v.N), err
}
func (p *player) ReadI64() (int64, error) {
	k, err := p.next("v", tI64)
	return int64(k.v.N), err
}
func (p *player) ReadString() (string, error) {
	k, err := p.next("v", tString)
	return string(k.v.B), err
}
func (p *player) ReadBytes(b []byte) ([]byte, error) {
	k, err := p.next("v", tString)
	return append(b, k.v.B...), err
}
func (p *player) ReadUUID(u *[16]byte) error {
	k, err := p.next("v", tUUID)
	copy(u[:], k.v.B)
	return err
}
func (p *player) SkipString() error { _, err := p.next("v", tString); return err }
func (p *player) SkipUUID() error   { _, err := p.next("v", tUUID); return err }
func (p *player) Reset(io.Reader)   {}

// ------------------------------------------------------- recorded operations

// AT is a trace of Arsh with its types.
type AT struct {
	*Trace
	tb    *Table
	start func() // called right before the library is
}

func (x *X) arsh() *AT {
	t := x.trace("Arsh", map[string]any{"ty": []TD{}})
	return &AT{Trace: t, tb: &Table{}}
}

func (t *AT) begin() {
	if t.start != nil {
		t.start()
	}
}

func (t *AT) types() { t.Body["ty"] = append([]TD{}, t.tb.tds...) }

func sem(err error) int {
	var s *thrift.SemanticError
	return b01(errors.As(err, &s))
}

// marshal records Marshal of in (which may be a pointer to the value) into w.
func (t *AT) marshal(w *CW, in any) error {
	v := reflect.ValueOf(in)
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	ti := t.tb.of(v.Type())
	t.types()
	t.add(Ev{"c": "Marshal", "t": ti, "v": t.tb.render(ti, v, nil, false)})
	w.t = t.Trace
	var err error
	t.begin()
	t.lib(func() { err = thrift.Marshal(w, in) })
	t.err(err)
	t.add(Ev{"c": "Done", "e": code(err), "sem": sem(err), "v": t.tb.render(ti, v, nil, false)})
	return err
}

// unmarshal records Unmarshal of what r delivers into dst, a pointer.
func (t *AT) unmarshal(r *CR, dst reflect.Value) error {
	ev, lb := t.tb.dest(dst)
	t.types()
	t.add(ev)
	t.add(Ev{"c": "Unmarshal"})
	r.t = t.Trace
	var err error
	t.begin()
	t.lib(func() { err = thrift.Unmarshal(r, dst.Interface()) })
	t.err(err)
	done := Ev{"c": "Done", "e": code(err), "sem": sem(err)}
	if err == nil {
		t.tb.after(done, dst, lb)
	}
	t.types()
	t.add(done)
	return err
}

func (t *AT) skip(r *CR, w byte) error {
	t.types()
	t.add(Ev{"c": "Skip", "t": int(w)})
	r.t = t.Trace
	var err error
	t.lib(func() { err = thriftwire.Skip(r, thriftwire.Type(w)) })
	t.err(err)
	t.add(Ev{"c": "Done", "e": code(err), "sem": 0})
	return err
}

var _ thriftwire.Writer = (*CW)(nil)
var _ thriftwire.Reader = (*CR)(nil)
var _ thriftwire.Reader = (*player)(nil)
