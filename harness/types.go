package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// Struct tags, and types that are refused or have no end (spec/Tags.tla).

var tagTokens = map[string]string{
	"one": "1", "zero": "0", "minus": "-", "plus": "+", "comma": ",", "big": "32767", "over": "32768", "max": "65536", "required": "required",
	"Required": "Required", "re": "re", "quired": "quired", "under": "_", "x": "x", "space": " ", "eacute": "é", "digit": "٣", "snow": "☃", "byte": "\xff",
	"doti": "İ", "quote": "'", "dot": ".",
}

func tagChars(s string) [][3]int {
	out := [][3]int{}
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		switch {
		case r == utf8.RuneError && n == 1:
			c := utf8.MaxRune + int(s[0])
			out = append(out, [3]int{c, c, 0})
		case unicode.IsLetter(r):
			out = append(out, [3]int{int(r), int(unicode.ToLower(r)), 1})
		case unicode.IsNumber(r):
			out = append(out, [3]int{int(r), int(unicode.ToLower(r)), 2})
		default:
			out = append(out, [3]int{int(r), int(unicode.ToLower(r)), 0})
		}
		s = s[n:]
	}
	return out
}

type tagField struct {
	exported, anon bool
	raw            reflect.StructTag
}

type (
	tagInt  int32
	tagUint uint32
)

// What fields are of; unexported ones may be of no size.
var tagTypes = []reflect.Type{typeOf[int32](), typeOf[int32](), typeOf[uint32](), typeOf[tagInt](), typeOf[tagUint]()}
var tagHidden = []reflect.Type{typeOf[int32](), typeOf[struct{}](), typeOf[[0]int32](), typeOf[string](), typeOf[chan int](), typeOf[UpEmb](), typeOf[*int32]()}

func tagInts(v reflect.Value) int {
	switch {
	case v.CanInt():
		return int(v.Int())
	case v.CanUint():
		return int(v.Uint())
	}
	return b01(!v.IsZero())
}

func thriftTag(s string) reflect.StructTag {
	return reflect.StructTag("thrift:" + strconv.Quote(s))
}

// ends reports how a call ended, after n calls of the reader or writer.
func ends(err error, n int) map[string]any {
	return map[string]any{"e": code(err), "sem": sem(err), "n": n}
}

func writtenIDs(out string, nest bool) (ids []int, calls int) {
	ids = []int{}
	for _, l := range strings.Split(out, "\n") {
		if l == "" {
			continue
		}
		calls++
		if f := strings.Fields(l); f[0] == "field" {
			ids = append(ids, parse[int](f[2]))
		}
	}
	if nest && len(ids) > 0 {
		ids = ids[1:]
	}
	return ids, calls
}

type countReader struct {
	r     io.Reader
	lines int
}

func (c *countReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.lines += strings.Count(string(p[:n]), "\n")
	return n, err
}

// tagged records what becomes of a struct with such fields.
func (x *X) tagged(t *Trace, fs []tagField, nest bool) {
	var sfs []reflect.StructField
	evs := []map[string]any{}
	in := [][2]int{}
	for i, f := range fs {
		sf := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: tagTypes[x.Intn(len(tagTypes))], Tag: f.raw}
		if !f.exported {
			sf.Type = tagHidden[x.Intn(len(tagHidden))]
			sf.Name, sf.PkgPath = fmt.Sprintf("f%d", i), "main"
		}
		sfs = append(sfs, sf)
		tag, has := f.raw.Lookup("thrift")
		evs = append(evs, map[string]any{"exp": b01(f.exported), "has": b01(has), "tag": tagChars(tag)})
		id, _, _ := strings.Cut(tag, ",")
		if n, err := strconv.Atoi(id); err == nil && n >= -32768 && n <= 32767 && !x.one(8) {
			in = append(in, [2]int{n, 1000 + i})
		}
		if x.one(8) {
			in = append(in, [2]int{int(x.id()), 2000 + i})
		}
	}
	x.Shuffle(len(in), func(i, j int) { in[i], in[j] = in[j], in[i] })
	ty := reflect.StructOf(sfs)
	outer := ty
	if nest {
		outer = reflect.StructOf([]reflect.StructField{{Name: "A", Type: ty, Tag: `thrift:"1,required"`}})
	}
	ev := Ev{"c": "Struct", "fs": evs, "nest": b01(nest)}
	v := reflect.New(outer)
	inner := v.Elem()
	if nest {
		inner = inner.Field(0)
	}
	shuffled := x.one(2) // which of the two is the type's first use
	unmarshal := func() {
		var doc strings.Builder
		if nest {
			doc.WriteString("struct\nfield 12 1\n")
		}
		doc.WriteString("struct\n")
		for _, f := range in {
			fmt.Fprintf(&doc, "field 8 %d\ni32 %d\nend field\n", f[0], f[1])
		}
		doc.WriteString("end struct\n")
		if nest {
			doc.WriteString("end field\nend struct\n")
		}
		dst := reflect.New(outer)
		cr := &countReader{r: strings.NewReader(doc.String())}
		var err error
		t.lib(func() { err = thrift.Unmarshal(text{}.NewReader(cr), dst.Interface()) })
		u := ends(err, cr.lines)
		u["in"] = in
		vals := []int{}
		d := dst.Elem()
		if nest {
			d = d.Field(0)
		}
		for i := range fs {
			vals = append(vals, tagInts(d.Field(i)))
		}
		u["vals"] = vals
		ev["u"] = u
	}
	marshal := func(k string) {
		w := &textW{}
		var err error
		t.lib(func() { err = thrift.Marshal(w, v.Interface()) })
		ids, n := writtenIDs(string(w.out), nest)
		m := ends(err, n)
		m["ids"] = ids
		ev[k] = m
	}
	if shuffled {
		unmarshal()
	}
	marshal("mz")
	for i := range fs {
		switch f := inner.Field(i); {
		case !f.CanSet():
		case f.CanInt():
			f.SetInt(int64(i + 1))
		default:
			f.SetUint(uint64(i + 1))
		}
	}
	marshal("mn")
	if !shuffled {
		unmarshal()
	}
	t.add(ev)
}

// tagsGen: single tags, as the specification generated them.
func tagsGen(x *X) {
	fh, err := os.Open(filepath.Join(x.gen, "tags.ndjson"))
	if err != nil {
		panic(err)
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	t := x.trace("Tags", nil)
	for k := 0; sc.Scan(); k++ {
		if k%x.N != x.Idx {
			continue
		}
		var g struct{ Ops []string }
		if err := json.Unmarshal(sc.Bytes(), &g); err != nil {
			panic(err)
		}
		tag := ""
		for _, o := range g.Ops {
			tag += tagTokens[o]
		}
		x.tagged(t, []tagField{{exported: true, raw: thriftTag(tag)}}, k%5 == 0)
		if k%7 == 0 {
			x.tagged(t, []tagField{{exported: false, raw: thriftTag(tag)}}, k%5 == 0)
		}
	}
}

func (g *G) option() string {
	switch g.Intn(9) {
	case 0, 1:
		return "required"
	case 2:
		return pick(g, "Required", "REQUIRED", "requireD", "_required", "required_", "re_quired", "r_e_q_u_i_r_e_d", "requ\u0130red", "REQ_UIRED_", "r__equired")
	case 3:
		return pick(g, "", " ", "1", "1a", "é", "-", "☃", "\xff", "a-b", "required ", " required", "required=1", "required-", "a b", "'x'", "\"x\"", "a'b", "٣a", "\u02bc")
	case 4:
		return pick(g, "require", "requiredd", "requires", "equired", "optional", "omitempty", "requıred", "default", "requiredfield", "not_required")
	default:
		return pick(g, "a", "b", "A", "_", "__", "a1", "é", "É", "a٣", "x_y", "ø", "ǅ", "a½", "世界", "ªb", "\u2160")
	}
}

func (g *G) fieldID() string {
	switch g.Intn(12) {
	case 0:
		return pick(g, "", "x", "1x", "0x1", "1_0", " 1", "1 ", "1.", "1e1", "+", "--1", "+-1", "٣", "１", "-", "99999999999999999999", "-99999999999999999999", "0b1", "1\x00", "4294967297", "65537")
	case 1:
		return pick(g, "32767", "32768", "-32768", "-32769", "+32767", "+32768", "00032767", "000000000000000000000000001", "-0", "+0", "-00", "65535")
	case 2:
		return strconv.Itoa(int(int16(g.Uint32())))
	default:
		return strconv.Itoa(g.Intn(6))
	}
}

func (g *G) fieldTag() string {
	tag := g.fieldID()
	for g.one(2) {
		tag += "," + g.option()
	}
	switch g.Intn(25) {
	case 0:
		tag += ","
	case 1:
		return "-" + pick(g, "", "", "", ",", ",required", "-")
	case 2:
		tag = strings.Replace(tag, ",", pick(g, ";", " ,", ", ", ",,", "."), 1)
	}
	return tag
}

// tagsRandom: structs of a few fields.
func tagsRandom(x *X) {
	t := x.trace("Tags", nil)
	for k := 0; k < 12; k++ {
		var fs []tagField
		for n := x.pick(0, 1, 1, 2, 2, 3, 5); n > 0; n-- {
			f := tagField{exported: !x.one(4)}
			tag := x.fieldTag()
			switch {
			case !f.exported && !x.one(3):
				f.raw = pick(x.G, reflect.StructTag(""), "", "", `json:"a"`, thriftTag("-"), thriftTag("-"), thriftTag("-1"), thriftTag("--"), thriftTag("-,"), `thrift:""`)
			case x.one(12):
				f.raw = pick(x.G, reflect.StructTag(""), `json:"1"`, `Thrift:"1"`, `thrift:""`, `thrift:"-"`, `thrift:1`, `thrift: "1"`, `json:"x`, ` thrift:"1"`, `thrift`)
			case x.one(4):
				f.raw = pick(x.G, reflect.StructTag(`json:"x,omitempty" `), `a:"" b:"thrift" `) + thriftTag(tag)
			case x.one(6):
				f.raw = thriftTag(tag) + pick(x.G, reflect.StructTag(` json:"x"`), ` thrift:"9"`, `,`, `x`)
			case len(fs) > 0 && x.one(3):
				// A tag that differs little from a good one.
				f.raw = thriftTag(strconv.Itoa(len(fs)+10) + pick(x.G, "", ",required", ",a", ",required,a", ",a,b,required"))
			default:
				f.raw = thriftTag(tag)
			}
			fs = append(fs, f)
		}
		if x.one(2) {
			// Mostly sound ones.
			for i := range fs {
				if !x.one(4) {
					fs[i] = tagField{exported: true, raw: thriftTag(strconv.Itoa(x.pick(i, i+1, 1000-i, -i)) + pick(x.G, "", ",required", ",a", ",required,a", ",a,b,required", ",_,required_ish"))}
				}
			}
		}
		x.tagged(t, fs, x.one(4))
	}
}

// ------------------------------------------------- embedded and other fields

type (
	lowEmb struct {
		A int32 `thrift:"1"`
	}
	UpEmb struct {
		A int32 `thrift:"1"`
	}
	EmbLow struct {
		lowEmb
		B int32 `thrift:"2"`
	}
	EmbUpTag struct {
		UpEmb `thrift:"3,required"`
		B     int32 `thrift:"2"`
	}
	EmbUpNoTag struct {
		UpEmb
		B int32 `thrift:"2"`
	}
	EmbLowTag struct {
		lowEmb `thrift:"1"`
		B      int32 `thrift:"2"`
	}
	EmbLowDash struct {
		lowEmb `thrift:"-"`
		B      int32 `thrift:"2,required"`
	}
	EmbPtr struct {
		*UpEmb `thrift:"7"`
		B      int32 `thrift:"2"`
	}
	Hidden struct {
		a int32
		_ int32
	}
	HiddenTag struct {
		a int32 `thrift:"-"`
		_ int32
	}
	Blank struct {
		_ int32 `thrift:"1"`
		A int32 `thrift:"2"`
	}
)

var embTypes = []reflect.Type{typeOf[EmbLow](), typeOf[EmbUpTag](), typeOf[EmbUpNoTag](), typeOf[EmbLowTag](), typeOf[EmbLowDash](), typeOf[EmbPtr](),
	typeOf[Hidden](), typeOf[HiddenTag](), typeOf[Blank](), typeOf[struct{}]()}

// tagsEmbedded: the same for written types, whose fields are of any type.
func tagsEmbedded(x *X) {
	t := x.trace("Tags", nil)
	for _, ty := range embTypes {
		evs := []map[string]any{}
		for i := 0; i < ty.NumField(); i++ {
			sf := ty.Field(i)
			tag, has := sf.Tag.Lookup("thrift")
			evs = append(evs, map[string]any{"exp": b01(sf.IsExported()), "has": b01(has), "tag": tagChars(tag)})
		}
		ev := Ev{"c": "Struct", "fs": evs, "nest": 0}
		marshal := func(k string, v reflect.Value) {
			w := &textW{}
			var err error
			t.lib(func() { err = thrift.Marshal(w, v.Interface()) })
			ids, n := outerIDs(string(w.out))
			m := ends(err, n)
			m["ids"] = ids
			ev[k] = m
		}
		marshal("mz", reflect.New(ty))
		v := reflect.New(ty)
		for i := 0; i < ty.NumField(); i++ {
			f := v.Elem().Field(i)
			switch {
			case !f.CanSet():
			case f.Kind() == reflect.Int32:
				f.SetInt(5)
			case f.Kind() == reflect.Struct:
				f.Field(0).SetInt(6)
			case f.Kind() == reflect.Pointer:
				f.Set(reflect.New(f.Type().Elem()))
			}
		}
		marshal("mn", v)
		cr := &countReader{r: strings.NewReader("struct\nend struct\n")}
		var err error
		t.lib(func() { err = thrift.Unmarshal(text{}.NewReader(cr), reflect.New(ty).Interface()) })
		u := ends(err, cr.lines)
		u["in"] = [][2]int{}
		u["vals"] = make([]int, ty.NumField())
		ev["u"] = u
		t.add(ev)
	}
}

// outerIDs are the IDs of the outermost struct.
func outerIDs(out string) (ids []int, calls int) {
	ids = []int{}
	depth := 0
	for _, l := range strings.Split(out, "\n") {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		calls++
		switch {
		case f[0] == "struct":
			depth++
		case l == "end struct":
			depth--
		case f[0] == "field" && depth == 1:
			ids = append(ids, parse[int](f[2]))
		}
	}
	return ids, calls
}

// ------------------------------------------------------ types without end

type (
	PCyc  *PCyc
	PCyc1 *PCyc2
	PCyc2 *PCyc1
	PCyc3 **PCyc3
	PMap  map[string]PCyc
	PSlc  []*PSlc
	MSlc  map[string][]MSlc
	Node  struct {
		Next *Node `thrift:"1"`
	}
	Nodes struct {
		Kids []*Nodes `thrift:"1"`
	}
	SNode struct {
		S thrift.Set[*SNode] `thrift:"1"`
	}
	LNode struct {
		L thrift.List[LNode] `thrift:"1,required"`
	}
	MNode struct {
		M map[string]*MNode `thrift:"5"`
	}
	VNode struct {
		M map[string]VNode `thrift:"5"`
	}
	PNode struct {
		P ***PNode `thrift:"2"`
	}
	Foo struct {
		B *Bar `thrift:"1"`
	}
	Bar struct {
		F []Foo `thrift:"1"`
	}
	NInt    int
	NFunc   func()
	NChan   chan int32
	NArr    [3]int32
	NAny    interface{ M() }
	NMapInt map[int]string
)

// refusedTypes have no counterpart themselves.
var refusedTypes = []reflect.Type{
	typeOf[int](), typeOf[uint](), typeOf[uintptr](), typeOf[complex64](), typeOf[complex128](), typeOf[chan int32](), typeOf[func()](),
	typeOf[any](), typeOf[error](), typeOf[NAny](), typeOf[[3]int32](), typeOf[[0]bool](), typeOf[[16]int8](), typeOf[[15]byte](), typeOf[[17]byte](), typeOf[NUUID](),
	typeOf[NInt](), typeOf[NFunc](), typeOf[NChan](), typeOf[NArr](), typeOf[unsafe.Pointer](), typeOf[[16]NU8](),
	typeOf[PCyc](), typeOf[PCyc1](), typeOf[PCyc2](), typeOf[PCyc3](), typeOf[*PCyc](), typeOf[**int](), typeOf[*any](), typeOf[*[3]int32](), typeOf[*func()](),
}

// refusals: such types alone.
func refusals(x *X) {
	t := x.trace("Tags", nil)
	for _, ty := range refusedTypes {
		ev := Ev{"c": "Refused"}
		v := reflect.New(ty)
		// A pointer of a type that can be pointed to by itself.
		if ty.Kind() == reflect.Pointer && x.one(2) {
			v.Elem().Set(reflect.New(ty.Elem()).Convert(ty))
		}
		m := func() {
			w := &textW{}
			var err error
			t.lib(func() { err = thrift.Marshal(w, v.Interface()) })
			_, n := writtenIDs(string(w.out), false)
			ev["m"] = ends(err, n)
		}
		u := func() {
			cr := &countReader{r: strings.NewReader(strings.Repeat("i32 5\n", 10))}
			var err error
			t.lib(func() { err = thrift.Unmarshal(text{}.NewReader(cr), v.Interface()) })
			ev["u"] = ends(err, cr.lines)
		}
		if x.one(2) {
			m()
			u()
		} else {
			u()
			m()
		}
		t.add(ev)
	}
}

// holders: values of types that hold such types, without or with elements.
func holders(x *X) {
	t := x.trace("Tags", nil)
	for _, ty := range refusedTypes {
		var vs []reflect.Value
		none := reflect.Zero(ty)
		add := func(v reflect.Value) {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			vs = append(vs, p)
		}
		list := reflect.SliceOf(ty)
		add(reflect.Zero(list))
		add(reflect.MakeSlice(list, 0, 2))
		add(reflect.MakeSlice(list, 1, 1))
		add(reflect.MakeSlice(reflect.SliceOf(list), 1, 1))
		keys := []reflect.Type{typeOf[string](), typeOf[uint8]()}
		for _, k := range keys {
			m := reflect.MapOf(k, ty)
			add(reflect.Zero(m))
			add(reflect.MakeMap(m))
			one := reflect.MakeMap(m)
			one.SetMapIndex(reflect.Zero(k), none)
			add(one)
		}
		if ty.Comparable() {
			for _, e := range []reflect.Type{typeOf[struct{}](), typeOf[int32](), ty} {
				m := reflect.MapOf(ty, e)
				add(reflect.Zero(m))
				add(reflect.MakeMap(m))
				one := reflect.MakeMap(m)
				one.SetMapIndex(none, reflect.Zero(e))
				add(one)
			}
		}
		st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: typeOf[int32](), Tag: `thrift:"1"`}, {Name: "B", Type: ty, Tag: `thrift:"2"`}})
		add(reflect.Zero(st))
		for _, v := range vs {
			var err error
			t.lib(func() { err = thrift.Marshal(&textW{}, v.Interface()) })
			t.add(Ev{"c": "Holder", "e": code(err), "sem": sem(err)})
		}
	}
}

// refusedNil: what is no pointer to a value.
func refusedNil(x *X) {
	t := x.trace("Tags", nil)
	for _, v := range []any{nil, (*int32)(nil), (*Node)(nil), (*PCyc)(nil), (*any)(nil), (*[]string)(nil)} {
		ev := Ev{"c": "Refused"}
		w := &textW{}
		var err error
		t.lib(func() { err = thrift.Marshal(w, v) })
		_, n := writtenIDs(string(w.out), false)
		ev["m"] = ends(err, n)
		cr := &countReader{r: strings.NewReader("i32 5\n")}
		t.lib(func() { err = thrift.Unmarshal(text{}.NewReader(cr), v) })
		ev["u"] = ends(err, cr.lines)
		t.add(ev)
	}
	for _, v := range []any{int32(5), "x", Node{}, map[string]int32{}, []string{"x"}, [16]byte{}, func() {}, NInt(5)} {
		cr := &countReader{r: strings.NewReader("i32 5\n")}
		var err error
		t.lib(func() { err = thrift.Unmarshal(text{}.NewReader(cr), v) })
		t.add(Ev{"c": "Refused", "m": map[string]any{"e": 1, "sem": 1, "n": 0}, "u": ends(err, cr.lines)})
	}
}

// endlessR delivers a value without end: a chain of the kinds in turn.
type endlessR struct {
	textR
	kinds []thriftwire.Type
	id    int16
	n     int // containers opened
}

var errEnough = errors.New("read too deeply")

func (r *endlessR) kind(i int) thriftwire.Type { return r.kinds[i%len(r.kinds)] }
func (r *endlessR) open() (thriftwire.Type, error) {
	r.n++
	if r.n > 3000000 {
		return 0, errEnough
	}
	return r.kind(r.n), nil
}
func (r *endlessR) ReadStructBegin() (h thriftwire.StructHeader, err error) {
	_, err = r.open()
	return h, err
}
func (r *endlessR) ReadFieldBegin() (thriftwire.FieldHeader, error) {
	return thriftwire.FieldHeader{Type: r.kind(r.n), ID: r.id}, nil
}
func (r *endlessR) ReadListBegin() (thriftwire.ListHeader, error) {
	k, err := r.open()
	return thriftwire.ListHeader{Element: k, Size: 1}, err
}
func (r *endlessR) ReadSetBegin() (thriftwire.SetHeader, error) {
	k, err := r.open()
	return thriftwire.SetHeader{Element: k, Size: 1}, err
}
func (r *endlessR) ReadMapBegin() (thriftwire.MapHeader, error) {
	k, err := r.open()
	return thriftwire.MapHeader{Key: thriftwire.String, Value: k, Size: 1}, err
}
func (r *endlessR) ReadString() (string, error) { return "k", nil }

// endlessValues: values that contain themselves.
func endlessValues(x *X) {
	t := x.trace("Tags", nil)
	rs := RecSlice{nil}
	rs[0] = rs
	rm := RecMap{}
	rm["x"] = rm
	ps := PSlc{nil}
	ps[0] = &ps
	ms := MSlc{"a": {nil}}
	ms["a"][0] = ms
	nd := &Node{}
	nd.Next = &Node{&Node{nd}}
	ns := &Nodes{[]*Nodes{nil}}
	ns.Kids[0] = ns
	sn := &SNode{thrift.Set[*SNode]{nil}}
	sn.S[0] = sn
	ln := LNode{thrift.List[LNode]{{}}}
	ln.L[0] = ln
	mn := &MNode{map[string]*MNode{}}
	mn.M["y"] = mn
	vn := VNode{map[string]VNode{}}
	vn.M["z"] = vn
	pn := &PNode{}
	pp := &pn
	pn.P = &pp
	foo := &Foo{&Bar{make([]Foo, 1)}}
	foo.B.F[0] = *foo
	for _, v := range []any{rs, rm, ps, ms, nd, ns, sn, ln, mn, vn, pn, foo} {
		var err error
		w := &textW{}
		t.lib(func() { err = thrift.Marshal(w, v) })
		t.add(Ev{"c": "Cycle", "e": code(err), "sem": sem(err)})
	}
	S, L, M, E := thriftwire.Struct, thriftwire.List, thriftwire.Map, thriftwire.Set
	for _, u := range []struct {
		v     any
		id    int16
		kinds []thriftwire.Type
	}{{new(RecSlice), 0, []thriftwire.Type{L}}, {new(RecMap), 0, []thriftwire.Type{M}}, {new(PSlc), 0, []thriftwire.Type{L}},
		{new(MSlc), 0, []thriftwire.Type{M, L}}, {new(Node), 1, []thriftwire.Type{S}}, {new(Nodes), 1, []thriftwire.Type{S, L}},
		{new(SNode), 1, []thriftwire.Type{S, E}}, {new(LNode), 1, []thriftwire.Type{S, L}}, {new(MNode), 5, []thriftwire.Type{S, M}},
		{new(VNode), 5, []thriftwire.Type{S, M}}, {new(PNode), 2, []thriftwire.Type{S}}, {new(Foo), 1, []thriftwire.Type{S, S, L}}} {
		var err error
		r := &endlessR{kinds: u.kinds, id: u.id}
		t.lib(func() { err = thrift.Unmarshal(r, u.v) })
		e := code(err)
		if errors.Is(err, errEnough) {
			e = 0 // went on as long as there was something
		}
		t.add(Ev{"c": "Cycle", "e": e, "sem": sem(err)})
	}
}

// deepValues: nested as deeply as the library goes, there and back.
func deepValues(x *X) {
	t := x.trace("Tags", nil)
	for _, d := range []int{1, 2, 50, 127, 128, 1000, 4096, 9998, 9999, 10000} {
		rs := RecSlice{}
		rm := RecMap{}
		nd := &Node{}
		for i := 1; i < d; i++ {
			rs = RecSlice{rs}
			rm = RecMap{"k": rm}
			nd = &Node{nd}
		}
		mn := &MNode{}
		ns := &Nodes{}
		for i := 2; i < d; i += 2 {
			mn = &MNode{map[string]*MNode{"k": mn}}
			ns = &Nodes{[]*Nodes{ns}}
		}
		for _, v := range []any{&rs, &rm, nd, mn, ns} {
			w := &textW{}
			var err error
			t.lib(func() { err = thrift.Marshal(w, v) })
			e := code(err)
			if err == nil {
				dst := reflect.New(reflect.TypeOf(v).Elem())
				t.lib(func() { err = thrift.Unmarshal(text{}.NewReader(strings.NewReader(string(w.out))), dst.Interface()) })
				e = code(err)
				if err == nil {
					w2 := &textW{}
					t.lib(func() { err = thrift.Marshal(w2, dst.Interface()) })
					if err != nil || string(w2.out) != string(w.out) {
						e = 99
					}
				}
			}
			t.add(Ev{"c": "Deep", "depth": d, "e": e})
		}
	}
}

func init() {
	register("C18", Class{"gen", 16, 48, tagsGen}, Class{"random", 600, 6000, tagsRandom}, Class{"embedded", 1, 1, tagsEmbedded},
		Class{"refusals", 4, 20, refusals}, Class{"holders", 1, 1, holders}, Class{"nil", 1, 1, refusedNil}, Class{"endless", 1, 1, endlessValues}, Class{"deep", 1, 1, deepValues})
}
