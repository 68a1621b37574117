package main

import (
	"errors"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// What errors tell (the Err, Refusal and Invalid events of ArshTrace).

// tells describes err.
func (t *AT) tells(err error, ev Ev) Ev {
	ev["sem"], ev["gt"], ev["wt"], ev["says"], ev["go"], ev["und"], ev["ite"] = 0, 0, 0, []string{}, 1, 1, -1
	var ite thriftwire.InvalidTypeError
	if errors.As(err, &ite) {
		ev["ite"] = int(ite)
		if !strings.Contains(err.Error(), thriftwire.Type(ite).String()) {
			ev["ite"] = -2
		}
	}
	var s *thrift.SemanticError
	if !errors.As(err, &s) {
		return ev
	}
	ev["sem"] = 1
	ev["wt"] = int(s.ThriftType)
	text := s.Error()
	if s.Err != nil {
		root := s.Err
		for errors.Unwrap(root) != nil {
			root = errors.Unwrap(root)
		}
		ev["und"] = b01(strings.Contains(text, root.Error()) && errors.Is(s, root))
		// The text of an error may differ from one time to the next.
		text = strings.Replace(text, s.Err.Error(), " ", 1)
		text = strings.Replace(text, root.Error(), " ", 1)
	}
	if s.GoType != nil {
		ev["gt"] = -1
		if i, ok := t.tb.idx[s.GoType]; ok {
			ev["gt"] = i
		}
		i := strings.LastIndex(text, s.GoType.String())
		ev["go"] = b01(i >= 0)
		if i >= 0 {
			text = text[:i] + " " + text[i+len(s.GoType.String()):]
		}
	}
	ev["says"] = strings.Fields(strings.ToLower(strings.Map(func(r rune) rune {
		if r == ':' || r == ',' || r == '.' {
			return ' '
		}
		return r
	}, text)))
	return ev
}

// err records what the error of the current operation tells.
func (t *AT) err(err error) {
	if err != nil && fProp == "C28" {
		t.add(t.tells(err, Ev{"c": "Err"}))
	}
}

func (t *AT) refusal(act string, err error, ws []int, word string, tys ...reflect.Type) {
	gs := []int{}
	for _, ty := range tys {
		if ty == nil {
			gs = append(gs, 0)
		} else if i, ok := t.tb.idx[ty]; ok {
			gs = append(gs, i)
		} else {
			gs = append(gs, t.tb.of(ty))
		}
	}
	t.types()
	ev := Ev{"c": "Refusal", "act": act, "gs": gs, "ws": ws, "names": 1}
	if err == nil {
		err = errors.New("no error")
	}
	if word != "" {
		ev["names"] = b01(strings.Contains(err.Error(), word))
	}
	t.add(t.tells(err, ev))
}

// both gives the errors of Marshal and Unmarshal.
func (t *AT) both(v any) (m, u error) {
	t.lib(func() { m = thrift.Marshal(&CW{t: &Trace{}, limit: 200000}, v) })
	t.lib(func() { u = thrift.Unmarshal(text{}.NewReader(strings.NewReader("")), v) })
	return
}

// tellRefused: types without a counterpart, and what is no pointer.
func tellRefused(x *X) {
	t := x.arsh()
	ty := refusedTypes[x.Idx%len(refusedTypes)]
	m, u := t.both(reflect.New(ty).Interface())
	t.refusal("marshal", m, []int{0}, "", ty)
	t.refusal("unmarshal", u, []int{0}, "", ty)
	for _, v := range []any{(*int32)(nil), (*Node)(nil), (*PCyc)(nil), (*any)(nil), (*[]string)(nil), (**Node)(nil), (*map[string]Point)(nil)} {
		m, u := t.both(v)
		t.refusal("marshal", m, []int{0}, "", reflect.TypeOf(v), reflect.TypeOf(v).Elem())
		t.refusal("unmarshal", u, []int{0}, "", reflect.TypeOf(v), reflect.TypeOf(v).Elem())
	}
	for _, v := range []any{nil, int32(5), "x", Node{}, map[string]int32{}, []string{"x"}, [16]byte{}, func() {}, NInt(5), Point{}} {
		m, u := t.both(v)
		if v == nil {
			t.refusal("marshal", m, []int{0}, "", nil)
		}
		t.refusal("unmarshal", u, []int{0}, "", reflect.TypeOf(v))
	}
}

// badTags are struct types that are refused for a field, named.
var badTags = []struct {
	t     reflect.Type
	field string
}{
	{typeOf[struct {
		Alpha int32 `thrift:"x"`
	}](), "Alpha"},
	{typeOf[struct {
		A    int32 `thrift:"1"`
		Beta int32 `thrift:"99999"`
	}](), "Beta"},
	{typeOf[struct {
		Gamma int32 `thrift:"1 required"`
	}](), "Gamma"},
	{typeOf[struct {
		Delta int32 `thrift:"1,"`
	}](), "Delta"},
	{typeOf[struct {
		Eps int32 `thrift:"1,?"`
	}](), "Eps"},
	{typeOf[struct {
		Zeta int32 `thrift:"1,Required"`
	}](), "Zeta"},
	{typeOf[struct {
		Eta int32 `thrift:"1,required,required"`
	}](), "Eta"},
	{typeOf[struct {
		A     int32 `thrift:"1"`
		theta int32 `thrift:"2"`
	}](), "theta"},
	{typeOf[struct {
		Iota  int32 `thrift:"7"`
		Kappa int32 `thrift:"7"`
	}](), "Iota"},
	{typeOf[struct {
		Iota  int32 `thrift:"7"`
		B     int32 `thrift:"8"`
		Kappa int32 `thrift:"7"`
	}](), "Kappa"},
	{typeOf[struct {
		lambda int32
	}](), ""},
	{typeOf[struct {
		Mu string `thrift:"1,'required"`
	}](), "Mu"},
	{typeOf[struct {
		Nu string `thrift:""`
	}](), "Nu"},
}

// tellTags: structs refused for their tags, alone and within other types.
func tellTags(x *X) {
	b := badTags[x.Idx%len(badTags)]
	t := x.arsh()
	if t.tb.idx == nil {
		t.tb.idx = map[reflect.Type]int{}
	}
	t.tb.idx[b.t] = t.tb.opaque(b.t)
	ws := []int{0, tStruct}
	m, u := t.both(reflect.New(b.t).Interface())
	t.refusal("marshal", m, ws, b.field, b.t)
	t.refusal("unmarshal", u, ws, b.field, b.t)
	list := reflect.New(reflect.SliceOf(b.t))
	list.Elem().Set(reflect.MakeSlice(reflect.SliceOf(b.t), 1, 1))
	outer := reflect.StructOf([]reflect.StructField{{Name: "A", Type: b.t, Tag: `thrift:"1,required"`}})
	dict := reflect.New(reflect.MapOf(typeOf[string](), b.t))
	dict.Elem().Set(reflect.MakeMap(dict.Type().Elem()))
	dict.Elem().SetMapIndex(reflect.ValueOf("k"), reflect.Zero(b.t))
	for _, v := range []reflect.Value{list, dict, reflect.New(outer), reflect.New(reflect.PointerTo(b.t))} {
		var m error
		t.lib(func() { m = thrift.Marshal(&CW{t: &Trace{}, limit: 200000}, v.Interface()) })
		t.refusal("marshal", m, ws, b.field, b.t)
	}
	for in, ty := range map[string]reflect.Type{"list 12 1\n": reflect.SliceOf(b.t), "struct\nfield 12 1\n": outer, "map 11 12 1\nstring \"k\"\n": dict.Type().Elem(), "": reflect.PointerTo(b.t)} {
		var u error
		t.lib(func() {
			u = thrift.Unmarshal(text{}.NewReader(strings.NewReader(in+"struct\n")), reflect.New(ty).Interface())
		})
		t.refusal("unmarshal", u, ws, b.field, b.t)
	}
}

type (
	deepNode struct {
		Next *deepNode `thrift:"1"`
	}
	deepList []deepList
	deepMap  map[string]deepMap
	deepSet  struct {
		S thrift.Set[deepSet] `thrift:"1"`
	}
)

// tellDepth: values without end.
func tellDepth(x *X) {
	t := x.arsh()
	n := &deepNode{}
	n.Next = n
	l := make(deepList, 1)
	l[0] = l
	d := deepMap{}
	d["k"] = d
	s := deepSet{S: make(thrift.Set[deepSet], 1)}
	s.S[0] = s
	for _, v := range []any{n, &l, &d, &s} {
		ty := reflect.TypeOf(v).Elem()
		tys, ws, in := []reflect.Type{ty}, []int{}, ""
		switch v.(type) {
		case *deepNode:
			ws, in = []int{tStruct}, "struct\nfield 12 1\n"
		case *deepList:
			ws, in = []int{tList}, "list 15 1\n"
		case *deepMap:
			ws, in = []int{tMap}, "map 11 13 1\nstring \"k\"\n"
		case *deepSet:
			tys, ws, in = append(tys, typeOf[thrift.Set[deepSet]]()), []int{tStruct, tSet}, "struct\nfield 14 1\nset 12 1\n"
			s.S[0].S = s.S
		}
		var m, u error
		t.lib(func() { m = thrift.Marshal(&CW{t: &Trace{}, limit: 200000}, v) })
		t.refusal("marshal", m, ws, "depth", tys...)
		t.lib(func() {
			u = thrift.Unmarshal(text{}.NewReader(&endless{s: in}), reflect.New(ty).Interface())
		})
		t.refusal("unmarshal", u, ws, "depth", tys...)
	}
}

// endless repeats s.
type endless struct {
	s string
	n int
}

func (e *endless) Read(b []byte) (int, error) {
	if e.n > 100000000 {
		return 0, io.EOF
	}
	for i := range b {
		b[i] = e.s[e.n%len(e.s)]
		e.n++
	}
	return len(b), nil
}

// tellInvalid: headers with types that are none.
func tellInvalid(x *X) {
	t := x.arsh()
	say := func(err error, ws ...int) {
		if err == nil {
			err = errors.New("no error")
		}
		ev := t.tells(err, Ev{"c": "Invalid", "ws": ws})
		t.add(ev)
	}
	size := x.pick(1, 2, 14, 15, 300, math.MaxInt32)
	for _, b := range []int{1, 5, 7, 9, 17, 18, 100, 127, 128, 200, 255, 0} {
		bad, good := thriftwire.Type(b), thriftwire.Type(valueTypes[x.Intn(len(valueTypes))])
		bad2 := thriftwire.Type(x.pick(1, 5, 7, 9, 17, 200))
		w := protocol("compact").NewWriter(io.Discard)
		t.lib(func() {
			say(w.WriteMapBegin(thriftwire.MapHeader{Key: bad, Value: good, Size: size}), b)
			say(w.WriteMapBegin(thriftwire.MapHeader{Key: good, Value: bad, Size: size}), b)
			say(w.WriteMapBegin(thriftwire.MapHeader{Key: bad2, Value: bad, Size: size}), b, int(bad2))
			say(w.WriteSetBegin(thriftwire.SetHeader{Element: bad, Size: size}), b)
			say(w.WriteListBegin(thriftwire.ListHeader{Element: bad, Size: size}), b)
			w.WriteStructBegin(thriftwire.StructHeader{})
			say(w.WriteFieldBegin(thriftwire.FieldHeader{Type: bad, ID: x.id()}), b)
			_, err := thriftcompact.AppendFieldHeader(nil, thriftwire.FieldHeader{Type: bad, ID: x.id()}, false, x.id())
			say(err, b)
			_, err = thriftcompact.AppendMapHeader(nil, thriftwire.MapHeader{Key: bad, Value: good, Size: size})
			say(err, b)
			_, err = thriftcompact.AppendMapHeader(nil, thriftwire.MapHeader{Key: good, Value: bad, Size: size})
			say(err, b)
			_, err = thriftcompact.AppendSetHeader(nil, thriftwire.SetHeader{Element: bad, Size: size})
			say(err, b)
			_, err = thriftcompact.AppendListHeader(nil, thriftwire.ListHeader{Element: bad, Size: size})
			say(err, b)
			for _, p := range protos {
				say(thriftwire.Skip(protocol(p).NewReader(strings.NewReader("abc")), bad), b)
			}
		})
	}
}

// tellNames: what every code is called, and what the errors about it say.
func tellNames(x *X) {
	t := x.arsh()
	say := func(what string, code int, text, msg string) {
		nums := []int{}
		for _, f := range strings.FieldsFunc(text, func(r rune) bool { return r < '0' || r > '9' }) {
			if n, err := strconv.Atoi(f); err == nil {
				nums = append(nums, n)
			}
		}
		t.add(Ev{"c": "Named", "what": what, "code": code, "text": strings.ToLower(text), "nums": nums})
		t.add(Ev{"c": "Equal", "a": b01(strings.Contains(msg, text)), "b": 1})
	}
	for c := 0; c < 256; c++ {
		t.lib(func() {
			say("type", c, thriftwire.Type(c).String(), thriftwire.InvalidTypeError(c).Error())
			say("message", c, thriftwire.MessageType(c).String(), thriftwire.InvalidMessageTypeError(c).Error())
		})
	}
}

func init() {
	register("C28", Class{"names", 1, 1, tellNames},
		Class{"marshal", 160, 1000, faultMarshal}, Class{"unmarshal", 160, 1000, faultUnmarshal}, Class{"skip", 20, 200, skipCalls},
		Class{"types", 50, 150, unmarshalTypes}, Class{"wrong", 320, 3000, unmarshalWrong}, Class{"bad", 32, 64, marshalBad},
		Class{"refused", 40, 80, tellRefused}, Class{"tags", 26, 52, tellTags}, Class{"depth", 1, 4, tellDepth}, Class{"invalid", 8, 60, tellInvalid})
}
