package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// ------------------------------------------------ values for a Go type

func wireOf(t reflect.Type) byte {
	switch t.Kind() {
	case reflect.Bool:
		return tBool
	case reflect.Int8, reflect.Uint8:
		return tByte
	case reflect.Int16, reflect.Uint16:
		return tI16
	case reflect.Int32, reflect.Uint32:
		return tI32
	case reflect.Int64, reflect.Uint64:
		return tI64
	case reflect.Float32, reflect.Float64:
		return tDouble
	case reflect.String:
		return tString
	case reflect.Array:
		if t == typeOf[[16]byte]() {
			return tUUID
		}
	case reflect.Struct:
		return tStruct
	case reflect.Map:
		return tMap
	case reflect.Slice:
		switch {
		case isSet(t):
			return tSet
		case !isList(t) && t.Elem() == typeOf[byte]():
			return tString
		}
		return tList
	case reflect.Pointer:
		if t != t.Elem() {
			return wireOf(t.Elem())
		}
	}
	return tStop
}

// Fit draws Thrift values that fit Go types, more or less.
type Fit struct {
	*G
	foreign int // one in so many fields is unknown, 0 never
	wrong   int // one in so many values has another type, 0 never
	keys    bool
}

func (f *Fit) val(t reflect.Type, depth int, key bool) *V {
	f.budget--
	if f.wrong > 0 && f.one(f.wrong) {
		f.G.budget = 6
		return f.G.val(f.typ(2), 2)
	}
	w := wireOf(t)
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	v := &V{T: w}
	switch w {
	case tStruct:
		n := t.NumField()
		for k := f.Intn(n + 2); k > 0 && f.budget > 0; k-- {
			if f.foreign > 0 && f.one(f.foreign) || n == 0 {
				v.Fs = append(v.Fs, F{f.foreignID(t), f.G.val(f.typ(2), 2)})
				continue
			}
			v.Fs = append(v.Fs, f.field(t, f.Intn(n), depth, key)...)
		}
		if f.one(2) { // all fields, in order
			for i := 0; i < n; i++ {
				v.Fs = append(v.Fs, f.field(t, i, depth, key)...)
			}
		}
		if key { // a field twice would not be a problem, but once is enough
			seen := map[int16]bool{}
			var fs []F
			for _, x := range v.Fs {
				if !seen[x.ID] {
					fs = append(fs, x)
				}
				seen[x.ID] = true
			}
			v.Fs = fs
		}
	case tMap:
		v.K, v.E = wireOf(t.Key()), wireOf(t.Elem())
		n := f.count(depth)
		for i := 0; i < n; i++ {
			k := f.val(t.Key(), depth-1, true)
			if len(v.Kids) > 0 && f.one(5) {
				k = v.Kids[0] // a key again
			}
			v.Kids = append(v.Kids, k, f.val(t.Elem(), depth-1, false))
		}
		f.fix(v)
	case tSet, tList:
		v.E = wireOf(t.Elem())
		n := f.count(depth)
		for i := 0; i < n; i++ {
			v.Kids = append(v.Kids, f.val(t.Elem(), depth-1, key))
		}
		f.fix(v)
	case tDouble:
		v.N = f.double()
		x := math.Float64frombits(v.N)
		if t.Kind() == reflect.Float32 && !key {
			v.N = f.nearFloat32()
			break
		}
		if t.Kind() == reflect.Float32 || key && (x != x || x == 0) {
			v.N = math.Float64bits(float64(float32(f.Intn(1000)+1) / 4))
		}
	default:
		if w == tStop {
			return f.G.val(tI32, 0)
		}
		v = f.G.val(w, 0)
		if key && w != tUUID && w != tString && f.one(2) {
			v.N &= 3
			if w == tBool {
				v.N &= 1
			}
		}
		if key && w == tString && f.one(2) {
			v.B = []byte{'k', byte('0' + f.Intn(3))}
		}
	}
	return v
}

// foreignID draws an ID that t may not have, but perhaps a similar one.
func (f *Fit) foreignID(t reflect.Type) int16 {
	if f.one(6) {
		return 0
	}
	if n := t.NumField(); n > 0 && f.one(2) {
		if id, err := strconv.Atoi(strings.Split(t.Field(f.Intn(n)).Tag.Get("thrift"), ",")[0]); err == nil {
			return f.relatedID(int16(id))
		}
	}
	return f.id()
}

// nearFloat32 draws doubles at and around float32 values, halfway between
// them, and at the ends of their range.
func (g *G) nearFloat32() uint64 {
	u := math.Float64bits(float64(math.Float32frombits(g.Uint32())))
	switch g.Intn(6) {
	case 0:
		return g.double()
	case 1: // halfway
		return u&^(1<<29-1) | 1<<28
	case 2:
		return u&^(1<<29-1) | 1<<28 + uint64(g.Intn(3)) - 1
	case 3: // subnormal, and the smallest
		return uint64(g.Intn(2))<<63 | uint64(1023-152+g.Intn(28))<<52 | g.Uint64()>>12&(uint64(1)<<g.Intn(52)-1)<<g.Intn(20)&(1<<52-1)
	case 4: // the largest
		return uint64(g.Intn(2))<<63 | uint64(1023+126+g.Intn(4))<<52 | (1<<52 - 1 - g.Uint64()>>(12+g.Intn(40)))
	}
	return u
}

// fix makes the elements of a container have its types, which may be other
// ones than intended.
func (f *Fit) fix(v *V) {
	if len(v.Kids) == 0 {
		switch f.Intn(6) {
		case 0:
			v.K, v.E = 0, 0
		case 1:
			v.N = 99
		}
		return
	}
	if v.T == tMap {
		v.K, v.E = v.Kids[0].T, v.Kids[1].T
		for i := 0; i+1 < len(v.Kids); i += 2 {
			if v.Kids[i].T != v.K || v.Kids[i+1].T != v.E {
				v.Kids = v.Kids[:i]
				return
			}
		}
		return
	}
	v.E = v.Kids[0].T
	for i := range v.Kids {
		if v.Kids[i].T != v.E {
			v.Kids = v.Kids[:i]
			return
		}
	}
}

func (f *Fit) count(depth int) int {
	if depth <= 0 || f.budget <= 0 {
		return 0
	}
	if f.one(20) {
		return f.pick(14, 15, 16, 17, 25)
	}
	return f.Intn(4)
}

func (f *Fit) field(t reflect.Type, i, depth int, key bool) []F {
	sf := t.Field(i)
	var id int
	if _, err := fmt.Sscanf(sf.Tag.Get("thrift"), "%d", &id); err != nil || !sf.IsExported() || wireOf(sf.Type) == tStop {
		return nil
	}
	if depth <= 0 && f.one(2) {
		return nil
	}
	return []F{{int16(id), f.val(sf.Type, depth-1, key)}}
}

// use puts dirt behind the ends of slices, and shares targets of pointers.
func (g *G) dirty(v reflect.Value, pool map[reflect.Type]reflect.Value, depth int) {
	if depth > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() || !v.CanSet() {
			return
		}
		n := v.Len()
		for i := 0; i < n; i++ {
			g.dirty(v.Index(i), pool, depth+1)
		}
		if k := v.Type().Elem().Kind(); n > 1 && (k == reflect.Slice || k == reflect.Map) && g.one(2) {
			v.Index(g.Intn(n)).Set(v.Index(g.Intn(n))) // elements with the same backing
		}
		if g.one(2) {
			extra := reflect.MakeSlice(v.Type(), g.Intn(5), 8)
			for i := 0; i < extra.Len(); i++ {
				g.budget = 10
				g.fill(extra.Index(i), 3, false)
			}
			v.Set(reflect.AppendSlice(v, extra).Slice(0, n))
		}
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if p, ok := pool[v.Type()]; ok && g.one(3) && v.CanSet() && v.Type().Elem().Kind() != reflect.Struct {
			v.Set(p)
			return
		}
		pool[v.Type()] = v
		g.dirty(v.Elem(), pool, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				g.dirty(v.Field(i), pool, depth+1)
			}
		}
	}
}

// ------------------------------------------------------------ scenarios

func marshalAny(x *X) {
	for k := 0; k < 4; k++ {
		t := x.arsh()
		ty := x.gotype(3)
		if x.one(3) {
			ty = zooStructs[x.Intn(len(zooStructs))]
		}
		x.marshalOne(t, ty)
	}
}

func (x *X) marshalOne(t *AT, ty reflect.Type) {
	p := x.govalue(ty)
	if x.one(2) {
		t.marshal(&CW{limit: 5000}, p.Interface())
	} else if ty.Kind() != reflect.Pointer {
		t.marshal(&CW{limit: 5000}, p.Elem().Interface())
	} else if !p.Elem().IsNil() {
		t.marshal(&CW{limit: 5000}, p.Elem().Interface())
	}
}

// marshalZoo: every static type, with a zero value, too.
func marshalZoo(x *X) {
	all := append(append([]reflect.Type{}, zooStructs...), zooOthers...)
	all = append(all, zooScalars...)
	ty := all[x.Idx%len(all)]
	t := x.arsh()
	t.marshal(&CW{limit: 5000}, reflect.New(ty).Interface())
	for i := 0; i < 4; i++ {
		t.marshal(&CW{limit: 5000}, x.govalue(ty).Interface())
	}
}

// marshalFlags: fields one by one away from zero, for every type of field.
func marshalFlags(x *X) {
	ty := typeOf[Zeros]()
	if x.Idx%3 == 1 {
		ty = typeOf[Req]()
	} else if x.Idx%3 == 2 {
		ty = typeOf[Plain]()
	}
	for i := 0; i < ty.NumField(); i++ {
		t := x.arsh()
		p := reflect.New(ty)
		x.budget = 10
		x.fill(p.Elem().Field(i), 3, true)
		f := p.Elem().Field(i)
		switch x.Intn(4) {
		case 0:
			switch f.Kind() {
			case reflect.Slice:
				f.Set(reflect.MakeSlice(f.Type(), 0, 1))
			case reflect.Map:
				f.Set(reflect.MakeMap(f.Type()))
			case reflect.Pointer:
				f.Set(reflect.New(f.Type().Elem()))
			}
		}
		t.marshal(&CW{limit: 5000}, p.Interface())
	}
}

// marshalBad: fields and elements without a Thrift counterpart.
func marshalBad(x *X) {
	t := x.arsh()
	b := zooBad[x.Idx%len(zooBad)]
	tys := []reflect.Type{b, reflect.SliceOf(b), reflect.MapOf(typeOf[string](), b),
		reflect.StructOf([]reflect.StructField{
			{Name: "A", Type: typeOf[int32](), Tag: `thrift:"1,required"`},
			{Name: "B", Type: b, Tag: `thrift:"2"`},
			{Name: "C", Type: typeOf[int32](), Tag: `thrift:"3,required"`}}),
		reflect.PointerTo(reflect.SliceOf(b)), reflect.SliceOf(reflect.SliceOf(b)), typeOf[Bad](), typeOf[BadDeep]()}
	if b.Comparable() && b.Kind() != reflect.Interface {
		tys = append(tys, reflect.MapOf(b, typeOf[string]()))
	}
	for _, ty := range tys {
		t.marshal(&CW{limit: 5000}, reflect.New(ty).Interface())
		x.tryUnmarshal(t, ty, 0, 0)
	}
	if b.Kind() == reflect.Chan || b.Kind() == reflect.Slice {
		return
	}
	one := reflect.MakeSlice(reflect.SliceOf(b), 1, 1)
	t.marshal(&CW{limit: 5000}, one.Interface())
}

func (x *X) tryUnmarshal(t *AT, ty reflect.Type, foreign, wrong int) {
	x.budget = 40
	f := &Fit{G: x.G, foreign: foreign, wrong: wrong}
	v := f.val(ty, 5, false)
	if wireOf(ty) == tStop {
		v = x.value()
	}
	t.unmarshal(&CR{r: play(v), limit: 5000}, reflect.New(ty))
}

// unmarshalFit: streams written for the type, with foreign fields.
func unmarshalFit(x *X) {
	for k := 0; k < 3; k++ {
		t := x.arsh()
		ty := x.gotype(3)
		if x.one(2) {
			ty = zooStructs[x.Intn(len(zooStructs))]
		}
		x.tryUnmarshal(t, ty, 4, 0)
	}
}

// unmarshalWrong: a value of another type somewhere.
func unmarshalWrong(x *X) {
	for k := 0; k < 4; k++ {
		t := x.arsh()
		ty := x.gotype(3)
		if x.one(2) {
			ty = zooStructs[x.Intn(len(zooStructs))]
		}
		x.tryUnmarshal(t, ty, 5, x.pick(3, 8, 20))
	}
}

// unmarshalTypes: every Go type against every Thrift type, directly, as
// field, as element, as key, as value.
func unmarshalTypes(x *X) {
	all := append(append(append([]reflect.Type{}, zooScalars...), typeOf[Point](), typeOf[map[string]bool](), typeOf[[]int32](), typeOf[thrift.Set[string]](), typeOf[*int16](),
		typeOf[thrift.Set[bool]](), typeOf[thrift.Set[byte]](), typeOf[thrift.Set[int64]](), typeOf[thrift.Set[[16]byte]](), typeOf[thrift.Set[*Point]](), typeOf[thrift.Set[[]byte]](),
		typeOf[[]bool](), typeOf[[]string](), typeOf[[]Point](), typeOf[[][]byte](), typeOf[map[Point]bool](), typeOf[map[int8][]string](), typeOf[*[]int8](), typeOf[**Point]()), zooBad...)
	g := all[x.Idx%len(all)]
	t := x.arsh()
	st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: g, Tag: `thrift:"1"`}, {Name: "B", Type: typeOf[int32](), Tag: `thrift:"2"`}})
	for _, w := range valueTypes {
		x.budget = 5
		e := x.G.val(w, 1)
		if w == tDouble {
			e.N = math.Float64bits(2.5)
		}
		do := func(ty reflect.Type, v *V) { t.unmarshal(&CR{r: play(v), limit: 5000}, reflect.New(ty)) }
		do(g, e)
		do(st, &V{T: tStruct, Fs: []F{{1, e}, {2, &V{T: tI32, N: 4}}}})
		do(reflect.SliceOf(g), &V{T: tList, E: w, Kids: []*V{e}})
		do(reflect.SliceOf(g), &V{T: tSet, E: w, Kids: []*V{e}})
		do(reflect.MapOf(typeOf[int8](), g), &V{T: tMap, K: tByte, E: w, Kids: []*V{{T: tByte, N: 1}, e}})
		if g.Comparable() && g.Kind() != reflect.Interface && g.Kind() != reflect.Pointer {
			do(reflect.MapOf(g, typeOf[int8]()), &V{T: tMap, K: w, E: tByte, Kids: []*V{e, {T: tByte, N: 1}}})
		}
		for _, o := range []byte{tSet, tList} { // of each type of elements, and of none
			do(g, &V{T: o, E: w, Kids: []*V{e}})
			do(g, &V{T: o, E: w})
		}
	}
}

// unmarshalVersions: what one type wrote, read into another one with other
// fields, over each protocol.
func unmarshalVersions(x *X) {
	for k := 0; k < 3; k++ {
		t := x.arsh()
		a, b := zooStructs[x.Intn(len(zooStructs))], zooStructs[x.Intn(len(zooStructs))]
		if x.one(2) {
			a = x.structOf(3)
		}
		if x.one(2) {
			b = reshape(x.G, a)
		}
		p := protos[x.Intn(3)]
		var buf bytes.Buffer
		w := protocol(p).NewWriter(&buf)
		if t.marshal(&CW{w: w}, x.govalue(a).Interface()) != nil || w.Flush() != nil {
			continue
		}
		r := protocol(p).NewReader(&buf)
		t.unmarshal(&CR{r: r, limit: 5000}, reflect.New(b))
	}
}

// reshape drops, adds and reorders fields of a struct type.
func reshape(g *G, t reflect.Type) reflect.Type {
	var fs []reflect.StructField
	used := map[string]bool{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() || f.Anonymous || g.one(3) {
			continue
		}
		used[f.Tag.Get("thrift")] = true
		f.Index, f.Offset = nil, 0
		fs = append(fs, f)
	}
	g.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	if !used["77"] {
		fs = append(fs, reflect.StructField{Name: "New", Type: typeOf[string](), Tag: `thrift:"77"`})
	}
	return reflect.StructOf(fs)
}

// unmarshalUsed: several streams into one destination that holds data.
func unmarshalUsed(x *X) {
	for k := 0; k < 2; k++ {
		t := x.arsh()
		ty := x.gotype(3)
		if x.one(2) {
			ty = zooStructs[x.Intn(len(zooStructs))]
		}
		if wireOf(ty) == tStop {
			continue
		}
		dst := x.govalue(ty)
		x.dirty(dst.Elem(), map[reflect.Type]reflect.Value{}, 0)
		for i := x.Intn(3) + 1; i > 0; i-- {
			x.budget = 30
			f := &Fit{G: x.G, foreign: 12}
			v := f.val(ty, 5, false)
			if t.unmarshal(&CR{r: play(v), limit: 5000}, dst) != nil {
				break
			}
		}
	}
}

// nestType draws containers in containers.
func (g *G) nestType(depth int) reflect.Type {
	var e reflect.Type
	switch n := g.Intn(6); {
	case depth > 1 && n < 3:
		e = g.nestType(depth - 1)
	case n < 5:
		e = zooScalars[g.Intn(len(zooScalars))]
	default:
		e = zooStructs[g.Intn(len(zooStructs))]
	}
	if g.one(3) {
		e = reflect.PointerTo(e)
	}
	switch g.Intn(5) {
	case 0, 1, 2:
		return reflect.SliceOf(e)
	case 3:
		return reflect.MapOf(g.keytype(1), e)
	}
	return reflect.StructOf([]reflect.StructField{{Name: "A", Type: e, Tag: `thrift:"1"`}, {Name: "B", Type: reflect.SliceOf(e), Tag: `thrift:"2"`}})
}

// usedShapes: containers in containers, refilled with fewer, more and other
// elements.
func usedShapes(x *X) {
	tys := []reflect.Type{typeOf[[]Point](), typeOf[[]*Point](), typeOf[map[string]Point](), typeOf[map[string]*Point](), typeOf[map[string][]int32](),
		typeOf[[][]int32](), typeOf[[]map[string]int32](), typeOf[[][]byte](), typeOf[[]byte](), typeOf[map[int8][]byte](), typeOf[thrift.Set[[]byte]](),
		typeOf[Tree](), typeOf[Ptrs](), typeOf[Maps](), typeOf[[]Ptrs](), typeOf[map[bool]Ptrs](), typeOf[*[]*[]int32](), typeOf[map[Point]*Tree](), typeOf[[]string](),
		typeOf[map[int8]map[int8]Point](), typeOf[[]Sets](), typeOf[Sets](), typeOf[[][16]byte](), typeOf[map[string]map[string][]*Point]()}
	ty := tys[x.Idx%len(tys)]
	if x.one(2) {
		ty = x.nestType(3)
	}
	t := x.arsh()
	dst := x.govalue(ty)
	x.dirty(dst.Elem(), map[reflect.Type]reflect.Value{}, 0)
	for i := 0; i < 5; i++ {
		x.budget = 30
		f := &Fit{G: x.G}
		if t.unmarshal(&CR{r: play(f.val(ty, 5, false)), limit: 5000}, dst) != nil {
			break
		}
	}
}

// bigMaps: maps of many entries into maps and lists of maps of many.
func bigMaps(x *X) {
	ks := []reflect.Type{typeOf[int8](), typeOf[int16](), typeOf[uint64](), typeOf[string](), typeOf[[16]byte]()}
	ty := reflect.MapOf(ks[x.Intn(len(ks))], zooScalars[x.Intn(len(zooScalars))])
	t := x.arsh()
	dst := reflect.New(ty)
	f := &Fit{G: x.G}
	n := x.pick(0, 1, 7, 9, 16, 17, 33, 60)
	for i := 0; i < 3; i++ {
		v := &V{T: tMap, K: wireOf(ty.Key()), E: wireOf(ty.Elem())}
		for k := 0; k < n; k++ {
			x.budget = 30
			key, val := f.val(ty.Key(), 1, true), f.val(ty.Elem(), 1, false)
			if len(v.Kids) > 0 && x.one(8) {
				key = v.Kids[x.Intn(len(v.Kids)/2)*2]
			}
			v.Kids = append(v.Kids, key, val)
		}
		if t.unmarshal(&CR{r: play(v), limit: 5000}, dst) != nil {
			break
		}
		n = x.pick(0, 1, n-1, n, n+1, 2*n+1, 40)
		if n < 0 {
			n = 0
		}
	}
}

// roundTrip: two values one after another over a protocol.
func roundTrip(x *X) {
	p := protos[x.Idx%3]
	pr := protocol(p)
	if p == "nonstrict" && x.one(2) {
		pr = thriftwire.JoinProtocol(protocol("binary"), protocol("nonstrict"))
	}
	x.big = x.pick(0, 0, 30)
	for k := 0; k < 2; k++ {
		t := x.arsh()
		var buf bytes.Buffer
		w := pr.NewWriter(&buf)
		var ins []reflect.Value
		for i := x.Intn(3) + 1; i > 0; i-- {
			ty := x.gotype(4)
			if x.one(3) {
				ty = zooStructs[x.Intn(len(zooStructs))]
			}
			in := x.govalue(ty)
			if t.marshal(&CW{w: w}, in.Interface()) != nil {
				return
			}
			ins = append(ins, in)
		}
		if err := w.Flush(); err != nil {
			t.add(Ev{"c": "Equal", "a": code(err), "b": 0})
			return
		}
		s := x.plan(source(buf.Bytes()))
		var r thriftwire.Reader
		t.lib(func() { r = pr.NewReader(s) })
		var outs []reflect.Value
		for _, in := range ins {
			out := reflect.New(in.Type().Elem())
			err := t.unmarshal(&CR{r: r}, out)
			ti := t.tb.of(in.Type().Elem())
			t.add(Ev{"c": "Round", "e": code(err), "t": ti, "v": t.tb.render(ti, in.Elem(), nil, false), "out": t.tb.render(ti, out.Elem(), nil, false)})
			if err != nil {
				return
			}
			outs = append(outs, out)
		}
		// What was read stays, whatever is read later.
		for k, out := range outs[:len(outs)-1] {
			ti := t.tb.of(out.Type().Elem())
			t.add(Ev{"c": "Round", "e": 0, "t": ti, "v": t.tb.render(ti, ins[k].Elem(), nil, false), "out": t.tb.render(ti, out.Elem(), nil, false)})
		}
		_, err := r.ReadByte()
		t.add(Ev{"c": "Equal", "a": code(err), "b": eEOF})
	}
}

// roundOnly: larger values, the round trip alone.
func roundOnly(x *X) {
	pr := protocol(protos[x.Idx%3])
	t := x.arsh()
	for k := 0; k < 6; k++ {
		ty := x.gotype(4)
		if x.one(2) {
			ty = zooStructs[x.Intn(len(zooStructs))]
		}
		x.big = x.pick(0, 0, 100)
		in := x.govalue(ty)
		out := reflect.New(ty)
		var buf bytes.Buffer
		var err error
		t.lib(func() {
			w := pr.NewWriter(&buf)
			if err = thrift.Marshal(w, in.Interface()); err == nil {
				if err = w.Flush(); err == nil {
					err = thrift.Unmarshal(pr.NewReader(x.plan(source(buf.Bytes()))), out.Interface())
				}
			}
		})
		ti := t.tb.of(ty)
		t.types()
		t.add(Ev{"c": "Round", "e": code(err), "t": ti, "v": t.tb.render(ti, in.Elem(), nil, false), "out": t.tb.render(ti, out.Elem(), nil, false)})
	}
}

var faultErrs = []error{errFault, io.EOF, io.ErrUnexpectedEOF, errFlush, fmt.Errorf("wrapped: %w", errFault), &thrift.SemanticError{Err: errFault}}

func (x *X) faultType() reflect.Type {
	switch x.Intn(3) {
	case 0:
		return zooStructs[x.Intn(len(zooStructs))]
	case 1:
		return []reflect.Type{typeOf[map[string][]Point](), typeOf[[]map[int8]*Point](), typeOf[thrift.Set[thrift.Set[int16]]](), typeOf[map[Point]map[string]bool](), typeOf[[][]thrift.Set[string]](), typeOf[*Tree](), typeOf[[16]byte](), typeOf[[][]byte]()}[x.Intn(8)]
	}
	return x.gotype(3)
}

// faultMarshal: every single call fails.
func faultMarshal(x *X) {
	t := x.arsh()
	in := x.govalue(x.faultType())
	ev0 := len(t.Ev)
	c := &CW{limit: 5000}
	t.marshal(c, in.Interface())
	calls := min(c.n, 60)
	if calls == 60 {
		t.Ev = t.Ev[:ev0]
	}
	for n := 1; n <= calls; n++ {
		at := n
		if calls == 60 {
			at = x.Intn(c.n) + 1
			if n > 20 {
				break
			}
		}
		t.marshal(&CW{failAt: at, err: faultErrs[x.Intn(len(faultErrs))], limit: 5000}, in.Interface())
	}
}

func faultUnmarshal(x *X) {
	t := x.arsh()
	ty := x.faultType()
	x.budget = 20
	f := &Fit{G: x.G, foreign: 3}
	v := f.val(ty, 4, false)
	c := &CR{r: play(v), limit: 5000}
	t.unmarshal(c, reflect.New(ty))
	calls := c.n
	for n := 1; n <= min(calls, 50); n++ {
		at := n
		if calls > 50 {
			at = x.Intn(calls) + 1
			if n > 20 {
				break
			}
		}
		t.unmarshal(&CR{r: play(v), failAt: at, err: faultErrs[x.Intn(len(faultErrs))], limit: 5000}, reflect.New(ty))
	}
}

// skipCalls: the calls Skip makes, each of them failing once.
func skipCalls(x *X) {
	t := x.arsh()
	x.budget = 25
	v := x.G.val(valueTypes[x.Idx%len(valueTypes)], 4)
	if x.one(3) {
		v = x.value()
	}
	c := &CR{r: play(v), limit: 5000}
	t.skip(c, v.T)
	for n := 1; n <= min(c.n, 40); n++ {
		t.skip(&CR{r: play(v), failAt: n, err: faultErrs[x.Intn(len(faultErrs))], limit: 5000}, v.T)
	}
	for _, o := range []byte{tMap, tSet, tList} { // also announced with a negative size
		o := &V{T: o, K: tI32, E: x.typ(1), N: uint64(x.pick(0, 99))}
		t.skip(&CR{r: play(o), limit: 5000}, o.T)
		t.skip(&CR{r: play(&V{T: tList, E: o.T, Kids: []*V{o, o}}), limit: 5000}, tList)
	}
	bad := byte(x.pick(0, 1, 5, 7, 9, 17, 100, 255))
	t.skip(&CR{r: play(v), limit: 5000}, bad)
	t.skip(&CR{r: play(&V{T: tStruct, Fs: []F{{1, &V{T: tI32}}, {2, &V{T: bad}}}}), limit: 5000}, tStruct)
	t.skip(&CR{r: play(&V{T: tList, E: bad, Kids: []*V{{T: tBool}, {T: tBool}}}), limit: 5000}, tList)
	t.skip(&CR{r: play(&V{T: tSet, E: bad, Kids: []*V{{T: tBool}, {T: tBool}}}), limit: 5000}, tSet)
	t.skip(&CR{r: play(&V{T: tMap, K: tBool, E: bad, Kids: []*V{{T: tBool}, {T: tBool}}}), limit: 5000}, tMap)
	t.skip(&CR{r: play(&V{T: tMap, K: bad, E: tBool, Kids: []*V{{T: tBool}, {T: tBool}}}), limit: 5000}, tMap)
}

func init() {
	register("C06", Class{"calls", 120, 600, skipCalls})
	register("C13",
		Class{"any", 600, 6000, marshalAny}, Class{"zoo", 160, 800, marshalZoo},
		Class{"flags", 30, 300, marshalFlags}, Class{"bad", 32, 64, marshalBad})
	register("C14",
		Class{"fit", 500, 5000, unmarshalFit}, Class{"wrong", 400, 4000, unmarshalWrong},
		Class{"types", 50, 150, unmarshalTypes}, Class{"versions", 300, 3000, unmarshalVersions}, Class{"bad", 16, 64, marshalBad})
	register("C15",
		Class{"used", 800, 6000, unmarshalUsed}, Class{"shapes", 720, 3600, usedShapes},
		Class{"bigmaps", 60, 600, bigMaps})
	register("C16",
		Class{"calls", 400, 4000, roundTrip}, Class{"only", 480, 4800, roundOnly})
	register("C17",
		Class{"marshal", 120, 1000, faultMarshal}, Class{"unmarshal", 120, 1000, faultUnmarshal}, Class{"skip", 30, 300, skipCalls})
}
