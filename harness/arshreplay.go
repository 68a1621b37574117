package main

import (
	"bytes"
	"encoding/json"
	"reflect"
	"strconv"

	"github.com/itstarsun/go-thrift/thrift"
)

// genArsh is a type, a value of it to marshal, and a destination.
type genArsh struct {
	Ty []struct {
		K      string
		El, Ky int
		Fs     []struct {
			ID int
			Nm string
			T  int
			Rq int
		}
	}
	V, D genVal
}

type genVal struct {
	N int
	B []int
	C []genVal
}

// gotypes makes Go types out of a table of the specification.
func (d genArsh) gotypes() []reflect.Type {
	var out []reflect.Type
	for _, x := range d.Ty {
		at := func(i int) reflect.Type { return out[i-1] }
		switch x.K {
		case "bool":
			out = append(out, typeOf[bool]())
		case "i16":
			out = append(out, typeOf[int16]())
		case "string":
			out = append(out, typeOf[string]())
		case "bytes":
			out = append(out, typeOf[[]byte]())
		case "list":
			out = append(out, reflect.SliceOf(at(x.El)))
		case "set":
			out = append(out, setOf(at(x.El)))
		case "ptr":
			out = append(out, reflect.PointerTo(at(x.El)))
		case "map":
			out = append(out, reflect.MapOf(at(x.Ky), at(x.El)))
		case "struct":
			var fs []reflect.StructField
			for _, f := range x.Fs {
				tag := strconv.Itoa(f.ID)
				if f.Rq == 1 {
					tag += ",required"
				}
				fs = append(fs, reflect.StructField{Name: f.Nm, Type: at(f.T), Tag: reflect.StructTag(`thrift:"` + tag + `"`)})
			}
			out = append(out, reflect.StructOf(fs))
		default:
			panic(x.K)
		}
	}
	return out
}

// setOf is a set type with some element type; sets cannot be made by
// reflection, so that others become lists.
func setOf(t reflect.Type) reflect.Type {
	for _, s := range []reflect.Type{typeOf[thrift.Set[bool]](), typeOf[thrift.Set[string]](), typeOf[thrift.Set[int16]](), typeOf[thrift.Set[[]byte]](),
		typeOf[thrift.Set[[]bool]](), typeOf[thrift.Set[*bool]](), typeOf[thrift.Set[*string]](), typeOf[thrift.Set[[]string]](),
		typeOf[thrift.Set[map[bool]bool]](), typeOf[thrift.Set[map[bool]string]](), typeOf[thrift.Set[thrift.Set[bool]]](), typeOf[thrift.Set[thrift.Set[string]]]()} {
		if s.Elem() == t {
			return s
		}
	}
	return reflect.SliceOf(t)
}

func (g genVal) into(v reflect.Value) {
	if g.N == 1 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(g.B[0] != 0)
	case reflect.Int16:
		v.SetInt(word(toBytes(g.B)))
	case reflect.String:
		v.SetString(string(toBytes(g.B)))
	case reflect.Slice:
		if v.Type() == typeOf[[]byte]() {
			v.SetBytes(toBytes(g.B))
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), len(g.C), len(g.C)))
		for i, c := range g.C {
			c.into(v.Index(i))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < len(g.C); i += 2 {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			g.C[i].into(k)
			g.C[i+1].into(e)
			v.SetMapIndex(k, e)
		}
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		g.C[0].into(v.Elem())
	case reflect.Struct:
		for i, c := range g.C {
			c.into(v.Field(i))
		}
	}
}

// replayArsh marshals generated values and unmarshals the bytes into
// generated destinations.
func replayArsh(name string) func(*X) {
	return func(x *X) {
		lines := genLines(x, name)
		n := max(min(len(lines)/x.N+1, 60), 1)
		for k := 0; k < n; k++ {
			i := (x.Idx*n + k)
			if x.N*n < len(lines) {
				i = i*(len(lines)/(x.N*n)) + x.Intn(len(lines)/(x.N*n))
			}
			var d genArsh
			if err := json.Unmarshal(lines[i%len(lines)], &d); err != nil {
				panic(err)
			}
			tys := d.gotypes()
			ty := tys[len(tys)-1]
			in, dst := reflect.New(ty), reflect.New(ty)
			d.V.into(in.Elem())
			d.D.into(dst.Elem())
			t := x.arsh()
			p := protocol(protos[x.Intn(3)])
			var buf bytes.Buffer
			w := p.NewWriter(&buf)
			if t.marshal(&CW{w: w, limit: 5000}, in.Interface()) != nil || w.Flush() != nil {
				continue
			}
			raw := buf.Bytes()
			t.unmarshal(&CR{r: p.NewReader(x.plan(source(raw))), limit: 5000}, dst)
			out := reflect.New(ty)
			var err error
			t.lib(func() { err = thrift.Unmarshal(p.NewReader(bytes.NewReader(raw)), out.Interface()) })
			ti := t.tb.of(ty)
			t.add(Ev{"c": "Round", "e": code(err), "t": ti, "v": t.tb.render(ti, in.Elem(), nil, false), "out": t.tb.render(ti, out.Elem(), nil, false)})
		}
	}
}

func init() {
	for _, p := range []string{"C13", "C14", "C15", "C16"} {
		register(p, Class{"replay-flat", 60, 200, replayArsh("flat")}, Class{"replay-pairs", 60, 200, replayArsh("pairs")})
	}
}
