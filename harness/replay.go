package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// genCall is a call of a behaviour generated from the specification.
type genCall struct {
	C  string
	V  json.RawMessage
	N  []int
	T  int
	ID json.RawMessage
	K  int
	S  []int
}

type genDoc struct {
	P     string
	Calls []genCall
	Bytes []int
}

var genCache = map[string][][]byte{}

func genLines(x *X, name string) [][]byte {
	if l, ok := genCache[name]; ok {
		return l
	}
	f, err := os.Open(filepath.Join(x.gen, name+".ndjson"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	var out [][]byte
	for sc.Scan() {
		out = append(out, append([]byte(nil), sc.Bytes()...))
	}
	if len(out) == 0 {
		fmt.Fprintln(os.Stderr, "no generated behaviours:", name)
		os.Exit(3)
	}
	genCache[name] = out
	return out
}

// genDocs picks n behaviours, all of them in turn over the scenarios.
func genDocs(x *X, name string, n int) []genDoc {
	lines := genLines(x, name)
	total := x.N * n
	var out []genDoc
	for k := 0; k < n; k++ {
		i := x.Idx*n + k
		if total < len(lines) {
			i = int(int64(i) * int64(len(lines)) / int64(total)) // spread
			i += x.Intn(len(lines)/total + 1)
		}
		var d genDoc
		if err := json.Unmarshal(lines[i%len(lines)], &d); err != nil {
			panic(err)
		}
		out = append(out, d)
	}
	return out
}

func ints(r json.RawMessage) []byte {
	var v []int
	if err := json.Unmarshal(r, &v); err != nil {
		panic(err)
	}
	return toBytes(v)
}

func toBytes(v []int) []byte {
	b := make([]byte, len(v))
	for i := range v {
		b[i] = byte(v[i])
	}
	return b
}

func num(r json.RawMessage) int {
	var v int
	if err := json.Unmarshal(r, &v); err != nil {
		panic(err)
	}
	return v
}

func word(b []byte) (v int64) {
	if len(b) > 0 && b[0] >= 128 {
		v = -1
	}
	for _, c := range b {
		v = v<<8 | int64(c)
	}
	return
}

// do makes the call on a writer.
func (c genCall) do(w *TW) error {
	switch c.C {
	case "WMsgBegin":
		return w.WriteMessageBegin(thriftwire.MessageHeader{Name: string(toBytes(c.N)), Type: thriftwire.MessageType(c.T), ID: int32(word(ints(c.ID)))})
	case "WMsgEnd":
		return w.WriteMessageEnd()
	case "WStructBegin":
		return w.WriteStructBegin(thriftwire.StructHeader{})
	case "WStructEnd":
		return w.WriteStructEnd()
	case "WFieldBegin":
		return w.WriteFieldBegin(thriftwire.FieldHeader{Type: thriftwire.Type(c.T), ID: int16(num(c.ID))})
	case "WFieldEnd":
		return w.WriteFieldEnd()
	case "WMapBegin":
		return w.WriteMapBegin(thriftwire.MapHeader{Key: thriftwire.Type(c.K), Value: thriftwire.Type(num(c.V)), Size: int(word(toBytes(c.S)))})
	case "WMapEnd":
		return w.WriteMapEnd()
	case "WSetBegin":
		return w.WriteSetBegin(thriftwire.SetHeader{Element: thriftwire.Type(c.T), Size: int(word(toBytes(c.S)))})
	case "WSetEnd":
		return w.WriteSetEnd()
	case "WListBegin":
		return w.WriteListBegin(thriftwire.ListHeader{Element: thriftwire.Type(c.T), Size: int(word(toBytes(c.S)))})
	case "WListEnd":
		return w.WriteListEnd()
	case "WBool":
		return w.WriteBool(num(c.V) != 0)
	case "WByte":
		return w.WriteByte(byte(num(c.V)))
	case "WI16":
		return w.WriteI16(int16(word(ints(c.V))))
	case "WI32":
		return w.WriteI32(int32(word(ints(c.V))))
	case "WI64":
		return w.WriteI64(word(ints(c.V)))
	case "WDouble":
		return w.WriteDouble(math.Float64frombits(uint64(word(ints(c.V)))))
	case "WUUID":
		u := [16]byte(ints(c.V))
		return w.WriteUUID(&u)
	case "WString":
		return w.WriteString(string(ints(c.V)))
	case "WBytes":
		return w.WriteBytes(ints(c.V))
	}
	panic(c.C)
}

// root is the type of the document's outermost value; 255 for a message.
func (d genDoc) root() byte {
	return map[string]byte{"WMsgBegin": 255, "WStructBegin": tStruct, "WMapBegin": tMap, "WSetBegin": tSet, "WListBegin": tList,
		"WBool": tBool, "WByte": tByte, "WI16": tI16, "WI32": tI32, "WI64": tI64, "WDouble": tDouble, "WUUID": tUUID,
		"WString": tString, "WBytes": tString}[d.Calls[0].C]
}

// replayWrite makes the calls of generated behaviours on real writers.
func replayWrite(name string) func(*X) {
	return func(x *X) {
		for _, d := range genDocs(x, name, 10) {
			t := x.wire(d.P)
			w := newTW(t, protocol(d.P), noFail())
			for _, c := range d.Calls {
				if c.do(w) != nil {
					break
				}
			}
			w.Flush()
			w.end()
		}
	}
}

// replayRead reads the bytes of generated behaviours with real readers.
func replayRead(name string, skips bool) func(*X) {
	return func(x *X) {
		for _, d := range genDocs(x, name, 10) {
			t := x.wire(d.P)
			r := newTR(x, t, protocol(d.P), x.plan(source(append(toBytes(d.Bytes), 1, 2, 3, 4, 5, 6, 7, 8))))
			k := &Walk{r: r, g: x.G, skips: skips, limit: 1000}
			var err error
			if skips && x.one(2) && d.root() != 255 {
				err = r.skip(thriftwire.Type(d.root()))
			} else {
				err = k.all([]byte{d.root()})
			}
			if err == nil {
				r.ReadDouble()
			}
			r.end()
		}
	}
}

func init() {
	for _, n := range []string{"ids", "vals", "nest"} {
		register("C01", Class{"replay-" + n, 40, 1500, replayWrite(n)})
		register("C02", Class{"replay-" + n, 60, 1000, replayWrite(n)})
		register("C03", Class{"replay-" + n, 40, 1500, replayRead(n, false)})
		register("C04", Class{"replay-" + n, 60, 1000, replayRead(n, false)})
		register("C06", Class{"replay-" + n, 50, 1500, replayRead(n, true)})
	}
	register("C05", Class{"replay-w", 60, 140, replayWrite("msgs")}, Class{"replay-r", 60, 140, replayRead("msgs", false)})
}
