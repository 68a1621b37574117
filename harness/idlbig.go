package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	gotoken "go/token"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

// Documents too large to be put into a trace, compared with the small ones
// they are made of: an event tells how that came out.

// pieceKind is what a document can have many of.
type pieceKind struct{ before, piece, after string }

var pieceKinds = []pieceKind{
	{"", "include 'f%d.thrift'\n", ""},
	{"", "namespace a%d b%[1]d (x = 'y')\n", "const i32 last = 1"},
	{"include 'x'\n", "const i32 c%d = %[1]d;\n", ""},
	{"", "typedef map<string, t%d> u%[1]d ", "struct Z { }"},
	{"const i32 first = 0 ", "struct S%d { %[1]d: i32 a = %[1]d, 2: S%[1]d b } (n = '%[1]d')", ""},
	{"", "service S%d extends T%[1]d { void f(1: i32 a%[1]d) throws (1: E%[1]d e) }\n", ""},
	{"enum E { ", "V%d = %[1]d, ", "} (a = 'b')"},
	{"enum E { FIRST ", "V%d\n", "} const i32 x = 1"},
	{"struct S { ", "%d: optional list<i%[1]d> f%[1]d = %[1]d (a%[1]d = 'b%[1]d'),\n", "}"},
	{"union S { ", "t%d f%[1]d; ", "1: i32 z }"},
	{"service S { i32 a() ", "list<m%d> m%[1]d(1: i32 x) ", "oneway void z() }"},
	{"service S { i32 a(", "%d: a%[1]d b%[1]d, ", ") throws (1: E e) }"},
	{"service S { void a() throws (", "%d: e%[1]d x%[1]d ", ") (a = 'b') }"},
	{"const list<i32> x = [", "%d, ", "]"},
	{"const list<string> x = ['a' ", "'%d' ", "] typedef i32 y"},
	{"const list<x> x = [[", "v%d.w ", "], {1: 2}]"},
	{"const map<i32, string> x = {", "%d: 'v%[1]d', ", "}"},
	{"struct S { 1: i32 a = {", "k%d: [%[1]d] ", "} }"},
	{"typedef i32 x (", "a%d = 'b%[1]d', ", ")"},
	{"struct S { } (first ", "a%d ", ") struct T { }"},
}

func (k pieceKind) doc(i ...int) []byte {
	var b bytes.Buffer
	b.WriteString(k.before)
	for _, i := range i {
		fmt.Fprintf(&b, k.piece, i)
	}
	b.WriteString(k.after)
	return b.Bytes()
}

func itemsOf(src []byte) ([]Item, error) {
	f, err := thriftfile.Parse(gotoken.NewFileSet(), "a", src)
	w := &tree{off: func(gotoken.Pos) int { return 0 }}
	if f != nil {
		w.file(f)
	}
	return w.items, err
}

func (x *X) idlTrace() *Trace {
	return x.trace("Idl", map[string]any{"b": B{}, "let": []int{}, "dig": []int{}})
}

// idlPieces: the tree of a document with many pieces of a kind has the
// subtrees of all of them, in order.
func idlPieces(x *X) {
	k := pieceKinds[x.Idx%len(pieceKinds)]
	n := x.pick(100, 127, 256, 257, 300, 511, 1000, 1024, 2049, 4097, 5000) + x.Intn(3)
	t := x.idlTrace()
	from := x.pick(0, 1, 1000)
	what := ""
	t.lib(func() {
		none, err := itemsOf(k.doc())
		if err != nil {
			what = "without: " + err.Error()
			return
		}
		at, size := -1, 0
		var mid []Item
		var is []int
		for i := from; i < from+n; i++ {
			one, err := itemsOf(k.doc(i))
			if err != nil {
				what = "alone: " + err.Error()
				return
			}
			if at < 0 {
				for at = 0; at < len(none) && reflect.DeepEqual(none[at], one[at]); at++ {
				}
				size = len(one) - len(none)
			}
			if len(one) != len(none)+size || size < 1 {
				what = "size"
				return
			}
			mid = append(mid, one[at:at+size]...)
			is = append(is, i)
		}
		want := append(append(append([]Item{}, none[:at]...), mid...), none[at:]...)
		got, err := itemsOf(k.doc(is...))
		if err != nil {
			what = "together: " + err.Error()
		} else if !reflect.DeepEqual(got, want) {
			what = "another tree"
		}
	})
	t.add(Ev{"c": "Many", "kind": fmt.Sprint(k), "n": n, "what": what, "ok": b01(what == "")})
}

// idlShifted: what stands before a document only moves its errors.
func idlShifted(x *X) {
	r := &Grammar{G: x.G}
	for j := 1 + x.Intn(2); j > 0; j-- {
		r.broken()
		if x.one(2) {
			r.def()
		}
	}
	src := x.render(r.w, x.layout())
	if x.one(2) {
		src = x.malform(src)
	}
	if bytes.HasPrefix(src, []byte{0xef}) {
		src = append([]byte{' '}, src...)
	}
	// What a string that ends badly is taken for depends on what came before.
	src = bytes.Map(func(r rune) rune {
		if r == '"' || r == '\'' {
			return 'q'
		}
		return r
	}, src)
	n := x.pick(1, 255, 256, 999, 1000, 4095, 5000, 40000, 65534, 65535, 65536, 70000, 200000)
	pre, lines := "", 0
	switch x.Idx % 8 {
	case 0:
		pre = strings.Repeat(" ", n)
	case 1:
		pre, lines = strings.Repeat("\n", n), n
	case 2:
		pre, lines = strings.Repeat("# x\n", n), n
	case 3:
		pre, lines = strings.Repeat("\r\n", n), n
	case 4:
		pre = "/*" + strings.Repeat("*", n) + "*/ "
	case 5:
		pre, lines = "/*"+strings.Repeat("é\n", n)+"*/\n", n+1
	case 6:
		pre, lines = strings.Repeat("// include\n", n), n
	case 7:
		pre, lines = strings.Repeat(" \t\n", n), n
	}
	t := x.idlTrace()
	parse := func(src []byte) (errs [][2]int, n int) {
		t.lib(func() {
			_, err := thriftfile.Parse(gotoken.NewFileSet(), "a.thrift", src)
			errs, n = errorsOf("a.thrift", err)
		})
		return
	}
	col := len(pre) - 1 - strings.LastIndexByte(pre, '\n')
	want, nw := parse(src)
	got, ng := parse(append([]byte(pre), src...))
	for i := range want {
		if want[i][0] == 1 {
			want[i][1] += col
		}
		want[i][0] += lines
	}
	ok := nw == ng && reflect.DeepEqual(got, want)
	ev := Ev{"c": "Many", "n": n, "lines": lines, "ok": b01(ok)}
	if !ok {
		ev["src"], ev["got"], ev["want"] = string(src), got, want
	}
	t.add(ev)
}

// Long runs of what a parser passes over, which it must not do by nesting
// calls: the document around them is as it would be without.
var idlRunKinds = []struct {
	before, unit, after string
	errs                int // 1: it is not valid
}{
	{"const i32 x = 1", ",", " struct S { }", 0},
	{"const i32 x = [1", ";", "]", 0},
	{"enum E { A", ",", "}", 0},
	{"struct S { 1: i32 a", ";", "}", 0},
	{"service S { void f(1: i32 a", ",", ") }", 0},
	{"typedef i32 x (a = 'b'", ",", ")", 0},
	{"typedef i32 x", "#\n", "", 0},
	{"", "//\n", "typedef i32 x", 0},
	{"struct S {", "/**/", "}", 0},
	{"", " ", "typedef i32 x", 0},
	{"struct S {", "\n", "}", 0},
	{"typedef i32 x", "\r\n", "", 0},
	{"typedef i32 ", "a", "", 0},
	{"typedef i32 ", "é.", "", 0},
	{"const i32 x = ", "7", "", 0},
	{"const i32 x = 1.", "0", "e1", 0},
	{"const string x = '", "\\\\", "'", 0},
	{"const string x = '", "é", "'", 0},
	{"/*", "*", "*/ typedef i32 x", 0},
	{"#", "x", "\ntypedef i32 x", 0},
	{"typedef i32 x", ",", "] typedef i32 y", 1},
	{"typedef ]", "]", "typedef i32 y", 1},
	{"struct S { 1: = ", "{", " struct S { }", 1},
	{"const i32 x = = ", "#\n", " typedef i32 y", 1},
}

func idlRuns(x *X) {
	k := idlRunKinds[x.Idx%len(idlRunKinds)]
	n := 32_000_000
	doc := func(n int) []byte {
		b := make([]byte, 0, len(k.before)+n*len(k.unit)+len(k.after))
		b = append(b, k.before...)
		for i := 0; i < n; i++ {
			b = append(b, k.unit...)
		}
		return append(b, k.after...)
	}
	t := x.idlTrace()
	count := func(n int) (defs, errs int) {
		src := doc(n)
		t.lib(func() {
			f, err := thriftfile.Parse(gotoken.NewFileSet(), "a.thrift", src)
			_, errs = errorsOf("a.thrift", err)
			defs = len(f.Defs)
		})
		return
	}
	d1, e1 := count(x.pick(1, 2, 3))
	d2, e2 := count(n)
	t.add(Ev{"c": "Many", "n": n, "kind": k.before + "|" + k.unit + "|" + k.after, "ok": b01(d1 == d2 && e1 == e2 && min(e1, 1) == k.errs)})
}

func init() {
	register("C22", Class{"runs", len(idlRunKinds), len(idlRunKinds), idlRuns})
	register("C20", Class{"pieces", 60, 400, idlPieces})
	register("C21", Class{"shifted", 120, 1200, idlShifted})
}
