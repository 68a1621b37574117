package main

import (
	"bytes"
	"fmt"
	gotoken "go/token"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

// ---------------------------------------------- what Parse returns

// Item is a node or a part of a tree, in the order of the source.
type Item struct {
	L string `json:"l"`
	B B      `json:"b"`
	X int    `json:"x"`
	Y int    `json:"y"`
}

type tree struct {
	items []Item
	off   func(gotoken.Pos) int
}

func (w *tree) add(l string)           { w.items = append(w.items, Item{L: l, B: B{}}) }
func (w *tree) lit(l string, s string) { w.items = append(w.items, Item{L: l, B: B(s)}) }

func (w *tree) ident(n *thriftfile.Ident) {
	if n == nil {
		w.add("nil")
		return
	}
	w.lit("IDENT", n.Name)
}

func (w *tree) str(n *thriftfile.String) {
	if n == nil {
		w.add("nil")
		return
	}
	w.lit("STRING", n.Value)
}

func (w *tree) int(n *thriftfile.Int) {
	if n == nil {
		w.add("nil")
		return
	}
	w.lit("INT", n.Value)
}

func (w *tree) file(f *thriftfile.File) {
	for _, h := range f.Headers {
		switch h := h.(type) {
		case *thriftfile.Include:
			w.add("include")
			w.str(h.Path)
		case *thriftfile.Namespace:
			w.add("namespace")
			if h.Scope == nil {
				w.add("*")
			} else {
				w.ident(h.Scope)
			}
			w.ident(h.Name)
			w.annots(h.Annotations)
		default:
			w.add(fmt.Sprintf("%T", h))
		}
	}
	for _, d := range f.Defs {
		w.def(d)
	}
}

func (w *tree) def(d thriftfile.Def) {
	switch d := d.(type) {
	case *thriftfile.BadDef:
		w.items = append(w.items, Item{L: "bad", B: B{}, X: w.off(d.From), Y: w.off(d.To)})
	case *thriftfile.Const:
		w.add("const")
		w.typ(d.Type)
		w.ident(d.Name)
		w.val(d.Value)
	case *thriftfile.Typedef:
		w.add("typedef")
		w.typ(d.Type)
		w.ident(d.Name)
		w.annots(d.Annotations)
	case *thriftfile.Enum:
		w.add("enum")
		w.ident(d.Name)
		if d.Values != nil {
			w.add("{")
			for _, v := range d.Values.List {
				w.add("value")
				w.ident(v.Name)
				if v.Value != nil {
					w.add("=")
					w.int(v.Value)
				}
				w.annots(v.Annotations)
			}
			w.add("}")
		}
		w.annots(d.Annotations)
	case *thriftfile.Struct:
		switch {
		case d.Union && d.Exception:
			w.add("union exception")
		case d.Union:
			w.add("union")
		case d.Exception:
			w.add("exception")
		default:
			w.add("struct")
		}
		w.ident(d.Name)
		w.fields("{", "}", d.Fields)
		w.annots(d.Annotations)
	case *thriftfile.Service:
		w.add("service")
		w.ident(d.Name)
		if d.Extends != nil {
			w.add("extends")
			w.ident(d.Extends)
		}
		if d.Methods != nil {
			w.add("{")
			for _, m := range d.Methods.List {
				w.add("method")
				if m.OneWay {
					w.add("oneway")
				}
				if m.Void {
					w.add("void")
				}
				if m.Return != nil {
					w.typ(m.Return)
				}
				w.ident(m.Name)
				w.fields("(", ")", m.Arguments)
				if m.Throws != nil {
					w.add("throws")
					w.fields("(", ")", m.Throws)
				}
				w.annots(m.Annotations)
			}
			w.add("}")
		}
		w.annots(d.Annotations)
	default:
		w.add(fmt.Sprintf("%T", d))
	}
}

func (w *tree) fields(open, close string, l *thriftfile.FieldList) {
	if l == nil {
		return
	}
	w.add(open)
	for _, f := range l.List {
		w.add("field")
		if f.ID != nil {
			w.add("id")
			w.int(f.ID)
		}
		if f.Required {
			w.add("required")
		}
		if f.Optional {
			w.add("optional")
		}
		w.typ(f.Type)
		if f.Reference {
			w.add("&")
		}
		w.ident(f.Name)
		if f.Default != nil {
			w.add("=")
			w.val(f.Default)
		}
		w.annots(f.Annotations)
	}
	w.add(close)
}

func (w *tree) typ(t thriftfile.Type) {
	switch t := t.(type) {
	case *thriftfile.TypeRef:
		w.add("type")
		w.ident(t.Name)
		w.annots(t.Annotations)
	case *thriftfile.Map:
		w.add("map")
		w.typ(t.Key)
		w.typ(t.Value)
		w.annots(t.Annotations)
	case *thriftfile.Set:
		w.add("set")
		w.typ(t.Element)
		w.annots(t.Annotations)
	case *thriftfile.List:
		w.add("list")
		w.typ(t.Element)
		w.annots(t.Annotations)
	default:
		w.add(fmt.Sprintf("%T", t))
	}
}

func (w *tree) val(v thriftfile.Value) {
	switch v := v.(type) {
	case *thriftfile.Ident:
		w.ident(v)
	case *thriftfile.Int:
		w.int(v)
	case *thriftfile.Float:
		w.lit("FLOAT", v.Value)
	case *thriftfile.String:
		w.str(v)
	case *thriftfile.ValueList:
		w.add("[")
		for _, e := range v.List {
			w.val(e)
		}
		w.add("]")
	case *thriftfile.KeyValuePairList:
		w.add("{")
		for _, e := range v.List {
			w.val(e.Key)
			w.val(e.Value)
		}
		w.add("}")
	default:
		w.add(fmt.Sprintf("%T", v))
	}
}

func (w *tree) annots(l *thriftfile.AnnotationList) {
	if l == nil {
		return
	}
	w.add("(")
	for _, a := range l.List {
		w.ident(a.Name)
		if a.Value != nil {
			w.add("=")
			w.str(a.Value)
		}
	}
	w.add(")")
}

var (
	atRx   = regexp.MustCompile(`^(?s)(\d+):(\d+): .`)
	moreRx = regexp.MustCompile(`(?s)\(and (\d+) more errors\)$`)
)

// position reads "FILE:LINE:COLUMN: ..."; 0, 0 if it is not of the file.
func position(filename, s string) [2]int {
	if filename != "" {
		if !strings.HasPrefix(s, filename+":") {
			return [2]int{}
		}
		s = s[len(filename)+1:]
	}
	m := atRx.FindStringSubmatch(s)
	if m == nil {
		return [2]int{}
	}
	l, _ := strconv.Atoi(m[1])
	c, _ := strconv.Atoi(m[2])
	return [2]int{l, c}
}

// errorsOf lists the positions of all errors that can be reached, and how
// many the text of the error promises.
func errorsOf(filename string, err error) ([][2]int, int) {
	if err == nil {
		return [][2]int{}, 0
	}
	n := 1
	if m := moreRx.FindStringSubmatch(err.Error()); m != nil {
		k, _ := strconv.Atoi(m[1])
		n += k
	}
	all := [][2]int{position(filename, err.Error())}
	if v := reflect.ValueOf(err); v.Kind() == reflect.Slice {
		for i := 1; i < v.Len(); i++ {
			if e, ok := v.Index(i).Interface().(error); ok {
				all = append(all, position(filename, e.Error()))
			}
		}
	} else {
		// Only the first one can be seen.
		n = 1
	}
	return all, n
}

// parse parses a document and records what comes of it.
func (x *X) parse(chk string, src []byte) *Trace {
	lets, digs := []int{}, []int{}
	for i := 0; i < len(src); {
		r, w := utf8.DecodeRune(src[i:])
		if r >= utf8.RuneSelf && !(r == utf8.RuneError && w == 1) {
			if unicode.IsLetter(r) {
				lets = append(lets, int(r))
			} else if unicode.IsDigit(r) {
				digs = append(digs, int(r))
			}
		}
		i += w
	}
	t := x.trace("Idl", map[string]any{"b": B(src), "let": lets, "dig": digs})
	t.add(parsed(x, t, chk, src))
	return t
}

func parsed(x *X, t *Trace, chk string, src []byte) Ev {
	filename := pick(x.G, "a.thrift", "x.thrift", "dir/b c.thrift", "", "a:1:2.thrift", "1:1")
	fset := gotoken.NewFileSet()
	for k := x.Intn(3); k > 0; k-- {
		fset.AddFile(pick(x.G, "other", filename), -1, x.Intn(100))
	}
	in := append([]byte{}, src...)
	var f *thriftfile.File
	var err error
	t.lib(func() { f, err = thriftfile.Parse(fset, filename, in) })
	if !bytes.Equal(in, src) {
		return Ev{"c": "Panic", "msg": "the source was modified"}
	}
	// The tree is there to stay, the source is not.
	x.Read(in)
	w := &tree{items: []Item{}, off: func(p gotoken.Pos) int {
		if f := fset.File(p); f != nil && f.Name() == filename {
			return f.Offset(p)
		}
		return -1
	}}
	ev := Ev{"c": "Parse", "chk": chk, "nodes": 0, "defs": 0, "lastbad": 0}
	if f != nil {
		ev["nodes"] = 1
		if n := len(f.Defs); n > 0 {
			_, bad := f.Defs[n-1].(*thriftfile.BadDef)
			ev["defs"], ev["lastbad"] = n, b01(bad)
		}
		if chk == "full" {
			w.file(f)
		}
	}
	ev["tree"] = w.items
	ev["errs"], ev["n"] = errorsOf(filename, err)
	return ev
}

// ------------------------------------------------- making documents

// Word is a token to be.
type Word struct{ K, S string }

var (
	marks    = strings.Fields("+ - * / % & | ^ == < > = ! ( [ { , . ) ] } ; :")
	keywords = strings.Fields("include namespace const typedef enum struct union exception service required optional extends oneway void throws map set list")
	lits     = []string{"IDENT", "INT", "FLOAT", "STRING"}
	kinds    = append(append(append([]string{}, marks...), keywords...), lits...)
)

func pick[T any](g *G, s ...T) T { return s[g.Intn(len(s))] }

func (g *G) ident() string {
	if g.one(60) {
		return "x" + strings.Repeat(pick(g, "a", "Z9", "_.", "é", "x1"), g.pick(15, 31, 32, 63, 64, 127, 128, 300))
	}
	switch g.Intn(12) {
	case 0:
		return pick(g, keywords...) + pick(g, "s", "_", "1", ".x", "X")
	case 1:
		return strings.ToUpper(pick(g, keywords...))
	case 2:
		return pick(g, keywords...)[1:]
	case 3:
		return pick(g, "_", "__", "x.y", "a.b.c", "a..b", "a.", "_1", "e", "e1", "x1f", "if", "i", "Map", "E5", "x0")
	case 4:
		return pick(g, "é", "日本", "aé", "éa.b1", "x٣", "Ж_", "ａ", "ñ1", "a日.b", "ß", "𝒳", "x𝒳y", "e\u0663.z")
	case 5:
		return pick(g, "i32", "string", "bool", "byte", "i8", "binary", "double", "uuid", "slist")
	}
	var b strings.Builder
	b.WriteByte("abcxyzABZ_"[g.Intn(10)])
	for k := g.Intn(g.Intn(12) + 1); k > 0; k-- {
		b.WriteByte("abcxyzABZ_.0189"[g.Intn(15)])
	}
	return b.String()
}

func (g *G) digits() string {
	var b strings.Builder
	n := g.Intn(g.Intn(10) + 1)
	if g.one(20) {
		n = g.pick(18, 19, 20, 39, 100)
	}
	for ; n >= 0; n-- {
		b.WriteByte("0123456789"[g.Intn(10)])
	}
	return b.String()
}

func (g *G) intLit() string {
	s := pick(g, "", "", "+", "-")
	if g.one(4) {
		s += pick(g, "0x", "0X")
		for k := g.Intn(8); k >= 0; k-- {
			s += string("0123456789abcdefABCDEF"[g.Intn(22)])
		}
		return s
	}
	return s + g.digits()
}

func (g *G) floatLit() string {
	s := pick(g, "", "", "+", "-") + g.digits()
	if g.one(2) {
		s += "." + pick(g, "", g.digits())
		if g.one(2) {
			return s
		}
	}
	return s + pick(g, "e", "E") + pick(g, "", "+", "-") + g.digits()
}

func (g *G) stringLit() string {
	q := pick(g, `"`, `'`)
	s := q
	if g.one(40) {
		s += strings.Repeat(pick(g, "a", "é ", "0\\n"), g.pick(30, 60, 64, 130, 256, 600))
	}
	for k := g.Intn(g.Intn(10) + 1); k > 0; k-- {
		s += pick(g, "a", "b", " ", "\t", "\r", "é", "日", "\u00a0", "𝒳", "0", "//", "#", "/*", "*/", "\\n", "\\r", "\\t", "\\\\", "\\"+q, "{", ";",
			"@", "$", "\x01", "\x7f", "\u2028", "\ufffd", `'`, `"`, "struct ", "\\\\\\"+q)
		if strings.HasSuffix(s, `'`) && q == `'` && !strings.HasSuffix(s, `\'`) || strings.HasSuffix(s, `"`) && q == `"` && !strings.HasSuffix(s, `\"`) {
			s = s[:len(s)-1]
		}
	}
	return s + q
}

func (g *G) word(k string) Word {
	switch k {
	case "IDENT":
		for {
			s := g.ident()
			if !isKeyword(s) {
				return Word{k, s}
			}
		}
	case "INT":
		return Word{k, g.intLit()}
	case "FLOAT":
		return Word{k, g.floatLit()}
	case "STRING":
		return Word{k, g.stringLit()}
	}
	return Word{k, k}
}

func isKeyword(s string) bool {
	for _, k := range keywords {
		if k == s {
			return true
		}
	}
	return false
}

// Grammar writes valid documents, word by word.
type Grammar struct {
	*G
	w     []Word
	depth int
}

func (r *Grammar) p(ks ...string) {
	for _, k := range ks {
		r.w = append(r.w, r.word(k))
	}
}

func (r *Grammar) seps() {
	for r.one(2) {
		r.p(pick(r.G, ",", ";"))
	}
}

func (r *Grammar) some() int {
	if r.depth == 0 && r.one(40) {
		return r.pick(8, 9, 16, 17, 33)
	}
	return r.Intn(r.Intn(5) + 1)
}

func (r *Grammar) header() {
	if r.one(2) {
		r.p("include", "STRING")
		return
	}
	r.p("namespace", pick(r.G, "*", "IDENT"), "IDENT")
	r.annots()
}

func (r *Grammar) annots() {
	if !r.one(5) {
		return
	}
	r.p("(")
	for k := r.some(); k > 0; k-- {
		r.p("IDENT")
		if r.one(2) {
			r.p("=", "STRING")
		}
		r.seps()
	}
	r.p(")")
}

func (r *Grammar) typ() {
	r.depth++
	switch n := r.Intn(4 + 2*r.depth); {
	case n == 0:
		r.p("map", "<")
		r.typ()
		r.p(",")
		r.typ()
		r.p(">")
	case n == 1:
		r.p("set", "<")
		r.typ()
		r.p(">")
	case n == 2:
		r.p("list", "<")
		r.typ()
		r.p(">")
	default:
		r.p("IDENT")
	}
	r.depth--
	r.annots()
}

func (r *Grammar) val() {
	r.depth++
	switch n := r.Intn(5 + 2*r.depth); {
	case n == 0:
		r.p("[")
		for k := r.some(); k > 0; k-- {
			r.val()
			r.seps()
		}
		r.p("]")
	case n == 1:
		r.p("{")
		for k := r.some(); k > 0; k-- {
			r.val()
			r.p(":")
			r.val()
			r.seps()
		}
		r.p("}")
	default:
		r.p(pick(r.G, lits...))
	}
	r.depth--
}

func (r *Grammar) fields(open, close string) {
	r.p(open)
	for k := r.some(); k > 0; k-- {
		if r.Intn(4) > 0 {
			r.p("INT", ":")
		}
		if r.one(2) {
			r.p(pick(r.G, "required", "optional"))
		}
		r.typ()
		if r.one(6) {
			r.p("&")
		}
		if r.one(6) {
			r.p(pick(r.G, keywords...))
		} else {
			r.p("IDENT")
		}
		if r.one(4) {
			r.p("=")
			r.val()
		}
		r.annots()
		r.seps()
	}
	r.p(close)
}

func (r *Grammar) def() {
	switch r.Intn(6) {
	case 0:
		r.p("const")
		r.typ()
		r.p("IDENT", "=")
		r.val()
		r.seps()
	case 1:
		r.p("typedef")
		r.typ()
		r.p("IDENT")
		r.annots()
		r.seps()
	case 2:
		r.p("enum", "IDENT", "{")
		for k := r.some(); k > 0; k-- {
			r.p("IDENT")
			if r.one(2) {
				r.p("=", "INT")
			}
			r.annots()
			r.seps()
		}
		r.p("}")
		r.annots()
	case 3, 4:
		r.p(pick(r.G, "struct", "union", "exception"), "IDENT")
		r.fields("{", "}")
		r.annots()
	case 5:
		r.p("service", "IDENT")
		if r.one(2) {
			r.p("extends", "IDENT")
		}
		r.p("{")
		for k := r.some(); k > 0; k-- {
			if r.one(4) {
				r.p("oneway")
			}
			if r.one(3) {
				r.p("void")
			} else {
				r.typ()
			}
			r.p("IDENT")
			r.fields("(", ")")
			if r.one(3) {
				r.p("throws")
				r.fields("(", ")")
			}
			r.annots()
			r.seps()
		}
		r.p("}")
		r.annots()
	}
}

func (r *Grammar) doc(headers, defs int) []Word {
	for ; headers > 0; headers-- {
		r.header()
	}
	for ; defs > 0; defs-- {
		r.def()
	}
	return r.w
}

func (g *G) idlDoc() []Word { return (&Grammar{G: g}).doc(g.Intn(3), g.Intn(4)) }

// Layouts: how words are put together.
const (
	lPlain = iota // one blank
	lTight        // as little as possible
	lLines        // a line each
	lAny          // anything that is allowed between tokens
)

func wordy(c byte) bool {
	return c == '_' || c == '.' || c >= '0' && c <= '9' || c|32 >= 'a' && c|32 <= 'z' || c >= 0x80
}

// glue says whether two words would run into each other.
func glue(a, b string) bool {
	x, y := a[len(a)-1], b[0]
	switch {
	case wordy(x) && wordy(y):
		return true
	case x == '=' && y == '=', x == '/' && (y == '/' || y == '*'), (x == '+' || x == '-') && y >= '0' && y <= '9':
		return true
	case (x|32 == 'e') && (y == '+' || y == '-'):
		return true
	}
	return false
}

func (g *G) comment() string {
	s := ""
	for k := g.Intn(6); k > 0; k-- {
		s += pick(g, "a", " ", "é", "*", "/", "\"", "'", "struct", "\\", "@", "{", "//", "/*", "#", "日", "\t")
	}
	if g.one(60) {
		s += strings.Repeat("x ", g.pick(60, 130, 600))
	}
	switch g.Intn(3) {
	case 0:
		return "#" + s + pick(g, "\n", "\r\n")
	case 1:
		return "//" + s + pick(g, "\n", "\r\n")
	}
	s = strings.ReplaceAll(s, "*/", "* /") + pick(g, "", "\n", "*", "**", "\n * x\n ")
	return "/*" + strings.ReplaceAll(s, "*/", "* /") + "*/"
}

func (g *G) gap(layout int, need bool) string {
	s := ""
	switch layout {
	case lPlain:
		return " "
	case lLines:
		return pick(g, "\n", "\r\n", "\n\n", "\n  ")
	case lAny:
		for k := g.Intn(4); k > 0; k-- {
			s += pick(g, " ", "  ", "\t", "\n", "\r\n", "\r", g.comment())
		}
	}
	if s == "" && need {
		s = pick(g, " ", "\n", "\t", "\r", "/**/", "/***/", "#\n", "//\n")
	}
	return s
}

func (g *G) render(ws []Word, layout int) []byte {
	var b strings.Builder
	if g.one(8) {
		b.WriteString("\ufeff")
	}
	prev := ""
	for i, w := range ws {
		if i > 0 || layout == lAny {
			need := prev != "" && glue(prev, w.S)
			s := g.gap(layout, need)
			if need && s == "" {
				s = " "
			}
			b.WriteString(s)
		}
		b.WriteString(w.S)
		prev = w.S
	}
	b.WriteString(pick(g, "", "\n", "", " ", g.gap(lAny, false)))
	return []byte(b.String())
}

func (g *G) layout() int { return pick(g, lPlain, lTight, lLines, lAny, lAny) }

// ------------------------------------------------------- scenarios

func idlValid(x *X) {
	for k := 0; k < 12; k++ {
		ws := x.idlDoc()
		x.parse("full", x.render(ws, k%4))
		if k%3 == 0 {
			x.parse("full", x.render(ws, lAny))
		}
	}
}

// Edits a document word by word.
func (g *G) edit(ws []Word) []Word {
	ws = append([]Word{}, ws...)
	at := 0
	if len(ws) > 0 {
		at = g.Intn(len(ws))
	}
	w := g.word(pick(g, kinds...))
	switch n := g.Intn(6); {
	case len(ws) == 0 || n == 0:
		ws = append(ws[:at], append([]Word{w}, ws[at:]...)...)
	case n == 1:
		ws = append(ws[:at], ws[at+1:]...)
	case n == 2:
		ws[at] = w
	case n == 3:
		ws = ws[:at]
	case n == 4:
		j := g.Intn(len(ws))
		ws[at], ws[j] = ws[j], ws[at]
	case n == 5:
		ws = append(ws[:at], append([]Word{ws[at]}, ws[at:]...)...)
	}
	return ws
}

func idlEdited(x *X) {
	for k := 0; k < 12; k++ {
		ws := x.idlDoc()
		for j := x.Intn(3); j >= 0; j-- {
			ws = x.edit(ws)
		}
		x.parse("full", x.render(ws, x.layout()))
	}
}

// Malformed tokens and illegal characters in any place.
func (g *G) malform(src []byte) []byte {
	at := 0
	if len(src) > 0 {
		at = g.Intn(len(src) + 1)
	}
	s := pick(g, "\x00", "\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xc0\x80", "\xf5\x80\x80\x80", "\ufeff", "@", "$", "~", "?", "\\", "`", "\x7f", "\x0b", "\x0c", "\u00a0",
		"\"", "'", "\"a\n", "'\\x'", "\"\\q\"", "'\\\"'", "\"\\'\"", "\"\\", "/*", "/* *", "/*/", "*/", "/", "//", "\u0663", "\u2028", "\ufffd", "'\x00'", "\"\xff\"", "#\x00\n", "/*\xff*/", "//\ufeff",
		"\n", "\r", " ", ".", "==", "=", "0x", "1e", "1e+", "+", "-")
	return append(append(append([]byte{}, src[:at]...), s...), src[at:]...)
}

func idlMalformed(x *X) {
	for k := 0; k < 12; k++ {
		src := x.render(x.idlDoc(), x.layout())
		for j := x.Intn(2); j >= 0; j-- {
			src = x.malform(src)
		}
		if x.one(4) {
			src = src[:x.Intn(len(src)+1)]
		}
		x.parse("full", src)
	}
}

// Valid definitions and ones given up, in any order.
func idlRecovery(x *X) {
	for k := 0; k < 10; k++ {
		r := &Grammar{G: x.G}
		r.doc(x.Intn(2), x.Intn(2))
		for j := 1 + x.Intn(3); j > 0; j-- {
			r.broken()
			for n := x.Intn(3); n > 0; n-- {
				r.def()
			}
		}
		x.parse("full", x.render(r.w, x.layout()))
	}
}

// broken adds what is no definition, perhaps.
func (r *Grammar) broken() {
	x := r.G
	from := len(r.w)
	if x.one(3) {
		// No definition at all.
		for n := x.Intn(4); n >= 0; n-- {
			r.p(pick(x, kinds...))
		}
		return
	}
	// A definition with something else instead of a type or value.
	r.def()
	var spots []int
	for p := from; p < len(r.w); p++ {
		switch r.w[p].K {
		case "IDENT", "map", "set", "list", "INT", "FLOAT", "STRING", "[", "{":
			spots = append(spots, p)
		}
	}
	at := spots[x.Intn(len(spots))]
	tail := append([]Word{}, r.w[at:]...)
	r.w = r.w[:at]
	r.p(pick(x, kinds...))
	if x.one(2) {
		tail = tail[1:]
	}
	if x.one(3) {
		tail = tail[x.Intn(len(tail)+1):]
	}
	r.w = append(r.w, tail...)
}

// Many broken definitions, and good ones after them.
func idlMany(x *X) {
	r := &Grammar{G: x.G}
	for k := []int{9, 10, 11, 17, 20, 60, 130, 270}[x.Idx%8]; k > 0; k-- {
		switch x.Intn(4) {
		case 0:
			r.p("const", "IDENT", "IDENT", "=", pick(x.G, "=", ",", "}", "required"))
		case 1:
			r.p("typedef", pick(x.G, "INT", "STRING", "=", "throws"))
		case 2:
			r.p("struct", "IDENT", "{", "INT", ":", pick(x.G, "=", "INT", "FLOAT", ">"))
		default:
			r.p("typedef", "list", "<", pick(x.G, ">", "INT", "optional"))
		}
		if x.one(6) {
			r.p("typedef", "IDENT", "IDENT")
		}
	}
	r.def()
	x.parse("full", x.render(r.w, x.layout()))
}

// Words with a lot to get wrong, where any word may stand.
func idlWords(x *X) {
	for k := 0; k < 16; k++ {
		s := ""
		for j := x.Intn(4); j >= 0; j-- {
			s += pick(x.G, x.ident(), x.intLit(), x.floatLit(), x.stringLit(), pick(x.G, keywords...), x.comment(), x.gap(lAny, true), x.ident(),
				pick(x.G, marks...), pick(x.G, ".5", "1.2.3", "1.e5", "+.5", "-", "- 1", "0x1.5", "1e5.5", "00", "0", "-0", "+0x1F", "0xg", "09", "1_000", "5abc", "'a''b'", `"a""b"`, "e5", "x-1", "x+1", "1+1", "1-1", "0b1", "1..2", "1.x"))
		}
		src := pick(x.G, "const i32 x = %s", "const i32 x = [%s]", "const %s x = 5", "struct S { 1: i32 a = %s }", "enum E { A = %s }", "include %s", "namespace %s x",
			"const string %s = 'x'", "typedef %s x", "service %s { }", "%s", "struct S { 1: i32 %s }", "struct S (a = %s) { }", "struct S { } (a = %s)")
		x.parse("full", []byte(strings.Replace(src, "%s", s, 1)+pick(x.G, "", "\n", " const i32 y = 1")))
	}
}

// Every string of up to three bytes of an alphabet, on its own and as a value.
func idlShort(x *X) {
	alphabet := []string{"a", "_", "0", "1", "x", "e", ".", "+", "-", "\"", "'", "\\", "/", "*", "#", "\n", "\r", " ", "=", "@", "\x00", "\xff", "é", "\ufeff", "n", "{", ";"}
	n := len(alphabet)
	total := n * n * n
	for k := x.Idx; k < total; k += x.N {
		s := alphabet[k%n] + alphabet[k/n%n] + alphabet[k/n/n]
		x.parse("full", []byte("const i32 x = "+s))
	}
}

// Any bytes at all.
func (g *G) soup() []byte {
	var b []byte
	switch g.Intn(4) {
	case 0:
		b = make([]byte, g.Intn(400))
		g.Read(b)
	case 1:
		for k := g.Intn(120); k > 0; k-- {
			b = append(b, g.word(pick(g, kinds...)).S...)
			b = append(b, pick(g, "", " ", "\n", "\x00", "\\", "\"")...)
		}
	case 2:
		b = g.render(g.idlDoc(), g.layout())
		for k := g.Intn(10); k >= 0; k-- {
			b = g.malform(b)
		}
	case 3:
		b = g.render(g.idlDoc(), g.layout())
		for k := g.Intn(10); k >= 0 && len(b) > 0; k-- {
			b[g.Intn(len(b))] = byte(g.Intn(256))
		}
	}
	return b
}

func idlTotal(x *X) {
	for k := 0; k < 25; k++ {
		x.parse("total", x.soup())
	}
}

func (x *X) deep(shape string, depth int, src []byte) {
	t := x.trace("Idl", map[string]any{"b": B{}, "let": []int{}, "dig": []int{}, "shape": shape})
	ev := parsed(x, t, "none", src)
	t.add(Ev{"c": "Deep", "depth": depth, "n": ev["n"], "nodes": ev["nodes"]})
}

// follow parses a document whose last definition, on line after+1, is nested
// to a depth and follows ones that were given up.
func (x *X) follow(shape string, depth, after int, src string) {
	t := x.trace("Idl", map[string]any{"b": B{}, "let": []int{}, "dig": []int{}, "shape": shape})
	ev := parsed(x, t, "none", []byte(src))
	n := 0
	for _, e := range ev["errs"].([][2]int) {
		if e[0] > after {
			n++
		}
	}
	t.add(Ev{"c": "Follow", "depth": depth, "n": n, "bad": ev["lastbad"], "defs": ev["defs"], "of": after + 1})
}

// nested returns a document whose types or values are nested to a depth.
func nested(shape string, n int) string {
	rep := strings.Repeat
	switch shape {
	case "list":
		return "typedef " + rep("list<", n-1) + "i32" + rep(">", n-1) + " x"
	case "set":
		return "typedef " + rep("set <", n-1) + "i32" + rep("> (a)", n-1) + " x"
	case "mapkey":
		return "typedef " + rep("map<", n-1) + "i32" + rep(",i32>", n-1) + " x"
	case "mapval":
		return "struct S { 1: " + rep("map<i32,", n-1) + "i32" + rep(">", n-1) + " x }"
	case "vals":
		return "const i32 x = " + rep("[", n-1) + "1" + rep("]", n-1)
	case "empty":
		return "const i32 x = " + rep("[", n) + rep("]", n)
	case "pairs":
		return "const i32 x = " + rep("{1:", n-1) + "1" + rep("}", n-1)
	case "keys":
		return "struct S { i32 x = " + rep("{", n-1) + "1" + rep(":1}", n-1) + " }"
	case "arg":
		return "service S { void f(1: " + rep("list<", n-1) + "i32" + rep(">", n-1) + " x) throws (1: i32 y) }"
	case "return":
		return "service S { " + rep("set<", n-1) + "i32" + rep(">", n-1) + " f() }"
	case "mixed":
		return "const i32 x = " + rep("[{1:", (n-1)/2) + rep("[", (n-1)%2) + "1" + rep("]", (n-1)%2) + rep("}]", (n-1)/2)
	}
	panic(shape)
}

var shapes = []string{"list", "set", "mapkey", "mapval", "vals", "empty", "pairs", "keys", "arg", "return", "mixed"}

func idlDeep(x *X) {
	shape := shapes[x.Idx%len(shapes)]
	for _, n := range []int{2, 100, 9999, 10000, 10001, 10002, 20000, 60000, 1000000} {
		x.deep(shape, n, []byte(nested(shape, n)))
	}
	// Deep ones before do not count.
	for _, n := range []int{6000, 10000} {
		s := ""
		for k := 0; k < 4; k++ {
			s += nested(pick(x.G, shapes...), n) + "\n"
		}
		x.deep(shape+"-again", n, []byte(s))
	}
	// Nor do those that were given up, at any depth.
	for _, n := range []int{100, 9999, 10000, 10001} {
		s, m := "", x.Intn(4)+1
		for k := 0; k < m; k++ {
			switch x.Intn(3) {
			case 0:
				s += nested(pick(x.G, shapes...), x.pick(10001, 12000, 20000))
			case 1:
				s += "typedef " + strings.Repeat(pick(x.G, "list<", "set<", "map<i32,", "map<"), x.pick(1, 5000, 9998)) + "1"
			default:
				s += "const i32 x = " + strings.Repeat(pick(x.G, "[", "{1:", "{"), x.pick(1, 5000, 9998)) + "="
			}
			s += "\n"
		}
		x.follow(shape, n, m, s+nested(shape, n))
	}
	s := ""
	const many = 11000
	for k := 0; k < many; k++ {
		s += pick(x.G, "typedef list<map<set<1", "const i32 x = [{{[=", "typedef 1", "const i32 x = =", "struct S { 1: = }", "service S { = f() }") + "\n"
	}
	x.follow(shape, 9990, many, s+nested(shape, 9990))
	s = ""
	for k := 0; k < many; k++ {
		s += pick(x.G, "typedef list<i32> (a = 'b') x", "const i32 x = [{1:2}]", "struct S { 1: map<i32,set<i32>(a)> a = {1:[]} (a) }", "service S { list<i32> f(1: set<i32> a) throws (1: i32 e) (a) }") + "\n"
	}
	x.deep(shape, 9990, []byte(s+nested(shape, 9990)))
	// Nor do those beside it.
	s = ""
	for k := 0; k < many; k++ {
		s += pick(x.G, "1: map<i32,set<i32>(a)> a = {1:[]} (a)", "set<i32> (a = 'b') x = [{},[],{1:[2]}]", "map<list<i32>(a),i32> (a) b", "list<i32(a)>(a) c;") + "\n"
	}
	x.deep(shape, 9990, []byte("struct S {"+s+" list<"+strings.TrimSuffix(strings.TrimPrefix(nested("list", 9989), "typedef "), " x")+"> x }"))
	x.deep(shape, 9990, []byte("service S { void f("+s+")"+strings.TrimSuffix(strings.TrimPrefix(nested("list", 9990), "typedef "), " x")+" x() }"))
	// Unclosed.
	s = nested(shape, 3000000)
	t := x.trace("Idl", map[string]any{"b": B{}, "let": []int{}, "dig": []int{}})
	begun := time.Now()
	ev := parsed(x, t, "none", []byte(s[:len(s)/2]))
	t.add(Ev{"c": "Deep", "depth": 3000000, "n": ev["n"], "nodes": ev["nodes"]})
	t.add(Ev{"c": "Time", "kb": len(s) / 2048, "ms": time.Since(begun).Milliseconds()})
}

var units = []string{"struct S { 1: i32 a }\n", "@", "\x00", "\n", "a", "a ", "'", "\"a\n", "(", "const ", "struct S { ", "service S { void f(", "/*", "\xff", "[", "list<",
	"const i32 x = [", "enum E {", ",", "const i32 x = 1;", "// c\n", "/* c */", "{", "}", "'a' ", "include 'x'\n", "struct ", "enum E { A,", "\\", "1:", ";", "a.", "é", "0",
	"\"\\q", "/", "const list<i32> x = [1,2,3];", "namespace * a (b = 'c')\n", "<", ">", "map<i32,", "\r", "1 ", "1.5 ", "= ", "& ", "i32 a, ", "a = 'b', "}

// Large documents in time.
func idlLarge(x *X) {
	unit := units[x.Idx%len(units)]
	for _, size := range []int{1 << 16, 1 << 20} {
		s := strings.Repeat(unit, size/len(unit))
		switch x.Intn(3) {
		case 0:
			s = "const i32 x = [" + s
		case 1:
			s = "struct S {" + s
		}
		t := x.trace("Idl", map[string]any{"b": B{}, "let": []int{}, "dig": []int{}, "unit": unit})
		begun := time.Now()
		ev := parsed(x, t, "none", []byte(s))
		ms := time.Since(begun).Milliseconds()
		if ev["nodes"] == 0 {
			t.add(Ev{"c": "Panic", "msg": "no tree"})
		}
		for _, e := range ev["errs"].([][2]int) {
			if e[0] < 1 || e[1] < 1 {
				t.add(Ev{"c": "Panic", "msg": "bad position"})
				break
			}
		}
		t.add(Ev{"c": "Time", "kb": size / 1024, "ms": ms})
	}
}

func init() {
	register("C20", Class{"valid", 400, 3000, idlValid}, Class{"replay-valid", 20, 20, idlReplayValid}, Class{"corpus", 20, 20, idlCorpus})
	register("C21", Class{"edited", 200, 2500, idlEdited}, Class{"malformed", 120, 1000, idlMalformed}, Class{"recovery", 40, 500, idlRecovery},
		Class{"replay-edges", 40, 40, idlReplayEdges}, Class{"corpus", 20, 20, idlCorpus})
	register("C22", Class{"total", 240, 4000, idlTotal}, Class{"deep", 11, 22, idlDeep}, Class{"large", 52, 200, idlLarge})
	register("C23", Class{"deep", 11, 22, idlDeep}, Class{"recovery", 320, 3000, idlRecovery}, Class{"many", 24, 200, idlMany}, Class{"replay-given-up", 40, 40, idlReplayGivenUp})
	register("C24", Class{"words", 280, 2500, idlWords}, Class{"short", 40, 40, idlShort}, Class{"malformed", 120, 1000, idlMalformed})
}
