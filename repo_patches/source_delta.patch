From fa38ca20ff68ecf5b088693056b1829a4bb21870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 01/12] fix: thriftcompact: keep flushing the underlying writer
 after Reset

Reset dropped the reference to the underlying io.Writer, so that Flush no
longer called its Flush method, which thriftwire.Writer documents.
---
 encoding/thriftcompact/thriftcompact.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index fc079ff..226eca1 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -534,6 +534,7 @@ func (x *writer) Reset(uw io.Writer) {
 	x.Writer.Reset(uw)
 	*x = writer{
 		Writer:       x.Writer,
+		uw:           uw,
 		lastFieldIDs: x.lastFieldIDs[:0],
 	}
 }
-- 
2.43.0


From 2ae14d949140cb7b3f57d3657397854da102abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 02/12] fix: thriftwire: do not wait for bytes beyond a varint

Peeking MaxVarintLen64 bytes blocks on a connection whose peer has sent a
shorter message and waits for the reply, and it swallows a read error that
follows the varint. Peek only what is buffered already.
---
 encoding/thriftwire/varint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/thriftwire/varint.go b/encoding/thriftwire/varint.go
index 99163bb..265fca4 100644
--- a/encoding/thriftwire/varint.go
+++ b/encoding/thriftwire/varint.go
@@ -7,7 +7,7 @@ import (
 
 // ReadUvarint is like [binary.ReadUvarint] but optimized for [bufio.Reader].
 func ReadUvarint(b *bufio.Reader) (uint64, error) {
-	if buf, _ := b.Peek(binary.MaxVarintLen64); len(buf) > 0 {
+	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
 		if x, n := binary.Uvarint(buf); n > 0 {
 			_, err := b.Discard(n)
 			return x, err
@@ -18,7 +18,7 @@ func ReadUvarint(b *bufio.Reader) (uint64, error) {
 
 // ReadVarint is like [binary.ReadVarint] but optimized for [bufio.Reader].
 func ReadVarint(b *bufio.Reader) (int64, error) {
-	if buf, _ := b.Peek(binary.MaxVarintLen64); len(buf) > 0 {
+	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
 		if x, n := binary.Varint(buf); n > 0 {
 			_, err := b.Discard(n)
 			return x, err
-- 
2.43.0


From e9c595e405248a64caea130988551d20e491541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 03/12] fix: thriftcompact: write empty sets and lists without
 an element type

thriftwire.SetHeader and thriftwire.ListHeader document that Element may be
Stop if Size <= 0, and the readers return such headers.
---
 encoding/thriftcompact/thriftcompact.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 226eca1..0575b30 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -429,6 +429,9 @@ const MaxSetHeaderSize = 1 + binary.MaxVarintLen64
 
 // AppendSetHeader appends h to buf and returns the extended buffer.
 func AppendSetHeader(buf []byte, h thriftwire.SetHeader) ([]byte, error) {
+	if h.Size <= 0 && h.Element == thriftwire.Stop {
+		return append(buf, byte(_STOP)), nil
+	}
 	e, err := typeCompact(h.Element)
 	if err != nil {
 		return buf, err
-- 
2.43.0


From d6dccfbc52805df253dd28b655979e482d22813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 04/12] fix: thriftcompact: do not let the field ID delta wrap
 around

The short form of a field header is only for an ID that is 1 to 15 greater
than the previous one; going from 32767 to -32768 is not.
---
 encoding/thriftcompact/thriftcompact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 0575b30..2cef478 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -361,7 +361,7 @@ func appendFieldHeader(buf []byte, opts appendFieldHeaderOptions) (_ []byte, err
 			return buf, err
 		}
 	}
-	if delta := opts.h.ID - opts.lastFieldID; delta > 0 && delta <= 15 {
+	if delta := int32(opts.h.ID) - int32(opts.lastFieldID); delta > 0 && delta <= 15 {
 		return append(buf, byte(delta<<4)|byte(t)), nil
 	}
 	buf = append(buf, byte(t))
-- 
2.43.0


From 9fda5286c1f871504acb845fc66bf9155a680a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 05/12] fix: thriftbinary: reject sizes that do not fit the
 encoding

A size beyond 32 bits was silently truncated, which corrupts the stream.
---
 encoding/thriftbinary/thriftbinary.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/thriftbinary/thriftbinary.go b/encoding/thriftbinary/thriftbinary.go
index 8af57f4..4bb63f7 100644
--- a/encoding/thriftbinary/thriftbinary.go
+++ b/encoding/thriftbinary/thriftbinary.go
@@ -413,5 +413,8 @@ func (x *writer) writeType(t thriftwire.Type) error {
 }
 
 func (x *writer) writeSize(v int) error {
+	if int(int32(v)) != v {
+		return fmt.Errorf("thriftbinary: size %d out of range", v)
+	}
 	return x.WriteI32(int32(v))
 }
-- 
2.43.0


From 49a339a89f4829527a4291a78af0a2fb1a157cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 06/12] fix: thriftwire: limit the nesting depth in Skip

A few megabytes of nested struct or list headers overflowed the stack, which
ends the process and cannot be recovered from.
---
 encoding/thriftwire/skip.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/encoding/thriftwire/skip.go b/encoding/thriftwire/skip.go
index 17a2639..cd9194d 100644
--- a/encoding/thriftwire/skip.go
+++ b/encoding/thriftwire/skip.go
@@ -1,7 +1,22 @@
 package thriftwire
 
+import "errors"
+
+// maxDepth is the maximum nesting depth of a value that can be skipped.
+const maxDepth = 10000
+
+var errMaxDepth = errors.New("thriftwire: exceeded max depth")
+
 // Skip skips over the next value.
-func Skip(r Reader, t Type) (err error) {
+func Skip(r Reader, t Type) error {
+	return skip(r, t, maxDepth)
+}
+
+func skip(r Reader, t Type, depth int) (err error) {
+	if depth <= 0 {
+		return errMaxDepth
+	}
+	depth--
 	switch t {
 	default:
 		return InvalidTypeError(t)
@@ -31,7 +46,7 @@ func Skip(r Reader, t Type) (err error) {
 			if h.Type == Stop {
 				break
 			}
-			if err := Skip(r, h.Type); err != nil {
+			if err := skip(r, h.Type, depth); err != nil {
 				return err
 			}
 			if err := r.ReadFieldEnd(); err != nil {
@@ -45,10 +60,10 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Key); err != nil {
+			if err := skip(r, h.Key, depth); err != nil {
 				return err
 			}
-			if err := Skip(r, h.Value); err != nil {
+			if err := skip(r, h.Value, depth); err != nil {
 				return err
 			}
 		}
@@ -59,7 +74,7 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Element); err != nil {
+			if err := skip(r, h.Element, depth); err != nil {
 				return err
 			}
 		}
@@ -70,7 +85,7 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Element); err != nil {
+			if err := skip(r, h.Element, depth); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 0f368fe546cab2feb36d1b68027fa378d0dba9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 07/12] fix: thrift: limit the nesting depth in Marshal and
 Unmarshal

Deeply nested input into a recursive Go type, a cyclic Go value, and a nil
required pointer of a recursive Go type all overflowed the stack, which ends
the process and cannot be recovered from.
---
 thrift/arshal.go         | 13 +++++++++++--
 thrift/arshal_default.go | 18 ++++++++++++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/thrift/arshal.go b/thrift/arshal.go
index 42e7700..4a6e88d 100644
--- a/thrift/arshal.go
+++ b/thrift/arshal.go
@@ -8,7 +8,14 @@ import (
 	"github.com/itstarsun/go-thrift/encoding/thriftwire"
 )
 
-type marshalOptions struct{}
+// maxDepth is the maximum nesting depth of a value.
+const maxDepth = 10000
+
+var errMaxDepth = errors.New("exceeded max depth")
+
+type marshalOptions struct {
+	depth int // number of enclosing containers
+}
 
 // Marshal serializes a Go value into a [thriftwire.Writer].
 func Marshal(out thriftwire.Writer, in any) error {
@@ -37,7 +44,9 @@ func (mo marshalOptions) Marshal(out thriftwire.Writer, in any) error {
 	return fncs.marshal(out, va, mo)
 }
 
-type unmarshalOptions struct{}
+type unmarshalOptions struct {
+	depth int // number of enclosing containers
+}
 
 // Unmarshal deserializes a Go value from a [thriftwire.Reader].
 func Unmarshal(in thriftwire.Reader, out any) error {
diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index dc6854b..94aac96 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -267,6 +267,9 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 	}
 	fncs.wireType = thriftwire.Struct
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: thriftwire.Struct, GoType: t, Err: errMaxDepth}
+		}
 		once.Do(init)
 		if errInit != nil {
 			err := *errInit // shallow copy SemanticError
@@ -319,6 +322,9 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 		return nil
 	}
 	fncs.unmarshal = func(r thriftwire.Reader, va addressableValue, uo unmarshalOptions, wt thriftwire.Type) error {
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Struct, GoType: t, Err: errMaxDepth}
+		}
 		once.Do(init)
 		if errInit != nil {
 			err := *errInit // shallow copy SemanticError
@@ -401,6 +407,9 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 	valFncs := lookupArshaler(t.Elem())
 	fncs.wireType = thriftwire.Map
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t, Err: errMaxDepth}
+		}
 		if keyFncs.wireType == thriftwire.Stop || valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t}
 		}
@@ -436,6 +445,9 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		return nil
 	}
 	fncs.unmarshal = func(r thriftwire.Reader, va addressableValue, uo unmarshalOptions, wt thriftwire.Type) error {
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Map, GoType: t, Err: errMaxDepth}
+		}
 		if wt != thriftwire.Map {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
@@ -493,6 +505,9 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 	valFncs := lookupArshaler(t.Elem())
 	fncs.wireType = wireType
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t, Err: errMaxDepth}
+		}
 		if valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t}
 		}
@@ -519,6 +534,9 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		return nil
 	}
 	fncs.unmarshal = func(r thriftwire.Reader, va addressableValue, uo unmarshalOptions, wt thriftwire.Type) error {
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: wireType, GoType: t, Err: errMaxDepth}
+		}
 		if wt != wireType {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
-- 
2.43.0


From edce7aaeb5723e32343a2cc98f81947d7c55b93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 08/12] fix: thrift: support recursive Go types that are not
 structs

Looking up the arshaler of such a type, say type L []L, overflowed the stack,
which ends the process and cannot be recovered from.
---
 thrift/arshal_default.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index 94aac96..5737d4d 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -403,13 +403,21 @@ func (va addressableValue) indirect(mayAlloc bool) addressableValue {
 
 func makeMapArshaler(t reflect.Type) *arshaler {
 	var fncs arshaler
-	keyFncs := lookupArshaler(t.Key())
-	valFncs := lookupArshaler(t.Elem())
+	var (
+		once    sync.Once
+		keyFncs *arshaler
+		valFncs *arshaler
+	)
+	init := func() {
+		keyFncs = lookupArshaler(t.Key())
+		valFncs = lookupArshaler(t.Elem())
+	}
 	fncs.wireType = thriftwire.Map
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
 		if mo.depth++; mo.depth > maxDepth {
 			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t, Err: errMaxDepth}
 		}
+		once.Do(init)
 		if keyFncs.wireType == thriftwire.Stop || valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t}
 		}
@@ -448,6 +456,7 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		if uo.depth++; uo.depth > maxDepth {
 			return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Map, GoType: t, Err: errMaxDepth}
 		}
+		once.Do(init)
 		if wt != thriftwire.Map {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
@@ -502,12 +511,19 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 	readEnd func(thriftwire.Reader) error,
 ) *arshaler {
 	var fncs arshaler
-	valFncs := lookupArshaler(t.Elem())
+	var (
+		once    sync.Once
+		valFncs *arshaler
+	)
+	init := func() {
+		valFncs = lookupArshaler(t.Elem())
+	}
 	fncs.wireType = wireType
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
 		if mo.depth++; mo.depth > maxDepth {
 			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t, Err: errMaxDepth}
 		}
+		once.Do(init)
 		if valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t}
 		}
@@ -537,6 +553,7 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		if uo.depth++; uo.depth > maxDepth {
 			return &SemanticError{action: "unmarshal", ThriftType: wireType, GoType: t, Err: errMaxDepth}
 		}
+		once.Do(init)
 		if wt != wireType {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
@@ -613,6 +630,15 @@ func makeListArshaler(t reflect.Type) *arshaler {
 }
 
 func makePointerArshaler(t reflect.Type) *arshaler {
+	// Reject pointer types that only ever lead to other pointer types.
+	seen := map[reflect.Type]bool{t: true}
+	for e := t.Elem(); e.Kind() == reflect.Pointer; e = e.Elem() {
+		if seen[e] {
+			return makeInvalidArshaler(t)
+		}
+		seen[e] = true
+	}
+
 	var fncs arshaler
 	valFncs := lookupArshaler(t.Elem())
 	fncs.wireType = valFncs.wireType
-- 
2.43.0


From e8b4886265e812c943daf9ade98b2cd6d0f3fd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 09/12] fix: thrift: reject Go structs with duplicate field IDs

Such structs were written with the ID repeated, and reading them back silently
lost all but one of the fields.
---
 thrift/fields.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thrift/fields.go b/thrift/fields.go
index e67ecec..c19c388 100644
--- a/thrift/fields.go
+++ b/thrift/fields.go
@@ -93,6 +93,10 @@ func makeStructFields(t reflect.Type) (structFields, *SemanticError) {
 	}
 	for i := range fs.sorted {
 		f := &fs.sorted[i]
+		if prev, ok := fs.byID[f.id]; ok {
+			err := fmt.Errorf("Go struct fields %s and %s conflict over field ID %d", prev.name, f.name, f.id)
+			return structFields{}, &SemanticError{GoType: t, Err: err}
+		}
 		fs.byID[f.id] = f
 	}
 
-- 
2.43.0


From 5499881429b9e0fcf691a431fa3f1ddc3a326d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 10/12] fix: thriftfile: limit the nesting depth of types and
 values

A few megabytes of opening brackets overflowed the stack, which ends the
process and cannot be recovered from.
---
 tools/thriftfile/parser.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/tools/thriftfile/parser.go b/tools/thriftfile/parser.go
index 47ad980..7d3ed37 100644
--- a/tools/thriftfile/parser.go
+++ b/tools/thriftfile/parser.go
@@ -75,9 +75,13 @@ func (p errors_) Error() string {
 	return fmt.Sprintf("%s (and %d more errors)", p[0], len(p)-1)
 }
 
+// maxDepth is the maximum nesting depth of types and values.
+const maxDepth = 10000
+
 type parser struct {
 	scanner
-	errs errors_
+	errs  errors_
+	depth int // number of enclosing types and values
 }
 
 func (p *parser) init(fset *gotoken.FileSet, filename string, src []byte) {
@@ -229,6 +233,7 @@ type badDef struct{}
 
 func (p *parser) def() (d Def) {
 	pos := p.pos
+	p.depth = 0
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(badDef); !ok {
@@ -400,7 +405,20 @@ func (p *parser) methods() *MethodList {
 	return &x
 }
 
+func (p *parser) nest() {
+	if p.depth++; p.depth > maxDepth {
+		p.error(p.pos, "exceeded max nesting depth")
+		panic(badDef{})
+	}
+}
+
+func (p *parser) unnest() {
+	p.depth--
+}
+
 func (p *parser) type_() Type {
+	p.nest()
+	defer p.unnest()
 	switch p.tok {
 	case _MAP:
 		return p.map_()
@@ -456,6 +474,8 @@ func (p *parser) list_() *List {
 }
 
 func (p *parser) value() Value {
+	p.nest()
+	defer p.unnest()
 	switch p.tok {
 	case _IDENT:
 		return p.ident()
-- 
2.43.0


From 7325c781e1a5ba37edcd9e262cbc4eeb3adb23c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 11/12] fix: thriftmemo: keep written bytes and append read
 ones to the given buffer

WriteBytes kept the caller's slice, so that using the buffer again changed
what had been recorded, and ReadBytes ignored the buffer it should append to
and returned the recorded slice itself.
---
 internal/thriftmemo/memogen.go | 10 ++++++++--
 internal/thriftmemo/zmemo.go   |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/thriftmemo/memogen.go b/internal/thriftmemo/memogen.go
index 0c27b2f..5b52691 100644
--- a/internal/thriftmemo/memogen.go
+++ b/internal/thriftmemo/memogen.go
@@ -97,9 +97,13 @@ func (g *generator) generateReader() {
 		g.printf("{\n")
 		if step, ok := strings.CutPrefix(m.Name, "Read"); ok {
 			g.generateAdvance(m)
-			if step == "UUID" {
+			switch step {
+			case "UUID":
 				g.printf("m.memo().read(%q, i0)\n", step)
-			} else {
+			case "Bytes":
+				g.printf("m.memo().read(%q, &o0)\n", step)
+				g.printf("o0 = append(i0, o0...)\n")
+			default:
 				g.printf("m.memo().read(%q", step)
 				for i := 0; i < m.Type.NumOut()-1; i++ {
 					g.printf(", &o%d", i)
@@ -140,6 +144,8 @@ func (g *generator) generateWriter() {
 				g.printf("m.memo().write(%q)\n", step)
 			} else if step == "UUID" {
 				g.printf("m.memo().write(%q, *i0)\n", step)
+			} else if step == "Bytes" {
+				g.printf("m.memo().write(%q, append([]byte(nil), i0...))\n", step)
 			} else {
 				g.printf("m.memo().write(%q", step)
 				for i, j := 0, m.Type.NumIn(); i < j; i++ {
diff --git a/internal/thriftmemo/zmemo.go b/internal/thriftmemo/zmemo.go
index d044ed3..08f06b9 100644
--- a/internal/thriftmemo/zmemo.go
+++ b/internal/thriftmemo/zmemo.go
@@ -29,6 +29,7 @@ func (m *memoReader) ReadBytes(i0 []byte) (o0 []byte, o1 error) {
 		return
 	}
 	m.memo().read("Bytes", &o0)
+	o0 = append(i0, o0...)
 	return
 }
 
@@ -226,7 +227,7 @@ func (m *memoWriter) WriteBytes(i0 []byte) (o0 error) {
 	if o0 = m.advance(); o0 != nil {
 		return
 	}
-	m.memo().write("Bytes", i0)
+	m.memo().write("Bytes", append([]byte(nil), i0...))
 	return
 }
 
-- 
2.43.0


From cbcd1aa6a11a508e5e85a119531176f2655ac3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:33 +0000
Subject: [PATCH 12/12] fix: thriftcompact: write message IDs as 32-bit varints

A negative ID was sign-extended to 64 bits and written as ten bytes, which
readers that take a 32-bit varint decode to another ID.
---
 encoding/thriftcompact/thriftcompact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 2cef478..2553ec4 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -312,7 +312,7 @@ func (x *writer) WriteMessageBegin(h thriftwire.MessageHeader) (err error) {
 	if err != nil {
 		return err
 	}
-	err = x.writeUvarint(uint64(h.ID))
+	err = x.writeUvarint(uint64(uint32(h.ID)))
 	if err != nil {
 		return err
 	}
-- 
2.43.0

