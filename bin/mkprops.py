#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties' text is kept)."""
import json, os
W="encoding/thriftwire/"; B="encoding/thriftbinary/thriftbinary.go"; C="encoding/thriftcompact/thriftcompact.go"
CT="encoding/thriftcompact/types.go"; A="thrift/arshal.go"; D="thrift/arshal_default.go"; F="thrift/fields.go"
P="tools/thriftfile/parser.go"; S="tools/thriftfile/scanner.go"; N="tools/thriftfile/nodes.go"
P_=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=()):
    P_.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))

p("C01","Binary writers emit exactly the Thrift Binary encoding",
 "For every well-formed sequence of writer calls on the strict or non-strict binary protocol, the bytes that reach the underlying writer once flushed are exactly those the Thrift Binary protocol prescribes: big-endian integers and doubles, 32-bit sizes, type and ID for a field, a stop byte ending each struct, and the strict or the older message envelope. This holds whatever the values, the nesting, the payload sizes, the number of messages and where buffers fill up; a size that does not fit 32 bits is refused with an error instead of being written truncated.",
 ["inputs","histories"],"every sequence of writer calls (values, nesting, sizes, several messages over one writer)",
 "The tests write a dozen fixed values and compare a writer only with the same library's reader, so an error made on both sides, or at an untested size or depth, passes.",
 [B,W+"types.go",W+"protocol.go"],[("writer","%s writer"%B)],["bytes at the io.Writer given to NewWriter"])
p("C02","Compact writers emit exactly the Thrift Compact encoding",
 "For every well-formed sequence of writer calls on the compact protocol, the bytes that reach the underlying writer once flushed are exactly those the Thrift Compact protocol prescribes: zigzag varints, little-endian doubles, a field header in the short form exactly when the ID is 1 to 15 above that of the previous field of the same struct, a boolean field folded into its header, container headers in the short form exactly for sizes 0 to 14, empty maps as one zero byte, and one or zero bytes for booleans in containers. This holds whatever the values, field ID orders, nesting depth, sizes and number of messages; the exported append functions for field, map, set and list headers produce the same bytes and stay within their documented maximum sizes.",
 ["inputs","histories"],"every sequence of writer calls, with any field IDs in any order at any nesting depth",
 "The tests cover ascending IDs in at most three nested structs of three fields and compare with the same library's reader only.",
 [C,CT,W+"types.go"],[("field ID stack and pending boolean field",C+" writer")],["bytes at the io.Writer given to NewWriter","AppendFieldHeader, AppendMapHeader, AppendSetHeader, AppendListHeader"],
 [("lastFieldIDs/lastFieldID","previous field ID of each open struct",C),("boolField","boolean field header not written yet",C)])
p("C03","Binary readers return exactly the encoded values",
 "For every byte stream that is well formed under the Thrift Binary protocol, the strict and non-strict binary readers' calls return exactly the headers and values encoded there, in order, consume exactly their bytes, and report no error; a nonzero byte reads as true. This holds for all values, nesting, sizes and any number of messages, and also when the string is appended to a buffer the caller provides, whose existing content stays.",
 ["inputs","histories"],"every well-formed binary stream, read with the matching calls",
 "The tests read back what the library's own writer produced for a dozen values.",
 [B,W+"bufio.go"],[("reader",B+" reader")],["results of the thriftwire.Reader methods"])
p("C04","Compact readers return exactly the encoded values in every legal form",
 "For every byte stream that is well formed under the Thrift Compact protocol, the compact reader's calls return exactly the headers and values encoded there, in order, consume exactly their bytes, and report no error. This includes forms this library's writer never produces: a long-form field header where the short form would do, a size of 0 to 14 in the long form, non-minimal varints, either boolean element type, and field IDs in any order at any nesting depth; a type code outside the protocol is an error.",
 ["inputs","histories"],"every well-formed compact stream, read with the matching calls",
 "The tests read back only what the library's own writer produced for a dozen values; alternative forms never occur.",
 [C,CT,W+"varint.go",W+"bufio.go"],[("field ID stack and pending boolean value",C+" reader")],["results of the thriftwire.Reader methods","ReadMapHeader, ReadSetHeader, ReadListHeader"],
 [("lastFieldIDs/lastFieldID","previous field ID of each open struct",C),("boolField","value of the boolean field whose header was read",C)])
p("C05","Message envelopes are recognised and reproduced exactly",
 "A message header with any name, any 32-bit ID and each of the four message types survives writing and reading unchanged with each protocol, including a non-strict binary reader over a strict writer and any protocol joined from one protocol's reader and another's writer. A strict binary reader refuses an envelope without version, every binary reader refuses a wrong version, and the compact reader refuses a wrong protocol ID or version, each with an error and before any header is returned as valid.",
 ["inputs","configurations"],"all names, IDs, types; every pairing of reader and writer protocol; every value of the version and protocol bytes",
 "The tests pair each protocol only with itself, with short ASCII names and small positive IDs; no bad envelope is ever read.",
 [B,C,W+"protocol.go",W+"types.go"],[("ReadMessageBegin/WriteMessageBegin",B),("ReadMessageBegin/WriteMessageBegin",C),("JoinProtocol",W+"protocol.go")],["ReadMessageBegin","bytes written by WriteMessageBegin"])
p("C06","Skipping a value consumes exactly that value",
 "Skipping a value of any Thrift type, however nested, consumes exactly the bytes of that value, so that whatever follows it, including later fields of the enclosing struct, is read as if the value had been read normally. It makes the calls a normal reading of the value makes, works for every protocol, and reports an error for a type that is no value type, also when that type is announced inside the stream.",
 ["inputs"],"every type and value, in every context (top level, struct field, container element), with every protocol",
 "The tests skip one flat value per type, and one fixed message per protocol case with nothing after it.",
 [W+"skip.go",B,C],[("Skip",W+"skip.go"),("SkipString, SkipUUID",B)],["reader position and later results after thriftwire.Skip"])
p("C07","Decoding does not depend on how the bytes are delivered",
 "What the binary and compact readers, Skip and Unmarshal return depends only on the bytes of the stream and not on how the source splits them over its Read calls: one byte at a time, across every boundary, several values at once, with interspersed empty reads, or with the final bytes arriving together with the end of the stream. Values larger than the reader's buffer, or ending exactly at its edge, are no exception.",
 ["schedules","inputs"],"every partition of a stream into Read results",
 "The tests read from a bytes.Buffer, which delivers everything at once.",
 [W+"bufio.go",W+"varint.go",B,C],[("Next, ReadString, ReadBytes, ReadUvarint, ReadVarint",W+"bufio.go")],["results of the thriftwire.Reader methods over a scripted io.Reader"])
p("C08","Request and response exchanges never stall or lose step",
 "A reader never asks its source for more bytes while the value it is decoding is completely available already, so a peer that flushes a message and waits for the answer always gets it. Over any connection and with every protocol, any number of calls and replies exchanged this way, in both directions over the same reader and writer, are delivered once each, in order and unchanged.",
 ["schedules","histories"],"every message sequence and every timing of the two sides over a connection",
 "The tests have no second party: whole messages are in memory with an end of stream after them, which hides any waiting for more.",
 [W+"varint.go",W+"bufio.go",B,C],[("Peek bounds in ReadUvarint and Next",W+"varint.go"),("Flush",B)],["Read calls on the source; progress of an exchange over a pipe"])
p("C09","Truncated or failing input is always reported",
 "If the stream ends or the source fails before the last byte of the value being read, the reading call, Skip, or Unmarshal returns an error and never reports success; every call whose bytes were all delivered before still succeeds. The error is the source's own error (reachable with errors.Is), or io.EOF or io.ErrUnexpectedEOF for a stream that ends, and it is io.EOF if it ends right before the first byte of a call.",
 ["fault_sequences","inputs"],"every stream, cut or failing at every offset, with every protocol",
 "The tests truncate only a plain string in the buffer helpers, at two offsets.",
 [W+"bufio.go",W+"varint.go",W+"skip.go",B,C,D],[("Next, ReadString, ReadBytes",W+"bufio.go"),("SkipString, SkipUUID, ReadUUID",B)],["errors of reader calls, Skip and Unmarshal"])
p("C10","Hostile input cannot crash, hang or exhaust memory",
 "Whatever bytes they are given, the readers, Skip and Unmarshal return in time proportional to the input without panicking, and the memory they allocate is bounded by a constant plus a multiple of the input actually delivered, regardless of the lengths, sizes and nesting the input claims. Input nested beyond the documented-in-code depth limit of 10000 is refused with an error instead of exhausting the stack, and values nested less deeply are still accepted.",
 ["inputs"],"every byte string, including every claimed length, size and nesting depth",
 "The tests feed only valid input.",
 [W+"bufio.go",W+"skip.go",B,C,A,D],[("incremental reading of long strings",W+"bufio.go"),("depth limits",W+"skip.go"),("incremental growth of lists",D)],["outcome, number of source reads, allocation, and process survival"])
p("C11","Flushing delivers everything once and write failures surface",
 "At any time the underlying writer has received a prefix of the bytes written so far, and after a successful Flush it has received all of them exactly once and in order, after which its own Flush method, if it has one, has been called and its error returned. If the underlying writer returns an error at any point, whether or not it accepted a part of the data, the error is returned by that writer call or by the next Flush at the latest, and no Flush reports success afterwards until Reset.",
 ["fault_sequences","histories"],"every sequence of writes, flushes and resets, with the underlying writer failing at any byte",
 "The tests write to a bytes.Buffer, which never fails and has no Flush.",
 [B,C,W+"protocol.go"],[("Flush",B),("Flush, ensureAvailable, appendWrite",C),("thriftwire.Flush",W+"protocol.go")],["writes and flushes received by a scripted io.Writer; returned errors"],
 [("uw/w","the underlying writer that Flush flushes",C)])
p("C12","A reset reader or writer behaves like a new one",
 "After Reset, whatever happened before (half-written or half-read structs, fields or messages, unflushed or unread data, an error), a reader or writer behaves exactly as a newly created one of the same protocol on the new stream. Nothing buffered before is delivered to, or read from, either stream afterwards.",
 ["histories","fault_sequences"],"every history of calls and failures before Reset, at any point of it",
 "The tests reset only after complete, successful messages.",
 [B,C],[("reader.Reset, writer.Reset",C),("writer.Reset and the embedded Reset",B)],["bytes and results after Reset compared with a fresh object"],
 [("lastFieldIDs, lastFieldID, boolField","state that Reset must clear",C)])
p("C13","Marshal emits exactly the event sequence of the value",
 "For every supported Go type and value, Marshal makes exactly the writer calls the value prescribes: properly nested begin and end calls, declared element types and sizes equal to what follows, struct fields in ascending ID order with the tagged ID, Go field name and type, a nil pointer as the zero value it stands for, every entry of a map once, and nothing else; the value itself is not changed. A struct field is left out exactly when it is not required and is zero, by its own IsZero method if the type has one and by Go's zero value otherwise.",
 ["inputs","programs"],"every supported Go type (including recursive and reflect-made ones) and every value of it",
 "The tests compare call names, not arguments, for twenty fixed values, with one map of two entries and one required field.",
 [A,D,F],[("makeDefaultArshaler and the marshal functions",D),("makeStructFields",F)],["calls received by a recording thriftwire.Writer"])
p("C14","Unmarshal interprets any well-formed stream by the Go type",
 "For every Go type and well-formed stream, Unmarshal assigns each value to the place its field ID, position or map key names, in whatever order fields come, skips fields whose ID the Go type does not have, and leaves fields that do not occur alone; integers keep their bits. A value whose Thrift type differs from the Go type's is refused with a SemanticError and never converted or assigned.",
 ["inputs","programs"],"every pair of Go type and stream, including streams written for another version of the type",
 "The tests unmarshal only what was marshaled from the same type, and do not look at the values.",
 [A,D,F,W+"skip.go"],[("unmarshal functions",D),("byID lookup and Skip of unknown fields",D)],["destination value and error after Unmarshal","calls received by a scripted thriftwire.Reader"])
p("C15","Unmarshal into a used destination leaves no stale data",
 "Unmarshal into a destination that already holds data replaces scalars, strings and byte slices, replaces a list or set with exactly the received elements, each decoded from zero, merges a received map into the existing entries key by key, merges a received struct into the existing fields, and decodes through non-nil pointers in place. Nothing of the previous content of a replaced part, of spare slice capacity, or of another entry or element shows in the result, and nothing that cannot be reached from the destination is changed.",
 ["histories","inputs"],"every previous content of the destination and every sequence of streams decoded into it",
 "The tests decode into a fresh value, or repeatedly into the same value from the same stream, without looking at it.",
 [D],[("clearing of reused list elements and map temporaries",D)],["destination value after Unmarshal"])
p("C16","Marshal then Unmarshal reproduces the value",
 "For every supported Go type and every value nested at most 10000 deep, marshaling it with any protocol and unmarshaling the bytes with that protocol into a fresh variable of the type gives back the same value, up to nil and empty containers being the same, a nil pointer becoming a pointer to zero where a value had to be written, fields that were omitted as zero coming back as zero, and the bits of a 32-bit NaN. The whole encoding is consumed, and what follows it is read correctly.",
 ["inputs","programs"],"every supported Go type and value, each protocol",
 "The tests compare re-encoded bytes for sixteen fixed values, excluding maps with several entries.",
 [A,D,F,B,C],[("arshalers over readers and writers",D)],["value after a round trip"])
p("C17","The first failing call stops Marshal and Unmarshal and is reported",
 "If any reader or writer call fails, Marshal or Unmarshal makes no further reader or writer call and returns an error from which the failing call's error is reachable with errors.Is. If none fails and types agree, it returns nil.",
 ["fault_sequences","inputs"],"every value or stream, failing at every single call",
 "The tests break twenty fixed flat values; maps, sets, nested containers and skipped fields are not all broken at every call.",
 [D,A,"thrift/errors.go",W+"skip.go"],[("error returns after each call",D),("SemanticError.Unwrap, wireError.Unwrap","thrift/errors.go")],["calls after the failing one; returned error"])
p("C18","Go types and field tags are accepted or refused consistently",
 "A struct's thrift tags are accepted exactly if each exported field's tag is `-` or a 16-bit decimal ID followed by comma-separated, distinct option names none of which is a misspelling of required, no unexported field has a tag other than `-`, no ID occurs twice, and not all fields lack exported names and tags; otherwise both Marshal and Unmarshal return a SemanticError before making any reader or writer call for the struct. Go kinds without a Thrift counterpart are refused with a SemanticError, and no Go type or value, recursive or cyclic ones included, makes the process crash or recurse without end.",
 ["inputs","programs"],"every tag string and every Go type",
 "The tests use five well-formed tags; no malformed tag and no unsupported or recursive non-struct type occurs.",
 [F,D,A],[("parseFieldOptions, makeStructFields",F),("makeInvalidArshaler",D),("depth limit",A)],["error of Marshal and Unmarshal, calls made"])
p("C19","Concurrent Marshal and Unmarshal equal sequential ones",
 "Any number of goroutines may marshal and unmarshal at the same time, with distinct readers, writers and destinations, values of the same or different types, including types never used before and types that refer to each other: every call returns what it returns when run alone, none deadlocks, and there is no data race. The same holds for a call made while another call of the same type is in progress in the same goroutine, as with nested values of one type.",
 ["schedules"],"every interleaving of first and later uses of types by any number of goroutines",
 "The tests are sequential.",
 [A,D],[("lookupArshalerCache",A),("sync.Once initialisation",D)],["results of concurrent calls; race reports"],
 [("lookupArshalerCache","per-type functions shared by all goroutines",A)])
p("C20","Parsing a valid document yields exactly its syntax tree",
 "For every document in the supported Thrift IDL grammar, Parse returns no error and a tree with exactly the headers, definitions, fields, methods, types, values, flags and annotations written there, in their order and with absent parts absent. The tree does not depend on white space, line endings, comments or optional separators.",
 ["inputs"],"every document of the grammar, in every layout",
 "The tests only check that 196 sample files parse without error and never look at the tree.",
 [P,N,S,"tools/thriftfile/tokens.go"],[("recursive descent parser",P)],["File returned by Parse"])
p("C21","Parsing an invalid document reports where it first goes wrong",
 "For every input that is not in the grammar, Parse returns an error, and the first reported position is that of the first token at which the text stops being the beginning of a valid document, or lies within that token if the token itself is malformed. Positions give the file name, the 1-based line, and the 1-based column in bytes; errors are reported in order of position.",
 ["inputs"],"every invalid document: any token in any wrong place, any lexical error, in any layout",
 "The sample files hold hardly any error; two dozen expected errors at most are compared, by line.",
 [P,S],[("want, errorExpected",P),("error positions, line table",S),("errors_.sort",P)],["error returned by Parse"])
p("C22","Parse returns for every input",
 "For any bytes whatsoever, Parse returns in time about proportional to the input, without panicking, with a non-nil tree, and every error position lies within the input. Nesting of types or values beyond 10000 is reported as an error instead of exhausting the stack, and up to that depth it is accepted.",
 ["inputs"],"every byte string and nesting depth",
 "The tests parse only well-formed sample files.",
 [P,S],[("progress of list and def loops, depth limit",P),("scanner.next",S)],["outcome of Parse"])
p("C23","One broken definition does not hide the others",
 "When a definition cannot be parsed because a type, a value or a definition is missing where one must be, the tree holds one placeholder for it, spanning from its first token to the next definition keyword or the end of the input, and all headers and definitions before it and after that keyword appear exactly as in a document without the broken part. This holds for any number of broken definitions, and an error is reported for each of them.",
 ["inputs"],"every document made of valid definitions and broken ones in any order",
 "The sample files contain at most one broken definition each, and the tree is not examined.",
 [P,N],[("recovery in def",P),("BadDef",N)],["File and error returned by Parse"])
p("C24","Tokens are split and kept exactly as written",
 "Every identifier, number and string literal is delivered in the tree with exactly the characters it has in the source (quotes, escapes, sign, base and exponent included), splitting the text into the longest possible tokens; keywords are recognised only as whole words. Comments of all three styles and a byte order mark at the start are ignored, while unknown escapes, line breaks in strings, unterminated strings and comments, illegal characters, NUL bytes, broken UTF-8 and a byte order mark elsewhere are reported.",
 ["inputs"],"every identifier, literal, comment and character sequence",
 "The tests print the tokens of the sample files and check only that there is no error.",
 [S,"tools/thriftfile/tokens.go","tools/thriftfile/token_string.go"],[("scanner",S)],["literal texts in the tree and errors returned by Parse"])
p("C25","A recording memo replays exactly what was written",
 "Whatever is written to a memo's writer is read from its reader step by step with the same values and headers, whatever happens to the caller's buffers afterwards, the step list names every write and then every read in order, and reading a step of another kind than the one written there panics. With breakpoint n, exactly the first n-1 steps of the writer and of the reader succeed and every later one returns ErrBreak without any effect; after Reset the memo is as new.",
 ["histories","inputs"],"every sequence of writer calls, then reader calls, with every breakpoint",
 "The tests replay eight scalar values and one struct; the breakpoint is used by other tests without checking the memo.",
 ["internal/thriftmemo/memo.go","internal/thriftmemo/zmemo.go","internal/thriftmemo/memogen.go"],[("read, write, advance","internal/thriftmemo/memo.go")],["results of the memo's Reader and Writer, Steps"])
p("C26","The buffered-read helpers return exactly the requested bytes",
 "Next, ReadString and ReadBytes return exactly the next n bytes for every n and buffer size they support and advance past exactly those; if the input ends or fails first they return the bytes there were together with the error, io.ErrUnexpectedEOF if the input ended after some but not all of them; ReadBytes leaves the content already in the buffer intact. ReadUvarint and ReadVarint return what encoding/binary returns for the same input, values and errors alike, and leave the reader at the same place.",
 ["inputs","schedules"],"every n, buffer size, content, delivery and point of failure",
 "The tests try two lengths around one buffer size and seven powers of two.",
 [W+"bufio.go",W+"varint.go"],[("Next, ReadString, ReadBytes",W+"bufio.go"),("ReadUvarint, ReadVarint",W+"varint.go")],["results of the exported helpers"])
p("C27","The protocol conformance suite accepts and rejects rightly",
 "The exported protocol test passes for every protocol that writes the same bytes for the same calls and gives back all values and message headers it was given, message names optionally left out, whether or not it supports UUIDs as declared. It fails for a protocol that, when writing or when reading, alters or refuses a boolean, integer, double, string, container, struct, message type, ID or (other than by leaving it out) name that the suite exercises, be it from the second message after a Reset on; that leaves bytes of a message unread; that never flushes; or that cannot skip a message it wrote. Exercised are both booleans, also inside sets, lists and maps, the extreme integers and doubles, empty and filled string maps, sets and lists, nested structs with strings and bytes, field IDs 0, 32 and 64, containers of 26 and 64 elements, and all four message types.",
 ["programs"],"every protocol implementation that is correct, and every one with one of these faults",
 "The suite is itself the test: it is only ever run on correct protocols, so that its failing is never observed.",
 ["testing/thrifttest/protocol.go"],[("TestProtocol","testing/thrifttest/protocol.go")],["result of the suite run on a given protocol"])
p("C28","Errors name what did not fit",
 "Every error by which Marshal or Unmarshal refuses a type or a value, or reports a protocol call that failed other than in skipping a field, is a SemanticError about the innermost value concerned: its GoType is that value's type (within pointers also that of a pointer to it; for a container whose elements' type has no counterpart, either type) and its ThriftType is what that value is read or written as, for a mismatch the type found in the input, and none where the Go type has no counterpart or the destination is not a non-nil pointer. For a struct type with bad tags it is that struct type, wherever it occurs, and the text names the field (for two fields with one ID, either); for values nested too deeply it is a type nested there, and the text says so. The text says which direction was going on, the Thrift type where there is one, the Go type and the underlying error, which is also reached by unwrapping. A type code that is none, given to a header writer or append function of the compact protocol or to Skip, is reported as an InvalidTypeError that carries and names it. Every code of a Thrift or message type, valid or not, is printed as what it is: a declared one by its name and any other by its number.",
 ["inputs","histories"],"every type, value, destination and input that is refused, and every protocol call that fails, at any nesting",
 "The tests compare a few error values with a nil one; none looks at which type an error names within a nested value.",
 ["thrift/errors.go",A,D,F,W+"types.go",W+"skip.go",CT],[("SemanticError","thrift/errors.go"),("InvalidTypeError",W+"types.go"),("Type.String",W+"type_string.go"),("MessageType.String",W+"messagetype_string.go")],["errors of thrift.Marshal, Unmarshal, thriftwire.Skip, thriftcompact.Append*"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P_:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P_))
