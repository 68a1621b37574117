package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strconv"
)

// B is written to traces as an array of numbers.
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, len(b)*4+2)
	out = append(out, '[')
	for i, c := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(c), 10)
	}
	return append(out, ']'), nil
}

// Ev is one event of a trace; "c" is its name.
type Ev map[string]any

// Trace is one recorded execution.
type Trace struct {
	Kind string // which trace specification judges it
	Tag  string // what it is about, if that is not clear from its number
	Body map[string]any
	Ev   []Ev
}

func (t *Trace) add(e Ev) Ev {
	t.Ev = append(t.Ev, e)
	return e
}

func (t *Trace) line(id string) []byte {
	m := map[string]any{"id": id, "ev": t.Ev}
	if t.Ev == nil {
		m["ev"] = []Ev{}
	}
	for k, v := range t.Body {
		m[k] = v
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}

// The injected errors have causes of their own, and are not them.
var (
	errFault = fmt.Errorf("injected fault: %w", errors.New("something broke"))
	errFlush = fmt.Errorf("injected flush fault: %w", fmt.Errorf("no space: %w", errors.New("disk full")))
)

// Error codes of the trace specifications.
const (
	eNone = iota
	eEOF
	eUnexpectedEOF
	eFault
	eOther
	eShortWrite
	eFlushFault
	eStall
)

func code(err error) int {
	switch {
	case err == nil:
		return eNone
	case errors.Is(err, errFault):
		return eFault
	case errors.Is(err, errFlush):
		return eFlushFault
	case errors.Is(err, io.ErrShortWrite):
		return eShortWrite
	case errors.Is(err, io.ErrNoProgress):
		return eStall
	case errors.Is(err, io.ErrUnexpectedEOF):
		return eUnexpectedEOF
	case errors.Is(err, io.EOF):
		return eEOF
	}
	return eOther
}

// abort ends a scenario early after a panic of the code under test.
type abort struct{}

// lib runs f, which calls the code under test; a panic of it is recorded.
func (t *Trace) lib(f func()) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(abort); ok {
				panic(p)
			}
			t.add(Ev{"c": "Panic", "msg": clip(fmt.Sprint(p), 200)})
			panic(abort{})
		}
	}()
	f()
}

func clip(s string, n int) string {
	if len(s) > n {
		s = s[:n]
	}
	return string(bytes.ToValidUTF8([]byte(s), []byte("?")))
}

func w2(v int16) B { return B{byte(uint16(v) >> 8), byte(v)} }
func w4(v int32) B {
	u := uint32(v)
	return B{byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)}
}
func w8(v uint64) B {
	return B{byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}
func b01(v bool) int {
	if v {
		return 1
	}
	return 0
}
