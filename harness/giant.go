package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// Payloads too large to be put into a trace: a Giant event has the bytes
// before the payload, its size, and whether the payload came through.

func giantByte(i int) byte { return byte(i*7 + i>>8 ^ i>>17) }

// giantSink keeps the first bytes, compares what follows with a giant
// payload and keeps what comes thereafter.
type giantSink struct {
	head       []byte
	tail       []byte
	need, size int
	n          int
	bad        bool
}

func (s *giantSink) Write(b []byte) (int, error) {
	for _, c := range b {
		switch i := s.n - s.need; {
		case i < 0:
			s.head = append(s.head, c)
		case i < s.size:
			s.bad = s.bad || c != giantByte(i)
		default:
			s.tail = append(s.tail, c)
		}
		s.n++
	}
	return len(b), nil
}

type giantSrc struct{ off, size int }

func (s *giantSrc) Read(b []byte) (int, error) {
	if s.off == s.size {
		return 0, io.EOF
	}
	n := min(len(b), s.size-s.off)
	for i := range b[:n] {
		b[i] = giantByte(s.off + i)
	}
	s.off += n
	return n, nil
}

func (x *X) giantSize() int {
	sizes := []int{1<<21 - 1, 1 << 21, 1<<21 + 1, 1<<20 + x.Intn(1<<20), 1<<22 + x.Intn(1<<22), 1 << 24}
	if x.Idx >= 2*len(sizes) {
		sizes = append(sizes, 1<<28-1, 1<<28, 1<<23+x.Intn(1<<23))
	}
	return sizes[x.Idx%len(sizes)]
}

var skipSizes = []int{1 << 21, 1<<24 - 50, 1 << 25, 1<<28 - 50, 1<<30 - 50, 1<<31 - 99}

// strHead is the size in front of a string.
func strHead(p string, n int) []byte {
	if p == "compact" {
		return binary.AppendUvarint(nil, uint64(n))
	}
	return binary.BigEndian.AppendUint32(nil, uint32(n))
}

func giantBody(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = giantByte(i)
	}
	return b
}

func isGiant[T []byte | string](v T, n int) bool {
	if len(v) != n {
		return false
	}
	for i := 0; i < n; i++ {
		if v[i] != giantByte(i) {
			return false
		}
	}
	return true
}

func writeGiant(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		n := x.giantSize()
		s := &giantSink{need: len(strHead(p, n)), size: n}
		var err error
		t.lib(func() {
			w := protocol(p).NewWriter(s)
			if x.one(2) {
				err = w.WriteBytes(giantBody(n))
			} else {
				err = w.WriteString(string(giantBody(n)))
			}
			err = errors.Join(err, w.WriteByte(0x5a), w.Flush())
		})
		t.add(Ev{"c": "Giant", "head": B(s.head), "s": w8(uint64(n)), "ok": b01(err == nil && !s.bad && s.n == s.need+n+1 && string(s.tail) == "\x5a")})
	}
}

// anyBytes delivers bytes of no interest, quickly.
type anyBytes struct{ n int }

func (s *anyBytes) Read(b []byte) (int, error) {
	if s.n == 0 {
		return 0, io.EOF
	}
	n := min(len(b), s.n)
	s.n -= n
	return n, nil
}

func readGiant(p string, skip bool) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		n := x.giantSize()
		if skip {
			n = skipSizes[x.Idx%len(skipSizes)] + x.Intn(100)
			if x.Idx < len(skipSizes) && n > 1<<31-1 {
				n = 1<<31 - 1
			}
		}
		head := strHead(p, n)
		var body io.Reader = &giantSrc{size: n}
		if skip {
			body = &anyBytes{n}
		}
		r := protocol(p).NewReader(io.MultiReader(bytes.NewReader(head), body, bytes.NewReader([]byte{0x5a, 0x5b})))
		var err error
		ok := true
		var c byte
		t.lib(func() {
			switch k := x.Intn(3); {
			case skip:
				err = thriftwire.Skip(r, thriftwire.String)
			case k == 0:
				var v string
				v, err = r.ReadString()
				ok = isGiant(v, n)
			default:
				pre := make([]byte, x.Intn(9), 9+x.Intn(1<<22))
				for i := range pre {
					pre[i] = byte(i + 1)
				}
				var v []byte
				v, err = r.ReadBytes(pre)
				ok = len(v) >= len(pre) && isGiant(v[len(pre):], n) && bytes.Equal(v[:len(pre)], pre)
			}
			if err == nil {
				c, err = r.ReadByte()
			}
		})
		t.add(Ev{"c": "Giant", "head": B(head), "s": w8(uint64(n)), "ok": b01(ok && err == nil && c == 0x5a)})
	}
}

func init() {
	for _, p := range protos {
		w, r := "C01", "C03"
		if p == "compact" {
			w, r = "C02", "C04"
		}
		register(w, Class{"giant-" + p, 6, 27, writeGiant(p)})
		register(r, Class{"giant-" + p, 6, 27, readGiant(p, false)})
		register("C06", Class{"giant-" + p, 6, 27, readGiant(p, true)})
	}
}
