package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"time"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// ---------------------------------------------------------- a connection

// Duplex connects two parties by byte queues; it notices when everyone still
// working waits for bytes.
type Duplex struct {
	mu      sync.Mutex
	cond    *sync.Cond
	q       [2][]byte // to party 0, 1
	waiting [2]int
	live    int
	stalled bool
	rnd     *rand.Rand
}

var errStall = errors.New("everybody waits")

func newDuplex(seed int64) *Duplex {
	d := &Duplex{rnd: rand.New(rand.NewSource(seed))}
	d.cond = sync.NewCond(&d.mu)
	return d
}

// check is called with the lock held.
func (d *Duplex) check() {
	n := 0
	for p := range d.q {
		if len(d.q[p]) == 0 {
			n += d.waiting[p]
		}
	}
	if n == d.live && n > 0 {
		d.stalled = true
		d.cond.Broadcast()
	}
}

func (d *Duplex) done() {
	d.mu.Lock()
	d.live--
	d.check()
	d.mu.Unlock()
}

type conn struct {
	d    *Duplex
	p    int
	size int // most bytes of a Read, drawn up to it; 0 everything
}

func (c *conn) Write(b []byte) (int, error) {
	d := c.d
	d.mu.Lock()
	d.q[1-c.p] = append(d.q[1-c.p], b...)
	d.cond.Broadcast()
	d.mu.Unlock()
	return len(b), nil
}

func (c *conn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	d := c.d
	d.mu.Lock()
	defer d.mu.Unlock()
	d.waiting[c.p]++
	d.check()
	for len(d.q[c.p]) == 0 && !d.stalled {
		d.cond.Wait()
	}
	d.waiting[c.p]--
	if len(d.q[c.p]) == 0 {
		return 0, errStall
	}
	n := min(len(b), len(d.q[c.p]))
	if c.size > 0 {
		n = min(n, d.rnd.Intn(c.size)+1)
	}
	copy(b, d.q[c.p][:n])
	d.q[c.p] = d.q[c.p][n:]
	return n, nil
}

// -------------------------------------------------------------- messages

// readV reads a value into a tree.
func readV(r thriftwire.Reader, t byte, depth int) (*V, error) {
	v := &V{T: t}
	if depth > 200 {
		return v, errors.New("too deep")
	}
	kids := func(n int, ts ...byte) error {
		for i := 0; i < n; i++ {
			for _, t := range ts {
				k, err := readV(r, t, depth+1)
				if err != nil {
					return err
				}
				v.Kids = append(v.Kids, k)
			}
		}
		return nil
	}
	switch t {
	case tBool:
		b, err := r.ReadBool()
		v.N = uint64(b01(b))
		return v, err
	case tByte:
		b, err := r.ReadByte()
		v.N = uint64(b)
		return v, err
	case tDouble:
		f, err := r.ReadDouble()
		v.N = math.Float64bits(f)
		return v, err
	case tI16:
		n, err := r.ReadI16()
		v.N = uint64(uint16(n))
		return v, err
	case tI32:
		n, err := r.ReadI32()
		v.N = uint64(uint32(n))
		return v, err
	case tI64:
		n, err := r.ReadI64()
		v.N = uint64(n)
		return v, err
	case tString:
		s, err := r.ReadString()
		v.B = []byte(s)
		return v, err
	case tUUID:
		var u [16]byte
		err := r.ReadUUID(&u)
		v.B = u[:]
		return v, err
	case tStruct:
		if _, err := r.ReadStructBegin(); err != nil {
			return v, err
		}
		for {
			h, err := r.ReadFieldBegin()
			if err != nil {
				return v, err
			}
			if h.Type == 0 {
				break
			}
			f, err := readV(r, byte(h.Type), depth+1)
			if err != nil {
				return v, err
			}
			v.Fs = append(v.Fs, F{h.ID, f})
			if err := r.ReadFieldEnd(); err != nil {
				return v, err
			}
		}
		return v, r.ReadStructEnd()
	case tMap:
		h, err := r.ReadMapBegin()
		if err != nil {
			return v, err
		}
		v.K, v.E = byte(h.Key), byte(h.Value)
		if err := kids(h.Size, v.K, v.E); err != nil {
			return v, err
		}
		return v, r.ReadMapEnd()
	case tSet:
		h, err := r.ReadSetBegin()
		if err != nil {
			return v, err
		}
		v.E = byte(h.Element)
		if err := kids(h.Size, v.E); err != nil {
			return v, err
		}
		return v, r.ReadSetEnd()
	case tList:
		h, err := r.ReadListBegin()
		if err != nil {
			return v, err
		}
		v.E = byte(h.Element)
		if err := kids(h.Size, v.E); err != nil {
			return v, err
		}
		return v, r.ReadListEnd()
	}
	return v, fmt.Errorf("type %d", t)
}

// text is a value as it has to arrive.
func (v *V) text(b []byte) []byte {
	n := v.N
	switch v.T {
	case tBool:
		n = uint64(b01(n != 0))
	case tByte:
		n &= 0xff
	case tI16:
		n &= 0xffff
	case tI32:
		n &= 0xffffffff
	}
	b = fmt.Appendf(b, "%d:%x:%x", v.T, n, v.B)
	if len(v.Kids) > 0 {
		b = fmt.Appendf(b, "<%d,%d>", v.K, v.E)
	}
	for _, f := range v.Fs {
		b = fmt.Appendf(b, "{%d ", f.ID)
		b = f.V.text(b)
	}
	for _, k := range v.Kids {
		b = append(b, '[')
		b = k.text(b)
	}
	return append(b, ';')
}

func (m Msg) text() string {
	return m.head() + string(m.Body.text(nil))
}
func (m Msg) head() string { return fmt.Sprintf("%q %d %d ", m.Name, m.Type, m.ID) }

// callArgs is a body that is marshaled.
type callArgs struct {
	A int32             `thrift:"1,required"`
	B bool              `thrift:"2"`
	S string            `thrift:"3"`
	L []int64           `thrift:"5"`
	M map[string]string `thrift:"4"`
	T *Point            `thrift:"40"`
	D float64           `thrift:"-3"`
}

func (a callArgs) text() string {
	t := "nil"
	if a.T != nil {
		t = fmt.Sprint(*a.T)
	}
	return fmt.Sprintf("%d %t %x %v %q %s %v", a.A, a.B, a.S, append([]int64{}, a.L...), a.M, t, a.D)
}

func (g *G) args() callArgs {
	a := callArgs{A: int32(g.bits()), B: g.one(2), S: string(g.str()), D: float64(g.Intn(9)) / 4}
	for i := g.Intn(5); i > 0; i-- {
		a.L = append(a.L, int64(g.bits()))
	}
	if g.one(2) {
		a.M = map[string]string{"a": string(g.str()), string(g.str()): "b"}
	}
	if g.one(2) {
		a.T = &Point{int32(g.bits()), g.one(2)}
	}
	return a
}

// body is what a message carries: a tree or arguments; both or one side may
// use Marshal.
type body struct {
	m    Msg
	args *callArgs
	skip bool // the receiver skips the body
}

func (x *X) body() *body {
	b := &body{m: x.msg()}
	if x.one(3) {
		a := x.args()
		b.args, b.m.Body = &a, nil
	}
	b.skip = x.one(6)
	return b
}

func (b *body) text() string {
	switch {
	case b.skip:
		return b.m.head()
	case b.args != nil:
		return b.m.head() + b.args.text()
	}
	return b.m.text()
}

func (b *body) write(w thriftwire.Writer) error {
	if b.args == nil {
		return emitMsg(w, b.m)
	}
	if err := w.WriteMessageBegin(thriftwire.MessageHeader{Name: b.m.Name, Type: thriftwire.MessageType(b.m.Type), ID: b.m.ID}); err != nil {
		return err
	}
	if err := thrift.Marshal(w, b.args); err != nil {
		return err
	}
	return w.WriteMessageEnd()
}

// read reads a message as b tells how, and returns its text.
func (b *body) read(r thriftwire.Reader) (string, error) {
	h, err := r.ReadMessageBegin()
	if err != nil {
		return "", err
	}
	s := Msg{Name: h.Name, Type: byte(h.Type), ID: h.ID}.head()
	switch {
	case b.skip:
		err = thriftwire.Skip(r, thriftwire.Struct)
	case b.args != nil:
		var a callArgs
		err = thrift.Unmarshal(r, &a)
		s += a.text()
	default:
		var v *V
		v, err = readV(r, tStruct, 0)
		if err == nil {
			s += string(v.text(nil))
		}
	}
	if err == nil {
		err = r.ReadMessageEnd()
	}
	return s, err
}

// -------------------------------------------------------------- sessions

// Session is the log that all parties share.
type Session struct {
	mu   sync.Mutex
	t    *Trace
	over bool
}

func (s *Session) log(e Ev) {
	s.mu.Lock()
	if !s.over {
		s.t.add(e)
		switch e["c"] {
		case "Stall", "Error", "Panic":
			s.over = true
		}
	}
	s.mu.Unlock()
}

func (s *Session) fail(p int, err error) {
	var ne net.Error
	if errors.Is(err, errStall) || errors.As(err, &ne) && ne.Timeout() {
		s.log(Ev{"c": "Stall", "p": p})
		return
	}
	s.log(Ev{"c": "Error", "p": p, "what": clip(fmt.Sprint(err), 200)})
}

// part runs f as one party; a panic of the code under test is recorded.
func (s *Session) part(p int, f func() error) {
	defer func() {
		if e := recover(); e != nil {
			s.log(Ev{"c": "Panic", "p": p, "what": clip(fmt.Sprint(e), 200)})
		}
	}()
	if err := f(); err != nil {
		s.fail(p, err)
	}
}

func (s *Session) send(p int, w thriftwire.Writer, b *body) error {
	s.log(Ev{"c": "Send", "p": p, "m": b.text()})
	return b.write(w)
}
func (s *Session) flush(p int, w thriftwire.Writer) error {
	s.log(Ev{"c": "Flush", "p": p})
	return w.Flush()
}
func (s *Session) recv(p int, r thriftwire.Reader, b *body) error {
	m, err := b.read(r)
	if err != nil {
		return err
	}
	s.log(Ev{"c": "Recv", "p": p, "m": m, "e": 0})
	return nil
}

type script struct{ S []int }

// follow plays one party of a script.
func (s *Session) follow(p int, sc []int, bodies []*body, w thriftwire.Writer, r thriftwire.Reader, eager int64) error {
	rnd := rand.New(rand.NewSource(eager))
	kept := false
	for i, q := range sc {
		if rnd.Intn(3) == 0 {
			runtime.Gosched()
		}
		if q == p {
			if err := s.send(p, w, bodies[i]); err != nil {
				return err
			}
			kept = true
			if eager%3 == 0 || eager%3 == 1 && rnd.Intn(2) == 0 {
				kept = false
				if err := s.flush(p, w); err != nil {
					return err
				}
			}
			continue
		}
		if kept {
			kept = false
			if err := s.flush(p, w); err != nil {
				return err
			}
		}
		if err := s.recv(p, r, bodies[i]); err != nil {
			return err
		}
	}
	return s.flush(p, w)
}

func (x *X) session() *Session {
	s := &Session{t: x.trace("Session", map[string]any{})}
	s.log(Ev{"c": "New"})
	return s
}

// sessionScripts: generated scripts, a few one after another over the same
// readers and writers.
func sessionScripts(x *X) {
	lines := genLines(x, "scripts")
	for k := 0; k < 4; k++ {
		s := x.session()
		pr := protocol(protos[(x.Idx+k)%3])
		x.big = x.pick(0, 0, 40)
		d := newDuplex(x.Int63())
		var w [2]thriftwire.Writer
		var r [2]thriftwire.Reader
		var all []int
		for n := x.Intn(4) + 1; n > 0; n-- {
			var sc script
			if err := json.Unmarshal(lines[(x.Idx*4+k+n*97)%len(lines)], &sc); err != nil {
				panic(err)
			}
			all = append(all, sc.S...)
		}
		bodies := make([]*body, len(all))
		for i := range bodies {
			bodies[i] = x.body()
		}
		size := x.pick(0, 0, 1, 3, 50, 4096)
		d.live = 2
		var wg sync.WaitGroup
		for p := 0; p < 2; p++ {
			c := &conn{d, p, size}
			w[p], r[p] = pr.NewWriter(c), pr.NewReader(c)
			eager := x.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer d.done()
				s.part(p+1, func() error { return s.follow(p+1, all, bodies, w[p], r[p], eager) })
			}()
		}
		wg.Wait()
		d.stalled = true
		s.log(Ev{"c": "End", "left": len(d.q[0]) + len(d.q[1]) + max(0, buffered(r[0])) + max(0, buffered(r[1]))})
	}
}

// buffered is how many bytes a reader has taken from its source too many: it
// tries to read on.
func buffered(r thriftwire.Reader) int {
	n := 0
	for {
		if _, err := r.ReadByte(); err != nil || n > 100 {
			return n
		}
		n++
	}
}

// sessionDuplex: each party sends and receives at the same time.
func sessionDuplex(x *X) {
	for k := 0; k < 2; k++ {
		s := x.session()
		pr := protocol(protos[(x.Idx+k)%3])
		d := newDuplex(x.Int63())
		size := x.pick(0, 0, 1, 7, 300)
		var bodies [2][]*body // sent by party 0, 1
		for p := range bodies {
			for i := x.Intn(12); i >= 0; i-- {
				bodies[p] = append(bodies[p], x.body())
			}
		}
		d.live = 4
		var wg sync.WaitGroup
		var r [2]thriftwire.Reader
		for p := 0; p < 2; p++ {
			c := &conn{d, p, size}
			w := pr.NewWriter(c)
			r[p] = pr.NewReader(c)
			seed := x.Int63()
			wg.Add(2)
			go func() {
				defer wg.Done()
				defer d.done()
				rnd := rand.New(rand.NewSource(seed))
				s.part(p+1, func() error {
					for _, b := range bodies[p] {
						if err := s.send(p+1, w, b); err != nil {
							return err
						}
						if rnd.Intn(3) == 0 {
							if err := s.flush(p+1, w); err != nil {
								return err
							}
						}
						runtime.Gosched()
					}
					return s.flush(p+1, w)
				})
			}()
			go func() {
				defer wg.Done()
				defer d.done()
				s.part(p+1, func() error {
					for _, b := range bodies[1-p] {
						if err := s.recv(p+1, r[p], b); err != nil {
							return err
						}
					}
					return nil
				})
			}()
		}
		wg.Wait()
		d.stalled = true
		s.log(Ev{"c": "End", "left": len(d.q[0]) + len(d.q[1]) + buffered(r[0]) + buffered(r[1])})
	}
}

// sessionNet: strict exchanges over a synchronous pipe or a real connection.
func sessionNet(x *X) {
	lines := genLines(x, "scripts")
	s := x.session()
	pr := protocol(protos[x.Idx%3])
	var c [2]net.Conn
	c[0], c[1] = net.Pipe()
	if x.Idx%2 == 1 {
		if l, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
			a, err := net.Dial("tcp", l.Addr().String())
			if err == nil {
				if b, err := l.Accept(); err == nil {
					c[0], c[1] = a, b
				}
			}
			l.Close()
		}
	}
	var sc script
	if err := json.Unmarshal(lines[(x.Idx*31)%len(lines)], &sc); err != nil {
		panic(err)
	}
	bodies := make([]*body, len(sc.S))
	for i := range bodies {
		bodies[i] = x.body()
	}
	var wg sync.WaitGroup
	for p := 0; p < 2; p++ {
		c[p].SetDeadline(time.Now().Add(25 * time.Second))
		w, r := pr.NewWriter(c[p]), pr.NewReader(c[p])
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.part(p+1, func() error {
				err := s.follow(p+1, sc.S, bodies, w, r, 0)
				if err != nil {
					c[p].Close() // so that the other one need not wait
				}
				return err
			})
		}()
	}
	wg.Wait()
	for p := range c {
		c[p].Close()
	}
	s.log(Ev{"c": "End", "left": 0})
}

// askDocs: everything available is read without asking for more.
func askDocs(p string, big int, skips bool) func(*X) {
	return func(x *X) {
		x.big = big
		t := x.wire(p)
		t.Body["ask"] = 1
		var data []byte
		var kinds []byte
		s := source(nil)
		for i := x.Intn(5) + 1; i > 0; i-- {
			b, k := x.doc(p, 1)
			data = append(data, b...)
			kinds = append(kinds, k...)
			s.stops = append(s.stops, len(data))
		}
		s.data = data
		if x.one(3) {
			x.plan(s)
			s.withData = false
		}
		r := newTR(x, t, protocol(p), s)
		w := &Walk{r: r, g: x.G, skips: skips, limit: 5000}
		w.all(kinds)
		r.end()
	}
}

func askEdges(p string) func(*X) {
	f := readEdges(p, true, false)
	return func(x *X) {
		f(x)
		x.traces[0].Body["ask"] = 1
	}
}

// askDeep: the same inside many structs.
func askDeep(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		t.Body["ask"] = 1
		e := &Enc{p: p, g: x.G}
		v, v2 := x.chain(x.pick(6, 10, 20, 40, 100)), x.chain(3)
		e.val(v, false)
		e.val(v2, false)
		s := source(e.b)
		switch x.Intn(3) {
		case 0:
			s.plan = []int{1}
		case 1:
			for k := 1 + x.Intn(3); k < len(e.b); k += 1 + x.Intn(3) {
				s.stops = append(s.stops, k)
			}
		default:
			x.plan(s)
			s.withData = false
		}
		r := newTR(x, t, protocol(p), s)
		w := &Walk{r: r, g: x.G, limit: 5000}
		w.all([]byte{v.T, v2.T})
		r.end()
	}
}

func askHuge(p string) func(*X) {
	return func(x *X) {
		t := x.wire(p)
		t.Body["ask"] = 1
		e := &Enc{p: p, g: x.G}
		s := source(nil)
		var kinds []byte
		for i := 0; i < 12; i++ {
			v := &V{T: tString, B: bigBody(x.pick(4096, 8192, 12288, 4097, 20, 5000) + x.Intn(9) - 4)}
			if x.one(4) {
				v = x.val(x.typ(1), 1)
			}
			e.val(v, false)
			kinds = append(kinds, v.T)
			s.stops = append(s.stops, len(e.b))
		}
		s.data = e.b
		r := newTR(x, t, protocol(p), s)
		w := &Walk{r: r, g: x.G, skips: true, limit: 5000}
		for _, k := range kinds {
			var err error
			if x.one(3) {
				err = r.skip(thriftwire.Type(k))
			} else {
				err = w.value(k, 0)
			}
			if err != nil {
				break
			}
		}
		r.end()
	}
}

var _ io.Writer = (*conn)(nil)

func init() {
	for _, p := range protos {
		register("C08", Class{"ask-" + p, 400, 4000, askDocs(p, 20, false)}, Class{"askskip-" + p, 300, 3000, askDocs(p, 20, true)},
			Class{"askedges-" + p, 13, 104, askEdges(p)}, Class{"askhuge-" + p, 8, 60, askHuge(p)},
			Class{"askdeep-" + p, 20, 300, askDeep(p)})
	}
	register("C08", Class{"scripts", 256, 2000, sessionScripts}, Class{"duplex", 200, 2000, sessionDuplex}, Class{"net", 30, 300, sessionNet})
}
