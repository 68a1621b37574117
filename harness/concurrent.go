package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// Calls at the same time, and calls within calls (spec/Cache.tla).

// ------------------------------------------------------------ fresh types

// Types that refer to each other, anew for every X.
type (
	// GSelf
	gSelf[X any] []gSelf[X]
	// GTree: a struct, a pointer to it, and a leaf
	gTree[X any] struct {
		P *gTree[X] `thrift:"1"`
		Q gLeaf[X]  `thrift:"2,required"`
	}
	gLeaf[X any] struct{}
	// GMutual
	gMutA[X any] struct {
		B gMutB[X] `thrift:"1,required"`
	}
	gMutB[X any] struct {
		P *gMutA[X] `thrift:"1"`
	}
	// GWide
	gWide[X any] struct {
		M map[string]*gWide[X]      `thrift:"1"`
		L []gWide[X]                `thrift:"2"`
		S thrift.Set[*gOther[X]]    `thrift:"3"`
		O *gOther[X]                `thrift:"4,required"`
		N map[int8]map[int8]gOne[X] `thrift:"5"`
		V int32                     `thrift:"6"`
	}
	gOther[X any] struct {
		W **gWide[X]  `thrift:"1"`
		L [][]gOne[X] `thrift:"2,required"`
		T gTree[X]    `thrift:"3"`
		R gRec[X]     `thrift:"4"`
	}
	gOne[X any] struct {
		A string  `thrift:"2"`
		B ZSeven  `thrift:"1"`
		C *ZEmb   `thrift:"3"`
		D []byte  `thrift:"4"`
		E float32 `thrift:"5"`
	}
	gRec[X any] map[string]gRec[X]
	// A type with a field that cannot be.
	gBad[X any] struct {
		A *gBad[X] `thrift:"1"`
		B int32    `thrift:"1"`
	}
	gBad2[X any] struct {
		B int32      `thrift:"1"`
		A []gTree[X] `thrift:"2"`
		C gBad[X]    `thrift:"3,required"`
	}

	pair[X, Y any] struct{}
	p0             struct{}
	p1             struct{}
	p2             struct{}
	p3             struct{}
)

type family struct {
	self, tree, leaf, mutA, mutB, wide, other, one, rec, bad, bad2 reflect.Type
}

var families []family

func grow1[X any]() {
	families = append(families, family{typeOf[gSelf[X]](), typeOf[gTree[X]](), typeOf[gLeaf[X]](), typeOf[gMutA[X]](), typeOf[gMutB[X]](),
		typeOf[gWide[X]](), typeOf[gOther[X]](), typeOf[gOne[X]](), typeOf[gRec[X]](), typeOf[gBad[X]](), typeOf[gBad2[X]]()})
}
func grow2[X any]() {
	grow1[pair[X, p0]]()
	grow1[pair[X, p1]]()
	grow1[pair[X, p2]]()
	grow1[pair[X, p3]]()
}
func grow3[X any]() {
	grow2[pair[X, p0]]()
	grow2[pair[X, p1]]()
	grow2[pair[X, p2]]()
	grow2[pair[X, p3]]()
}
func grow4[X any]() {
	grow3[pair[X, p0]]()
	grow3[pair[X, p1]]()
	grow3[pair[X, p2]]()
	grow3[pair[X, p3]]()
}

func init() {
	grow4[p0]()
	grow4[p1]()
	grow4[p2]()
	grow4[p3]()
}

var used int // families used up by this process

func (x *X) family() family {
	used++
	return families[(used-1)%len(families)]
}

// freshStruct makes a struct type that was not used before; its fields refer
// to olds.
func (x *X) freshStruct(olds ...reflect.Type) reflect.Type {
	used++
	fs := []reflect.StructField{{Name: fmt.Sprintf("U%d", used), Type: zooScalars[x.Intn(len(zooScalars))], Tag: `thrift:"100,required"`}}
	for i, o := range olds {
		for k := 0; k < 1+x.Intn(2); k++ {
			ty := o
			switch x.Intn(6) {
			case 0:
				ty = reflect.PointerTo(o)
			case 1:
				ty = reflect.SliceOf(o)
			case 2:
				ty = reflect.MapOf(typeOf[int16](), o)
			case 3:
				ty = reflect.SliceOf(reflect.PointerTo(o))
			case 4:
				ty = reflect.MapOf(typeOf[string](), reflect.SliceOf(o))
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d_%d", i, k), Type: ty, Tag: reflect.StructTag(fmt.Sprintf(`thrift:"%d"`, i*2+k))})
		}
	}
	for i := 0; i < 2; i++ {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("G%d", i), Type: x.gotype(1), Tag: reflect.StructTag(fmt.Sprintf(`thrift:"%d"`, 200+i))})
	}
	return reflect.StructOf(fs)
}

// freshTypes are several types that refer to each other.
func (x *X) freshTypes() []reflect.Type {
	f := x.family()
	tys := []reflect.Type{f.self, f.tree, f.mutA, f.mutB, f.wide, f.other, f.one, f.rec}
	a := x.freshStruct(f.one, f.tree)
	b := x.freshStruct(a, f.wide)
	c := x.freshStruct(a, b)
	return append(tys, a, b, c, reflect.PointerTo(reflect.PointerTo(b)), reflect.MapOf(typeOf[string](), c), reflect.SliceOf(reflect.SliceOf(a)))
}

// ------------------------------------------------------------- goroutines

// together runs n functions in goroutines, each with an X of its own, and
// gathers their traces.  Their library calls may begin when wait returns.
func (x *X) together(n int, f func(k int, x *X, wait func())) {
	subs := make([]*X, n)
	var ready, done sync.WaitGroup
	gate := make(chan struct{})
	ready.Add(n)
	crash := make([]any, n)
	for k := range subs {
		subs[k] = &X{G: &G{Rand: rand.New(rand.NewSource(x.Int63()))}, Idx: x.Idx*n + k, N: x.N * n, gen: x.gen}
		done.Add(1)
		go func() {
			defer done.Done()
			waited := false
			wait := func() {
				if !waited {
					waited = true
					ready.Done()
					<-gate
				}
			}
			defer wait()
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(abort); !ok {
						crash[k] = fmt.Sprint(p, "\n", string(debug.Stack()))
					}
				}
			}()
			f(k, subs[k], wait)
		}()
	}
	ready.Wait()
	close(gate)
	done.Wait()
	for k, s := range subs {
		x.traces = append(x.traces, s.traces...)
		if crash[k] != nil {
			x.trace("Arsh", map[string]any{"ty": []TD{}}).add(Ev{"c": "Panic", "what": crash[k]})
		}
	}
}

// sway yields now and then, without any synchronisation.
func (g *G) sway(p int) func(int, Ev) {
	if p == 0 {
		return nil
	}
	return func(int, Ev) {
		if g.one(p) {
			runtime.Gosched()
		}
	}
}

// first: goroutines use fresh types at the same time.
func first(x *X) {
	tys := x.freshTypes()
	same := x.one(2)
	ty0 := tys[x.Intn(len(tys))]
	n := x.pick(4, 8, 8, 12)
	how := x.Intn(3)
	x.together(n, func(k int, x *X, wait func()) {
		t := x.arsh()
		t.start = wait
		for i := 0; i < 2; i++ {
			ty := ty0
			if !same || i > 0 {
				ty = tys[x.Intn(len(tys))]
			}
			if how == 0 || how == 2 && x.one(2) {
				in := x.govalue(ty)
				c := &CW{limit: 5000, hook: x.sway(x.pick(0, 3, 10))}
				if x.one(3) {
					c.w = protocol(protos[x.Intn(3)]).NewWriter(io.Discard)
				}
				t.marshal(c, in.Interface())
				continue
			}
			x.budget = 25
			f := &Fit{G: x.G, foreign: 8}
			if x.one(5) {
				f.wrong = 10
			}
			t.unmarshal(&CR{r: play(f.val(ty, 5, false)), limit: 5000, hook: x.sway(x.pick(0, 3, 10))}, reflect.New(ty))
		}
	})
}

// later: all kinds of calls at the same time, on types used already.
func later(x *X) {
	ty := zooStructs[x.Intn(len(zooStructs))]
	tys := []reflect.Type{ty, ty, ty, typeOf[Zeros](), typeOf[Maps](), typeOf[Tree](), x.gotype(3)}
	{
		t := x.arsh()
		for _, ty := range tys {
			t.marshal(&CW{limit: 5000}, reflect.New(ty).Interface())
		}
	}
	ds := x.one(2)
	x.together(8, func(k int, x *X, wait func()) {
		t := x.arsh()
		t.start = wait
		for i := 0; i < 3; i++ {
			ty := tys[x.Intn(len(tys))]
			x.budget = 25
			f := &Fit{G: x.G, foreign: 5}
			if x.one(5) {
				f.wrong = 10
			}
			switch x.Intn(5) {
			case 0, 1:
				c := &CW{limit: 5000, hook: x.sway(10)}
				if x.one(5) {
					c.failAt, c.err = x.Intn(15)+1, faultErrs[x.Intn(len(faultErrs))]
				}
				t.marshal(c, x.govalue(ty).Interface())
			case 2, 3:
				dst := reflect.New(ty)
				if ds {
					dst = x.govalue(ty)
				}
				r := &CR{r: play(f.val(ty, 5, false)), limit: 5000, hook: x.sway(10)}
				if x.one(5) {
					r.failAt, r.err = x.Intn(15)+1, faultErrs[x.Intn(len(faultErrs))]
				}
				t.unmarshal(r, dst)
			case 4:
				v := f.val(ty, 5, false)
				if v.T != tStop {
					t.skip(&CR{r: play(v), limit: 5000, hook: x.sway(10)}, v.T)
				}
			}
		}
	})
}

// mixed: what other checks do, all at once.
func mixed(x *X) {
	fs := []func(*X){roundTrip, roundTrip, roundOnly, marshalAny, unmarshalUsed, unmarshalVersions, faultMarshal, faultUnmarshal, usedShapes, marshalFlags,
		marshalBad, idlValid, idlEdited, idlRecovery}
	x.together(6, func(k int, x *X, wait func()) {
		wait()
		f := fs[x.Intn(len(fs))]
		if k < 2 && x.one(2) {
			f = roundOnly
		}
		f(x)
	})
}

// wires: readers and writers at work, each with one of its own.
func wires(x *X) {
	var fs []func(*X)
	for _, p := range protos {
		fs = append(fs, readDocs(p, 60, true, true), writeDocs(p, 60), skipVals(p), badMsgs(p), resetReader(p), resetWriter(p), sinkFaults(p), flaky(p), cuts(p), longStrings(p))
	}
	fs = append(fs, roundMsgs, roundMsgs, roundMsgs, helperHeaders, readHelpers)
	same := x.Intn(2 * len(fs))
	x.together(6, func(k int, x *X, wait func()) {
		wait()
		for i := 0; i < 3; i++ {
			if same < len(fs) {
				fs[same](x)
			} else {
				fs[x.Intn(len(fs))](x)
			}
		}
	})
}

// shared: one value marshalled by several goroutines.
func shared(x *X) {
	var ty reflect.Type
	switch x.Intn(3) {
	case 0:
		ty = zooStructs[x.Intn(len(zooStructs))]
	case 1:
		tys := x.freshTypes()
		ty = tys[x.Intn(len(tys))]
	default:
		ty = x.gotype(3)
	}
	in := x.govalue(ty)
	n := x.pick(2, 4, 8)
	byValue := x.one(4) && ty.Kind() != reflect.Pointer
	x.together(n, func(k int, x *X, wait func()) {
		t := x.arsh()
		t.start = wait
		c := &CW{limit: 5000, hook: x.sway(x.pick(0, 2, 10))}
		if x.one(2) {
			c.w = protocol(protos[x.Intn(3)]).NewWriter(io.Discard)
		}
		if byValue {
			t.marshal(c, in.Elem().Interface())
		} else {
			t.marshal(c, in.Interface())
		}
	})
}

// pipe: one goroutine reads what another one writes, step by step.
func pipe(x *X) {
	var ty reflect.Type
	if x.one(2) {
		ty = zooStructs[x.Intn(len(zooStructs))]
	} else {
		tys := x.freshTypes()
		ty = tys[x.Intn(len(tys))]
	}
	pr := protocol(protos[x.Idx%3])
	in := x.govalue(ty)
	pairs := x.pick(1, 1, 2, 4)
	rs, ws := make([]*io.PipeReader, pairs), make([]*io.PipeWriter, pairs)
	for k := range rs {
		rs[k], ws[k] = io.Pipe()
	}
	outs := make([]reflect.Value, pairs)
	errs := make([]error, pairs)
	flushes := x.one(2)
	x.together(2*pairs, func(k int, x *X, wait func()) {
		t := x.arsh()
		t.start = wait
		if k%2 == 0 {
			defer ws[k/2].Close()
			w := pr.NewWriter(ws[k/2])
			c := &CW{w: w, limit: 5000}
			if flushes {
				c.hook = func(int, Ev) { w.Flush() }
			}
			if t.marshal(c, in.Interface()) == nil {
				w.Flush()
			}
			return
		}
		defer rs[k/2].Close()
		outs[k/2] = reflect.New(ty)
		errs[k/2] = t.unmarshal(&CR{r: pr.NewReader(rs[k/2]), limit: 5000}, outs[k/2])
	})
	t := x.arsh()
	ti := t.tb.of(ty)
	for k := range outs {
		if outs[k].IsValid() {
			t.add(Ev{"c": "Round", "e": code(errs[k]), "t": ti, "v": t.tb.render(ti, in.Elem(), nil, false), "out": t.tb.render(ti, outs[k].Elem(), nil, false)})
		}
	}
	t.types()
}

// ---------------------------------------------------------- calls within calls

// ZRe is marshalled by its own IsZero.
type ZRe struct {
	A int32          `thrift:"1"`
	N *ZRe           `thrift:"2"`
	M map[string]ZRe `thrift:"3"`
	L []ZRe          `thrift:"4"`
}

var zreBad, zreBusy atomic.Int32

// IsZero uses the library itself.
func (z ZRe) IsZero() bool {
	if zreBusy.Load() == 1 && z.A != 7 {
		w := &textW{}
		err := thrift.Marshal(w, ZRe{A: 7, M: map[string]ZRe{"k": {}}})
		var back ZRe
		if err == nil {
			err = thrift.Unmarshal(text{}.NewReader(bytes.NewReader(w.out)), &back)
		}
		if err != nil || back.A != 7 || len(back.M) != 1 || back.N != nil || back.L != nil {
			zreBad.Store(1)
		}
	}
	return z.A == 0
}

// within: calls made while others are in progress.
func within(x *X) {
	var ty reflect.Type
	tys := append(x.freshTypes(), typeOf[ZRe](), typeOf[ZRe]())
	ty = tys[x.Intn(len(tys))]
	if x.one(3) {
		ty = zooStructs[x.Intn(len(zooStructs))]
	}
	pr := protocol(protos[x.Idx%3])
	zreBusy.Store(1)
	defer zreBusy.Store(0)
	x.nest(ty, tys, pr, x.pick(1, 2, 3))
	t := x.arsh()
	t.add(Ev{"c": "Equal", "a": int(zreBad.Load()), "b": 0})
}

// nest makes a call, within which others are made.
func (x *X) nest(ty reflect.Type, tys []reflect.Type, pr thriftwire.Protocol, depth int) {
	left := 4
	hook := func(n int, ev Ev) {
		if depth == 0 || left == 0 || !x.one(5) {
			return
		}
		left--
		in := ty
		if x.one(3) {
			in = tys[x.Intn(len(tys))]
		}
		x.nest(in, tys, pr, depth-1)
	}
	t := x.arsh()
	switch x.Intn(3) {
	case 0:
		t.marshal(&CW{limit: 2000, hook: hook}, x.govalue(ty).Interface())
	case 1:
		x.budget = 25
		f := &Fit{G: x.G, foreign: 8}
		dst := reflect.New(ty)
		if x.one(2) {
			dst = x.govalue(ty)
		}
		t.unmarshal(&CR{r: play(f.val(ty, 5, false)), limit: 2000, hook: hook}, dst)
	default:
		var buf bytes.Buffer
		w := pr.NewWriter(&buf)
		in, out := x.govalue(ty), reflect.New(ty)
		ti := t.tb.of(ty)
		want := t.tb.render(ti, in.Elem(), nil, false)
		err := t.marshal(&CW{w: w, limit: 2000, hook: hook}, in.Interface())
		if err == nil && w.Flush() == nil {
			err = t.unmarshal(&CR{r: pr.NewReader(&buf), limit: 2000, hook: hook}, out)
		}
		if err == errTooMany {
			return
		}
		t.add(Ev{"c": "Round", "e": code(err), "t": ti, "v": want, "out": t.tb.render(ti, out.Elem(), nil, false)})
	}
}

// ------------------------------------------------------- generated schedules

type genSched struct {
	Graph string
	Root  []int
	Sched [][2]int // thread, type
}

// turns lets goroutines make steps in a given order.
type turns struct {
	mu    sync.Mutex
	cond  *sync.Cond
	order []int
	ended map[int]bool
	stuck bool
}

func newTurns(order []int) *turns {
	s := &turns{order: order, ended: map[int]bool{}}
	s.cond = sync.NewCond(&s.mu)
	return s
}

func (s *turns) skip() {
	for len(s.order) > 0 && s.ended[s.order[0]] {
		s.order = s.order[1:]
	}
}

// step waits for p's turn; it reports whether the others kept it waiting.
func (s *turns) step(p int) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	timer := time.AfterFunc(20*time.Second, func() {
		s.mu.Lock()
		s.stuck = true
		s.mu.Unlock()
		s.cond.Broadcast()
	})
	defer timer.Stop()
	for !s.stuck {
		s.skip()
		if len(s.order) == 0 || s.order[0] == p {
			break
		}
		mine := false
		for _, q := range s.order {
			mine = mine || q == p
		}
		if !mine {
			return true
		}
		s.cond.Wait()
	}
	if len(s.order) > 0 && s.order[0] == p {
		s.order = s.order[1:]
	}
	s.cond.Broadcast()
	return !s.stuck
}

func (s *turns) end(p int) {
	s.mu.Lock()
	s.ended[p] = true
	s.mu.Unlock()
	s.cond.Broadcast()
}

// graphType gives the Go type of a type of a graph of spec/CacheDoc.tla.
func (f family) graphType(graph string, n int) reflect.Type {
	switch graph {
	case "self":
		return f.self
	case "tree":
		return []reflect.Type{f.tree, reflect.PointerTo(f.tree), f.leaf}[n-1]
	case "mutual":
		return []reflect.Type{f.mutA, f.mutB, reflect.PointerTo(f.mutA)}[n-1]
	}
	panic(graph)
}

// down builds the value of a type that goes on for d levels, as in the
// specification.
func down(v reflect.Value, d int) {
	switch v.Kind() {
	case reflect.Pointer:
		if d > 1 {
			v.Set(reflect.New(v.Type().Elem()))
			down(v.Elem(), d-1)
		}
	case reflect.Slice:
		if d > 1 {
			v.Set(reflect.MakeSlice(v.Type(), 1, 1))
			down(v.Index(0), d-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField() && d > 1; i++ {
			down(v.Field(i), d-1)
		}
	}
}

// toV is the stream of such a value.
func toV(v reflect.Value) *V {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return toV(v.Elem())
	case reflect.Slice:
		o := &V{T: tList, E: tList}
		for i := 0; i < v.Len(); i++ {
			o.Kids = append(o.Kids, toV(v.Index(i)))
		}
		return o
	}
	o := &V{T: tStruct}
	for i := 0; i < v.NumField(); i++ {
		if k := toV(v.Field(i)); k != nil {
			o.Fs = append(o.Fs, F{int16(i + 1), k})
		}
	}
	return o
}

var begins = map[string]bool{"WStructBegin": true, "WListBegin": true, "RStructBegin": true, "RListBegin": true}

// scheduled replays schedules that the specification generated.
func scheduled(x *X) {
	var lines [][]byte
	name := []string{"cself", "ctree", "cmutual"}[x.Idx%3]
	lines = genLines(x, name)
	for k := 0; k < 6; k++ {
		var g genSched
		if err := json.Unmarshal(lines[(x.Idx/3*6+k)%len(lines)], &g); err != nil {
			panic(err)
		}
		fam := x.family()
		order := []int{}
		for _, s := range g.Sched {
			// Pointers make no step of their own.
			if fam.graphType(name[1:], s[1]).Kind() != reflect.Pointer {
				order = append(order, s[0]-1)
			}
		}
		s := newTurns(order)
		stuck := make([]bool, len(g.Root))
		every := x.one(3) // all calls take turns, not only those in the schedule
		x.together(len(g.Root), func(k int, x *X, wait func()) {
			defer s.end(k)
			t := x.arsh()
			t.start = wait
			ty := fam.graphType(name[1:], g.Root[k])
			v := reflect.New(ty)
			down(v.Elem(), 4)
			hook := func(n int, ev Ev) {
				if every || begins[ev["c"].(string)] {
					if !stuck[k] && !s.step(k) {
						stuck[k] = true
						t.add(Ev{"c": "Hang", "what": "kept waiting by another call"})
					}
				}
			}
			if in := toV(v.Elem()); in != nil && x.one(2) {
				t.unmarshal(&CR{r: play(in), limit: 5000, hook: hook}, reflect.New(ty))
				return
			}
			t.marshal(&CW{limit: 5000, hook: hook}, v.Interface())
		})
	}
}

// ---------------------------------------------------------------- refusals

// refusedTogether: types that are refused give every call its own error.
func refusedTogether(x *X) {
	f := x.family()
	tys := []reflect.Type{f.bad, f.bad2, f.bad, reflect.SliceOf(f.bad), reflect.PointerTo(f.bad)}
	alone := x.family()
	same := []reflect.Type{alone.bad, alone.bad2, alone.bad, reflect.SliceOf(alone.bad), reflect.PointerTo(alone.bad)}
	do := func(ty reflect.Type, m bool) error {
		if m {
			v := reflect.New(ty)
			if ty.Kind() == reflect.Slice {
				v.Elem().Set(reflect.MakeSlice(ty, 1, 1))
			}
			return thrift.Marshal(&textW{}, v.Interface())
		}
		return thrift.Unmarshal(text{}.NewReader(bytes.NewReader([]byte("list 12 1\nstruct\nend struct\nend list\n"))), reflect.New(ty).Interface())
	}
	say := func(err error) string {
		if e, ok := err.(*thrift.SemanticError); ok {
			c := *e
			c.GoType = nil
			return fmt.Sprintf("%T %v %v", err, c.Error(), e.GoType != nil)
		}
		return fmt.Sprintf("%T %v", err, err)
	}
	// The names of the types differ.
	plain := func(s string) string {
		s = strings.Replace(s, "unable to ", "cannot ", 1) // the wording varies
		for _, ty := range []reflect.Type{f.bad, f.bad2, alone.bad, alone.bad2} {
			s = string(bytes.ReplaceAll([]byte(s), []byte(ty.String()), []byte("T")))
		}
		return s
	}
	want := [5][2]string{}
	t := x.trace("Arsh", map[string]any{"ty": []TD{}})
	for i := range same {
		t.lib(func() {
			want[i][0] = plain(say(do(same[i], true)))
			want[i][1] = plain(say(do(same[i], false)))
		})
	}
	x.together(8, func(k int, x *X, wait func()) {
		t := x.trace("Arsh", map[string]any{"ty": []TD{}})
		wait()
		for n := 0; n < 4; n++ {
			i, m := x.Intn(5), x.one(2)
			var err error
			t.lib(func() { err = do(tys[i], m) })
			runtime.Gosched()
			t.add(Ev{"c": "Equal", "a": plain(say(err)), "b": want[i][1-b01(m)]})
		}
	})
}

func init() {
	register("C19", Class{"first", 90, 1000, first}, Class{"later", 60, 600, later}, Class{"mixed", 30, 400, mixed}, Class{"shared", 30, 400, shared},
		Class{"wires", 30, 300, wires}, Class{"pipe", 45, 600, pipe}, Class{"within", 45, 600, within}, Class{"scheduled", 24, 180, scheduled}, Class{"refused", 12, 100, refusedTogether})
}
