// Command vh drives the code under test and records what it does.
//
//	vh run -prop C01 -seed 1 -out DIR     records all scenarios of a property
//	vh run ... -only 17                   records one of them
package main

import (
	"bufio"
	"bytes"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Class is a kind of scenario; Run is called N (thorough: M) times.
type Class struct {
	Name string
	N, M int
	Run  func(x *X)
}

var classes = map[string][]Class{}

func register(prop string, cs ...Class) { classes[prop] = append(classes[prop], cs...) }

// X is the context of one scenario.
type X struct {
	*G
	Idx      int // index within the class
	N        int // number of scenarios of the class
	Thorough bool
	traces   []*Trace
	gen      string // directory of generated behaviours
}

func (x *X) trace(kind string, body map[string]any) *Trace {
	t := &Trace{Kind: kind, Body: body}
	x.traces = append(x.traces, t)
	return t
}

var (
	fProp, fOut, fGen string
	fSeed             int64
	fTier             string
	fJobs, fOnly      int
	fFrom, fWorker    int
	fTimeout          int
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh run|work")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	fs.StringVar(&fProp, "prop", "", "")
	fs.StringVar(&fOut, "out", "", "")
	fs.StringVar(&fGen, "gen", "", "")
	fs.StringVar(&fTier, "tier", "quick", "")
	fs.Int64Var(&fSeed, "seed", 1, "")
	fs.IntVar(&fJobs, "jobs", 8, "")
	fs.IntVar(&fOnly, "only", -1, "")
	fs.IntVar(&fFrom, "from", 0, "")
	fs.IntVar(&fWorker, "worker", 0, "")
	fs.IntVar(&fTimeout, "timeout", 60, "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "run":
		run()
	case "work":
		if fProp == "C27" {
			inTest(func() { work(); os.Exit(0) })
		}
		work()
	default:
		if f := tools[os.Args[1]]; f != nil {
			f()
			return
		}
		os.Exit(2)
	}
}

var tools = map[string]func(){}

type job struct {
	cls *Class
	idx int
	n   int
}

func jobs() []job {
	var js []job
	cs := classes[fProp]
	for i := range cs {
		n := cs[i].N
		if fTier == "thorough" {
			n = cs[i].M
		}
		for k := 0; k < n; k++ {
			js = append(js, job{&cs[i], k, n})
		}
	}
	return js
}

func seedOf(s string) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", fSeed, fProp, s)
	return int64(h.Sum64())
}

func (j job) name() string { return fmt.Sprintf("%s/%s/%d", fProp, j.cls.Name, j.idx) }

func work() {
	js := jobs()
	go watchMemory()
	outs := map[string]*bufio.Writer{}
	var files []*os.File
	for i := fFrom; i < len(js); i++ {
		if i%fJobs != fWorker && fOnly < 0 || fOnly >= 0 && i != fOnly {
			continue
		}
		fmt.Printf("%d\n", i)
		j := js[i]
		x := &X{G: &G{Rand: rand.New(rand.NewSource(seedOf(j.name())))}, Idx: j.idx, N: j.n, Thorough: fTier == "thorough", gen: fGen}
		func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(abort); !ok {
						// The scenarios do not panic unless the library
						// does what none of them can expect.
						if len(x.traces) == 0 {
							panic(p)
						}
						x.traces[len(x.traces)-1].add(Ev{"c": "Panic", "what": fmt.Sprint("in the driver: ", p), "stack": string(debug.Stack())})
					}
				}
			}()
			j.cls.Run(x)
		}()
		for k, t := range x.traces {
			o := outs[t.Kind]
			if o == nil {
				f, err := os.OpenFile(filepath.Join(fOut, fmt.Sprintf("%s.%d.ndjson", t.Kind, fWorker)), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
				if err != nil {
					panic(err)
				}
				files = append(files, f)
				o = bufio.NewWriterSize(f, 1<<16)
				outs[t.Kind] = o
			}
			o.Write(t.line(fmt.Sprintf("%s:%d.%d%s", j.name(), i, k, t.Tag)))
		}
		// Whole scenarios only: a crash must not leave half a line.
		for _, o := range outs {
			o.Flush()
		}
	}
	for _, f := range files {
		f.Close()
	}
}

// run starts workers; one that crashes or hangs is recorded as such and
// replaced by one that goes on with the next scenario.
func run() {
	js := jobs()
	if len(js) == 0 {
		fmt.Fprintln(os.Stderr, "no scenarios for", fProp)
		os.Exit(2)
	}
	if fOnly >= 0 {
		fJobs = 1
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	fail := false
	for k := 0; k < fJobs; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for from, tries := 0, 0; from < len(js) && tries < 20; tries++ {
				last, how, msg := child(k, from)
				if how == "" {
					return
				}
				if how == "Error" || last < 0 {
					mu.Lock()
					fail = true
					name := "?"
					if last >= 0 {
						name = js[last].name()
					}
					fmt.Fprintf(os.Stderr, "worker failed at %s: %s\n", name, msg)
					mu.Unlock()
					return
				}
				t := &Trace{Kind: "Crash", Body: map[string]any{}}
				t.add(Ev{"c": how, "msg": clip(msg, 3000)})
				f, _ := os.OpenFile(filepath.Join(fOut, fmt.Sprintf("Crash.%d.ndjson", k)), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
				f.Write(t.line(fmt.Sprintf("%s:%d.0", js[last].name(), last)))
				f.Close()
				from = last + 1
				if fOnly >= 0 || how == "Hang" {
					return
				}
			}
		}(k)
	}
	wg.Wait()
	if fail {
		os.Exit(2)
	}
	names := map[string]int{}
	for _, j := range js {
		names[j.cls.Name]++
	}
	var ks []string
	for k := range names {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("%s=%d ", k, names[k])
	}
	fmt.Println()
}

func child(k, from int) (last int, how, msg string) {
	last = -1
	cmd := exec.Command(os.Args[0], append([]string{"work"}, os.Args[2:]...)...)
	cmd.Args = append(cmd.Args, "-worker", strconv.Itoa(k), "-from", strconv.Itoa(from), "-jobs", strconv.Itoa(fJobs))
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	var stderr bytes.Buffer
	cmd.Stderr = &limited{b: &stderr}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return -1, "Error", err.Error()
	}
	if err := cmd.Start(); err != nil {
		return -1, "Error", err.Error()
	}
	timer := time.AfterFunc(time.Duration(fTimeout)*time.Second, func() { cmd.Process.Kill() })
	begun := time.Now()
	lines := make(chan string)
	go func() {
		sc := bufio.NewScanner(out)
		for sc.Scan() {
			lines <- sc.Text()
		}
		close(lines)
	}()
	for l := range lines {
		if n, err := strconv.Atoi(l); err == nil {
			last = n
			begun = time.Now()
			timer.Reset(time.Duration(fTimeout) * time.Second)
		}
	}
	err = cmd.Wait()
	timer.Stop()
	if err == nil {
		return last, "", ""
	}
	s := stderr.String()
	switch {
	case time.Since(begun) >= time.Duration(fTimeout)*time.Second:
		return last, "Hang", fmt.Sprintf("no result within %d s", fTimeout)
	case strings.Contains(s, "DATA RACE"):
		return last, "Race", s
	case strings.Contains(s, "fatal error:") || strings.Contains(s, "goroutine stack exceeds"):
		return last, "Crash", s
	}
	if last < 0 {
		return last, "Error", err.Error() + "\n" + s
	}
	return last, "Crash", err.Error() + "\n" + s
}

// watchMemory ends a worker whose memory runs away before it takes that of
// others.
func watchMemory() {
	sample := []metrics.Sample{{Name: "/memory/classes/total:bytes"}, {Name: "/memory/classes/heap/released:bytes"}}
	for {
		metrics.Read(sample)
		if sample[0].Value.Uint64()-sample[1].Value.Uint64() > 2500<<20 {
			fmt.Fprintln(os.Stderr, "fatal error: memory runs away")
			os.Exit(3)
		}
		time.Sleep(20 * time.Millisecond)
	}
}

type limited struct {
	b *bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

var _ io.Writer = (*limited)(nil)
