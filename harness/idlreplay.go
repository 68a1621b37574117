package main

import (
	"encoding/json"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// idlEdge is a stack of the grammar machine: how to get there, whether a
// document may end there, and which words may follow, each with words that
// complete the document.
type idlEdge struct {
	Path  []string
	End   bool
	Right []struct {
		K   string
		Fin []string
	}
}

func idlEdges(x *X) []idlEdge {
	var out []idlEdge
	for _, l := range genLines(x, "idl") {
		var e idlEdge
		if err := json.Unmarshal(l, &e); err != nil {
			panic(err)
		}
		if len(e.Path) == 1 && e.Path[0] == "" {
			e.Path = nil
		}
		out = append(out, e)
	}
	// TLC finds the stacks in any order.
	sort.Slice(out, func(i, j int) bool { return strings.Join(out[i].Path, " ") < strings.Join(out[j].Path, " ") })
	return out
}

func (g *G) words(ks ...[]string) []Word {
	var ws []Word
	for _, s := range ks {
		for _, k := range s {
			ws = append(ws, g.word(k))
		}
	}
	return ws
}

// Each transition of the machine, in a document that is completed.
func idlReplayValid(x *X) {
	for n, e := range idlEdges(x) {
		if n%x.N != x.Idx {
			continue
		}
		if e.End {
			x.parse("full", x.render(x.words(e.Path), x.layout()))
		}
		for _, r := range e.Right {
			x.parse("full", x.render(x.words(e.Path, []string{r.K}, r.Fin), x.layout()))
		}
	}
}

// Each stack with each word, right or wrong, and with the end.
func idlReplayEdges(x *X) {
	for n, e := range idlEdges(x) {
		if n%x.N != x.Idx {
			continue
		}
		x.parse("full", x.render(x.words(e.Path), x.layout()))
		for _, k := range kinds {
			ws := x.words(e.Path, []string{k})
			switch x.Intn(4) {
			case 0:
				ws = append(ws, x.words([]string{pick(x.G, kinds...), "}"})...)
			case 2:
				ws = append(ws, x.words([]string{pick(x.G, kinds...)})...)
			case 1:
				r := &Grammar{G: x.G}
				r.def()
				ws = append(ws, r.w...)
			}
			x.parse("full", x.render(ws, x.layout()))
		}
	}
}

// Each way to give up a definition, between others.
func idlReplayGivenUp(x *X) {
	for n, e := range idlEdges(x) {
		if n%x.N != x.Idx {
			continue
		}
		right := map[string]bool{}
		for _, r := range e.Right {
			right[r.K] = true
		}
		for k := 0; k < 6; k++ {
			w := pick(x.G, kinds...)
			if right[w] {
				continue
			}
			r := &Grammar{G: x.G}
			if len(e.Path) == 0 || e.Path[0] != "include" && e.Path[0] != "namespace" {
				r.doc(x.Intn(2), x.Intn(2))
			}
			r.w = append(r.w, x.words(e.Path, []string{w})...)
			for j := x.Intn(3); j > 0; j-- {
				r.p(pick(x.G, kinds...))
			}
			for j := 1 + x.Intn(2); j > 0; j-- {
				r.def()
			}
			x.parse("full", x.render(r.w, x.layout()))
		}
	}
}

var corpus []string

// Documents people wrote.
func idlCorpus(x *X) {
	if corpus == nil {
		filepath.WalkDir("/repo/tools/thriftfile/testdata", func(path string, d fs.DirEntry, err error) error {
			if err == nil && !d.IsDir() && filepath.Ext(path) == ".thrift" {
				corpus = append(corpus, path)
			}
			return nil
		})
		sort.Strings(corpus)
		if corpus == nil {
			corpus = []string{""}
		}
	}
	for n, path := range corpus {
		if n%x.N != x.Idx {
			continue
		}
		b, err := os.ReadFile(path)
		if err != nil || !x.Thorough && len(b) > 4000 || len(b) > 60000 {
			b = []byte("// nothing")
		}
		x.parse("full", b)
		if fProp != "C20" {
			// Cut it, or put something else into it.
			for k := 0; k < 3; k++ {
				c := b[:x.Intn(len(b)+1)]
				if len(c) > 3000 {
					c = c[len(c)-3000:]
				}
				if x.one(2) {
					c = x.malform(c)
				}
				x.parse("full", c)
			}
		}
	}
}
