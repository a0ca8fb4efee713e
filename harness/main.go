// drv runs the real code of /repo on generated inputs and records what it did.
//
//	drv run  -prop ID -seed N -tier quick -hist FILE -out TRACE -stats FILE
//	drv exec -prop ID            (child: one input per line on stdin, one record per line on fd 3)
//	drv replay -prop ID -in FILE -out TRACE
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// Prop is one property's driver.
type Prop struct {
	Gen  func(g *G)                                        // emits inputs
	Exec func(in json.RawMessage, obs func(o interface{})) // runs the real code, one obs per step
	// Timeout for one case (default 15 s; a hang is confirmed alone with 4x that).
	Timeout time.Duration
}

var props = map[string]*Prop{}

// J is a JSON object.
type J map[string]interface{}

// G collects the inputs of a run.
type G struct {
	*rand.Rand
	Tier    string
	Seed    int64
	Hist    []json.RawMessage // histories generated by TLC from the specification
	inputs  []json.RawMessage
	nontriv int
	seen    map[uint64]bool
	Tags    map[string]int
}

func (g *G) Thorough() bool { return g.Tier == "thorough" }

// N scales a number of cases by tier.
func (g *G) N(quick, thorough int) int {
	if g.Thorough() {
		return thorough
	}
	return quick
}

// Emit adds an input; duplicates are dropped.
func (g *G) Emit(in interface{}, nontrivial bool) {
	b, err := json.Marshal(in)
	if err != nil {
		log.Fatal(err)
	}
	h := fnv.New64a()
	h.Write(b)
	if g.seen[h.Sum64()] {
		return
	}
	g.seen[h.Sum64()] = true
	g.inputs = append(g.inputs, b)
	if nontrivial {
		g.nontriv++
	}
}

// Tag counts a feature of the generated cases.
func (g *G) Tag(t string) { g.Tags[t]++ }

type record struct {
	ID    int               `json:"id"`
	In    json.RawMessage   `json:"in"`
	Obs   []json.RawMessage `json:"obs"`
	Crash string            `json:"crash"`
}

func dec(in json.RawMessage, v interface{}) {
	if err := json.Unmarshal(in, v); err != nil {
		log.Fatalf("bad input %s: %v", in, err)
	}
}

func runCase(p *Prop, in json.RawMessage) (rec record) {
	rec.In = in
	rec.Obs = []json.RawMessage{}
	defer func() {
		if r := recover(); r != nil {
			rec.Crash = fmt.Sprintf("panic: %v", r) + " at " + repoFrame(debug.Stack())
		}
	}()
	p.Exec(in, func(o interface{}) {
		b, err := json.Marshal(o)
		if err != nil {
			log.Fatal("obs: ", err)
		}
		rec.Obs = append(rec.Obs, b)
	})
	return
}

// first function of the library under test on the stack
func repoFrame(stack []byte) string {
	seen := false
	for _, l := range strings.Split(string(stack), "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.HasPrefix(l, "github.com/benoitkugler/") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/benoitkugler/")
		}
	}
	return "?"
}

func childMain(p *Prop) {
	debug.SetMaxStack(64 << 20)
	out := bufio.NewWriter(os.NewFile(3, "out"))
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		rec := runCase(p, json.RawMessage(bytes.TrimSpace(line)))
		b, _ := json.Marshal(rec)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

type child struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	lines  chan []byte
	stderr *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func startChild(id string) *child {
	self, _ := os.Executable()
	cmd := exec.Command(self, "exec", "-prop", id)
	r, w, err := os.Pipe()
	if err != nil {
		log.Fatal(err)
	}
	cmd.ExtraFiles = []*os.File{w}
	c := &child{cmd: cmd, lines: make(chan []byte, 1), stderr: &tail{}}
	cmd.Stderr = c.stderr
	c.in, _ = cmd.StdinPipe()
	if err := cmd.Start(); err != nil {
		log.Fatal(err)
	}
	w.Close()
	go func() {
		br := bufio.NewReaderSize(r, 1<<20)
		for {
			l, err := br.ReadBytes('\n')
			if err != nil {
				close(c.lines)
				r.Close()
				return
			}
			c.lines <- l
		}
	}()
	return c
}

func (c *child) kill() {
	c.in.Close()
	c.cmd.Process.Kill()
	c.cmd.Wait()
}

func fatalKind(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			fr := "?"
			for _, m := range strings.Split(stderr, "\n") {
				if strings.HasPrefix(m, "github.com/benoitkugler/") {
					if i := strings.LastIndex(m, "("); i > 0 {
						m = m[:i]
					}
					fr = strings.TrimPrefix(m, "github.com/benoitkugler/")
					break
				}
			}
			if strings.Contains(stderr, "stack overflow") {
				return "stack overflow at " + fr
			}
			return l + " at " + fr
		}
	}
	return ""
}

func runAll(id string, p *Prop, inputs []json.RawMessage) []record {
	to := p.Timeout
	if to == 0 {
		to = 15 * time.Second
	}
	recs := make([]record, len(inputs))
	work := make(chan int)
	var wg sync.WaitGroup
	nw := runtime.NumCPU()
	one := func(c *child, i int, to time.Duration) (*child, bool) {
		in := append(append([]byte{}, inputs[i]...), '\n')
		if c == nil {
			c = startChild(id)
		}
		if _, err := c.in.Write(in); err != nil {
			log.Fatalf("driver child died before case %d: %s", i, c.stderr.b)
		}
		select {
		case l, ok := <-c.lines:
			if !ok {
				c.cmd.Wait()
				k := fatalKind(string(c.stderr.b))
				if k == "" {
					log.Fatalf("driver child died on case %d: %s\n%s", i, inputs[i], c.stderr.b)
				}
				recs[i] = record{ID: i, In: inputs[i], Obs: []json.RawMessage{}, Crash: k}
				return nil, true
			}
			if err := json.Unmarshal(l, &recs[i]); err != nil {
				log.Fatal("bad record: ", err)
			}
			recs[i].ID = i
			return c, true
		case <-time.After(to):
			c.kill()
			return nil, false
		}
	}
	var mu sync.Mutex
	var slow []int
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var c *child
			for i := range work {
				var ok bool
				c, ok = one(c, i, to)
				if !ok {
					mu.Lock()
					slow = append(slow, i)
					mu.Unlock()
				}
			}
			if c != nil {
				c.kill()
			}
		}()
	}
	for i := range inputs {
		work <- i
		mu.Lock()
		n := len(slow)
		mu.Unlock()
		if n > 16 {
			break
		}
	}
	close(work)
	wg.Wait()
	// hangs are confirmed alone
	for k, i := range slow {
		if k >= 2 { // two confirmed hangs are enough; the others are left out
			recs[i] = record{ID: i, In: inputs[i], Obs: []json.RawMessage{}, Crash: "hang"}
			continue
		}
		c, ok := one(nil, i, 4*to)
		if !ok {
			recs[i] = record{ID: i, In: inputs[i], Obs: []json.RawMessage{}, Crash: "hang"}
		} else if c != nil {
			c.kill()
		}
	}
	var out []record
	for _, r := range recs {
		if r.In != nil {
			out = append(out, r)
		}
	}
	return out
}

func writeTrace(path string, recs []record) {
	f, err := os.Create(path)
	if err != nil {
		log.Fatal(err)
	}
	w := bufio.NewWriter(f)
	for _, r := range recs {
		if r.Obs == nil {
			r.Obs = []json.RawMessage{}
		}
		b, err := json.Marshal(r)
		if err != nil {
			log.Fatal(err)
		}
		w.Write(b)
		w.WriteByte('\n')
	}
	if err := w.Flush(); err != nil {
		log.Fatal(err)
	}
	f.Close()
}

func readLines(path string) (out []json.RawMessage) {
	if path == "" {
		return nil
	}
	f, err := os.Open(path)
	if err != nil {
		log.Fatal(err)
	}
	defer f.Close()
	br := bufio.NewReaderSize(f, 1<<20)
	for {
		l, err := br.ReadBytes('\n')
		l = bytes.TrimSpace(l)
		if len(l) > 0 {
			out = append(out, json.RawMessage(append([]byte{}, l...)))
		}
		if err != nil {
			return
		}
	}
}

func main() {
	log.SetFlags(0)
	if len(os.Args) < 2 {
		log.Fatal("usage: drv run|exec|replay")
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet("drv", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	hist := fs.String("hist", "", "")
	out := fs.String("out", "trace.ndjson", "")
	stats := fs.String("stats", "", "")
	inf := fs.String("in", "", "")
	fs.Parse(os.Args[2:])
	if mode == "aux" {
		auxMain(*id, *out)
		return
	}
	p := props[*id]
	if p == nil {
		log.Fatalf("no property %q", *id)
	}
	if strings.HasPrefix(*id, "P") {
		pangoEnv()
	}
	switch mode {
	case "exec":
		childMain(p)
	case "run":
		g := &G{Rand: rand.New(rand.NewSource(*seed)), Tier: *tier, Seed: *seed, Hist: readLines(*hist), seen: map[uint64]bool{}, Tags: map[string]int{}}
		p.Gen(g)
		recs := runAll(*id, p, g.inputs)
		writeTrace(*out, recs)
		steps, crashes := 0, 0
		for _, r := range recs {
			steps += len(r.Obs)
			if r.Crash != "" {
				crashes++
			}
		}
		if *stats != "" {
			b, _ := json.Marshal(J{"inputs": len(g.inputs), "run": len(recs), "nontrivial": g.nontriv, "steps": steps, "crashes": crashes, "tags": g.Tags})
			os.WriteFile(*stats, b, 0o644)
		}
	case "replay":
		writeTrace(*out, runAll(*id, p, readLines(*inf)))
	}
}

var aux = map[string]func(out string){}

func auxMain(id, out string) {
	f := aux[id]
	if f == nil {
		log.Fatalf("no aux %q", id)
	}
	f(out)
}
