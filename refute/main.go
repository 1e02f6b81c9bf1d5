// refute searches for an input on which the real code breaks a property. It
// decides nothing by itself when it finds none: the proof does. It gives a
// failed proof its failing input and cross-checks the assumptions of the proof.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
)

type property interface {
	// one runs case i; it returns false when the systematic cases are over
	one(rnd *rand.Rand, i int) *failure
	replay(raw json.RawMessage) *failure
	count() (int, int)
	sample() []json.RawMessage
	ruleText() string
}

type failure struct {
	Property string          `json:"property"`
	Input    json.RawMessage `json:"input"`
	Text     string          `json:"observed"`
}

// prop is one property over inputs of type T.
type prop[T any] struct {
	id      string
	rule    string
	gen     func(rnd *rand.Rand, i int) T
	run     func(T) error
	shrink  func(T) []T
	trivial func(T) bool
	evals   int
	seen    map[string]bool
	samp    []json.RawMessage
}

var current struct {
	sync.Mutex
	id    string
	input func() json.RawMessage
	start time.Time
	busy  bool
}

func (p *prop[T]) exec(in T) (err error) {
	current.Lock()
	current.id, current.start, current.busy = p.id, time.Now(), true
	current.input = func() json.RawMessage { b, _ := json.Marshal(in); return b }
	current.Unlock()
	if traceFile != "" {
		b, _ := json.Marshal(failure{p.id, current.input(), ""})
		os.WriteFile(traceFile, b, 0o644)
	}
	defer func() {
		current.Lock()
		current.busy = false
		current.Unlock()
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return p.run(in)
}

func (p *prop[T]) fail(in T, err error) *failure {
	// greedy shrinking
	deadline := time.Now().Add(10 * time.Second)
	for again := true; again && p.shrink != nil && time.Now().Before(deadline); {
		again = false
		for _, c := range p.shrink(in) {
			if e := p.exec(c); e != nil {
				in, err, again = c, e, true
				break
			}
			if time.Now().After(deadline) {
				break
			}
		}
	}
	b, _ := json.Marshal(in)
	return &failure{p.id, b, err.Error()}
}

func (p *prop[T]) one(rnd *rand.Rand, i int) *failure {
	in := p.gen(rnd, i)
	p.evals++
	if p.seen == nil {
		p.seen = map[string]bool{}
	}
	if p.trivial == nil || !p.trivial(in) {
		if len(p.seen) < 300000 {
			b, _ := json.Marshal(in)
			p.seen[string(b)] = true
			if len(p.samp) < 3 && i%97 == 3 {
				p.samp = append(p.samp, b)
			}
		}
	}
	if err := p.exec(in); err != nil {
		return p.fail(in, err)
	}
	return nil
}

func (p *prop[T]) replay(raw json.RawMessage) *failure {
	var in T
	if err := json.Unmarshal(raw, &in); err != nil {
		panic(err)
	}
	if err := p.exec(in); err != nil {
		b, _ := json.Marshal(in)
		return &failure{p.id, b, err.Error()}
	}
	return nil
}

func (p *prop[T]) count() (int, int)         { return p.evals, len(p.seen) }
func (p *prop[T]) sample() []json.RawMessage { return p.samp }
func (p *prop[T]) ruleText() string          { return p.rule }

var props = map[string]property{}

var statsFile string
var traceFile string // the input under test, for runs that end the process
var running property

func writeStats() {
	if statsFile == "" || running == nil {
		return
	}
	e, d := running.count()
	b, _ := json.Marshal(map[string]any{"evaluations": e, "distinct_nontrivial": d, "samples": running.sample(), "rule": running.ruleText()})
	os.WriteFile(statsFile, b, 0o644)
}

func report(out string, f *failure) {
	writeStats()
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(out, b, 0o644)
	fmt.Fprintln(os.Stderr, f.Text)
	os.Exit(10)
}

func main() {
	id := flag.String("property", "", "")
	secs := flag.Float64("seconds", 10, "")
	seed := flag.Int64("seed", 1, "")
	out := flag.String("out", "/dev/stdout", "where to write a failing input")
	stats := flag.String("stats", "", "where to write statistics")
	rep := flag.String("replay", "", "run one recorded input")
	flag.StringVar(&traceFile, "trace", "", "where to keep the input under test")
	flag.Parse()
	// code under test may print
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	_ = io.Discard
	debug.SetGCPercent(200)
	debug.SetMaxStack(1 << 30)
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(200 * time.Millisecond)
			current.Lock()
			if current.busy {
				txt := ""
				if time.Since(current.start) > 20*time.Second {
					txt = "does not return within 20 s"
				} else if time.Since(current.start) > 300*time.Millisecond {
					runtime.ReadMemStats(&ms)
					if ms.HeapAlloc > 5<<30 {
						txt = "uses more than 5 GB of memory"
					}
				}
				if txt != "" {
					report(*out, &failure{current.id, current.input(), txt})
				}
			}
			current.Unlock()
		}
	}()
	if *rep != "" {
		b, err := os.ReadFile(*rep)
		if err != nil {
			panic(err)
		}
		var f failure
		if err := json.Unmarshal(b, &f); err != nil {
			panic(err)
		}
		p := props[f.Property]
		if g := p.replay(f.Input); g != nil {
			report(*out, g)
		}
		fmt.Fprintln(os.Stderr, "the input does not fail")
		return
	}
	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no search for", *id)
		os.Exit(3)
	}
	statsFile, running = *stats, p
	rnd := rand.New(rand.NewSource(*seed))
	end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	for i := 0; i == 0 || time.Now().Before(end); i++ {
		if f := p.one(rnd, i); f != nil {
			report(*out, f)
		}
	}
	writeStats()
}
