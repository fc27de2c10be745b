package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- specs

// Ctx is handed to every execution of a case.
type Ctx struct {
	Tmp        string // scratch directory of this worker, emptied between cases by the case itself
	nontrivial bool
	labels     map[string]bool
	verbose    bool
}

func (c *Ctx) NonTrivial()    { c.nontrivial = true }
func (c *Ctx) Label(s string) { c.labels[s] = true }
func (c *Ctx) LabelIf(b bool, s string) {
	if b {
		c.labels[s] = true
	}
}
func (c *Ctx) Logf(f string, a ...any) {
	if c.verbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// Part is one generator+oracle of a property.
type Part struct {
	ID, Name  string
	Rule      string
	Quick     int // cases per run, all workers together
	Thorough  int
	Workers   int // max parallel workers (0: all)
	HangFails bool
	gen       func(t *rapid.T) any
	run       func(c any, x *Ctx) error
	decode    func(b []byte) (any, error)
}

var parts = map[string][]*Part{}
var assumptions = map[string][]string{}
var notes = map[string]string{}

func part[C any](id, name string, quick, thorough int, rule string, gen func(*rapid.T) C, run func(C, *Ctx) error) *Part {
	p := &Part{
		ID: id, Name: name, Rule: rule, Quick: quick, Thorough: thorough,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(c any, x *Ctx) error { return run(c.(C), x) },
		decode: func(b []byte) (any, error) {
			var c C
			d := json.NewDecoder(bytes.NewReader(b))
			err := d.Decode(&c)
			return c, err
		},
	}
	// checks of functions in this process: cases take milliseconds (the sessions of the program have limits of
	// their own)
	p.HangFails = strings.ContainsAny(id[:1], "CTB")
	parts[id] = append(parts[id], p)
	return p
}

// infraError marks a failure of the harness or its environment: never a violation.
type infraError struct{ msg string }

func (e infraError) Error() string { return "INFRA: " + e.msg }

func infra(f string, a ...any) error { return infraError{fmt.Sprintf(f, a...)} }
func must(err error) {
	if err != nil {
		panic(infraError{err.Error()})
	}
}

func failf(f string, a ...any) error { return fmt.Errorf(f, a...) }

// recorded marks failures that count even if they do not happen again, because
// the message shows what the program did.
const recorded = "(as recorded) "

// guard runs f, turning a panic of the code under test into an error.
func guard(what string, f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if ie, ok := r.(infraError); ok {
				panic(ie)
			}
			err = fmt.Errorf("%s panicked: %v\n%s", what, r, trimStack(debug.Stack()))
		}
	}()
	f()
	return nil
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/bpass/") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// exec runs one case of a part.
func (p *Part) exec(c any, x *Ctx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if ie, ok := r.(infraError); ok {
				err = ie
				return
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return p.run(c, x)
}

// ---------------------------------------------------------------- worker

type WorkerResult struct {
	Evals      int
	Invalid    int
	NonTrivial int
	Labels     map[string]int
	Hashes     []uint64
	Samples    []json.RawMessage
	Fail       json.RawMessage `json:",omitempty"`
	FailMsg    string
	FirstFail  json.RawMessage `json:",omitempty"`
	Infra      string
	Hang       json.RawMessage `json:",omitempty"`
	Note       string
}

type rtb struct {
	failed bool
	log    bytes.Buffer
}

func (r *rtb) Helper()                   {}
func (r *rtb) Name() string              { return "bpv" }
func (r *rtb) Logf(f string, a ...any)   { fmt.Fprintf(&r.log, f+"\n", a...) }
func (r *rtb) Log(a ...any)              { fmt.Fprintln(&r.log, a...) }
func (r *rtb) Skipf(f string, a ...any)  { runtime.Goexit() }
func (r *rtb) Skip(a ...any)             { runtime.Goexit() }
func (r *rtb) SkipNow()                  { runtime.Goexit() }
func (r *rtb) Errorf(f string, a ...any) { r.Logf(f, a...); r.failed = true }
func (r *rtb) Error(a ...any)            { r.Log(a...); r.failed = true }
func (r *rtb) Fatalf(f string, a ...any) { r.Logf(f, a...); r.failed = true; runtime.Goexit() }
func (r *rtb) Fatal(a ...any)            { r.Log(a...); r.failed = true; runtime.Goexit() }
func (r *rtb) FailNow()                  { r.failed = true; runtime.Goexit() }
func (r *rtb) Fail()                     { r.failed = true }
func (r *rtb) Failed() bool              { return r.failed }

func h64(b []byte) uint64 {
	s := sha256.Sum256(b)
	return binary.LittleEndian.Uint64(s[:8])
}

// runWorker explores n cases of part p from the given seed.
func runWorker(p *Part, seed uint64, n int, tmp string, soft, caseLimit time.Duration, out string) {
	res := &WorkerResult{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	start := time.Now()
	var mu sync.Mutex
	var caseStart time.Time
	var caseRaw []byte
	write := func() {
		b, err := json.Marshal(res)
		if err != nil {
			fmt.Fprintln(os.Stderr, "worker: marshal:", err)
			os.Exit(3)
		}
		if err := os.WriteFile(out+".tmp", b, 0o600); err != nil {
			fmt.Fprintln(os.Stderr, "worker: write:", err)
			os.Exit(3)
		}
		os.Rename(out+".tmp", out)
	}
	go func() {
		for {
			time.Sleep(time.Second)
			mu.Lock()
			if !caseStart.IsZero() && time.Since(caseStart) > caseLimit {
				res.Hang = append([]byte(nil), caseRaw...)
				write()
				os.Exit(4)
			}
			mu.Unlock()
		}
	}()

	must(flag.Set("rapid.seed", fmt.Sprint(seed)))
	must(flag.Set("rapid.checks", fmt.Sprint(n)))
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", "20s"))

	// the case being tried is kept on disk, in case it kills the process
	cur, _ := os.OpenFile(out+".cur", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o600)
	shrinking := false
	prop := func(t *rapid.T) {
		if res.Infra != "" {
			return
		}
		if !shrinking && time.Since(start) > soft {
			res.Note = "stopped early: soft deadline"
			return
		}
		c := p.gen(t)
		raw, err := json.Marshal(c)
		if err != nil {
			res.Infra = "marshal case: " + err.Error()
			return
		}
		x := &Ctx{Tmp: tmp, labels: map[string]bool{}}
		if cur != nil {
			var hd [8]byte
			binary.LittleEndian.PutUint64(hd[:], uint64(len(raw)))
			cur.WriteAt(append(hd[:], raw...), 0)
		}
		mu.Lock()
		caseStart, caseRaw = time.Now(), raw
		mu.Unlock()
		// run the decoded JSON, so that what is tried is what would be replayed
		c2, err := p.decode(raw)
		if err != nil {
			res.Infra = "decode case: " + err.Error()
			return
		}
		err = p.exec(c2, x)
		mu.Lock()
		caseStart = time.Time{}
		mu.Unlock()
		var ie infraError
		if errors.As(err, &ie) {
			res.Infra = ie.msg + "\ncase: " + string(raw)
			return
		}
		if !shrinking {
			res.Evals++
			for l := range x.labels {
				res.Labels[l]++
			}
			if x.nontrivial {
				res.NonTrivial++
				h := h64(raw)
				if !seen[h] {
					seen[h] = true
					res.Hashes = append(res.Hashes, h)
					if len(res.Samples) < 3 && len(raw) < 4000 {
						res.Samples = append(res.Samples, raw)
					}
				}
			}
		}
		if err != nil {
			if !shrinking {
				res.FirstFail = append([]byte(nil), raw...)
			}
			shrinking = true
			res.Fail = append([]byte(nil), raw...)
			res.FailMsg = err.Error()
			t.Fatalf("violation")
		}
	}
	done := make(chan *rtb)
	go func() {
		tb := &rtb{}
		defer func() { done <- tb }()
		rapid.Check(tb, prop)
	}()
	tb := <-done
	if tb.failed && res.Fail == nil && res.Infra == "" {
		// generator trouble (e.g. too many rejected cases)
		res.Infra = "rapid: " + tb.log.String()
	}
	mu.Lock()
	write()
	mu.Unlock()
}

// ---------------------------------------------------------------- replay files

type Replay struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Note     string          `json:"note,omitempty"`
	Message  string          `json:"message,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func loadReplay(file string) (*Replay, *Part, any, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, nil, nil, err
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, nil, nil, err
	}
	for _, p := range parts[r.Property] {
		if p.Name == r.Part {
			c, err := p.decode(r.Case)
			return &r, p, c, err
		}
	}
	return nil, nil, nil, fmt.Errorf("no part %s/%s", r.Property, r.Part)
}

func doReplay(file, tmp string, verbose bool) int {
	r, p, c, err := loadReplay(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "replay:", err)
		return 3
	}
	x := &Ctx{Tmp: tmp, labels: map[string]bool{}, verbose: verbose}
	err = p.exec(c, x)
	var ie infraError
	if errors.As(err, &ie) {
		fmt.Println(ie)
		return 3
	}
	if err != nil {
		fmt.Printf("FAILS %s/%s: %v\n", r.Property, r.Part, err)
		return 1
	}
	fmt.Printf("holds %s/%s (nontrivial=%v labels=%v)\n", r.Property, r.Part, x.nontrivial, sortedKeys(x.labels))
	return 0
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func initTesting() {
	testing.Init()
}

func corpusFiles(root, id string) []string {
	f, _ := filepath.Glob(filepath.Join(root, "corpus", id, "*.json"))
	sort.Strings(f)
	return f
}
