package main

// The engine: registry of sub-checks, execution under rapid, replay of cases, watchdog and counters.
// See DESIGN.md, "Common machinery".

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

const sutPath = "github.com/aboukirev/ouro/"

// Spec describes one sub-check of a property over cases of type C, which must survive a JSON round trip.
type Spec[C any] struct {
	Prop, Name string
	Rule       string // what is generated and what makes a case non-trivial
	Quick      int    // number of generated cases in the quick tier (all shards together)
	Thorough   int    // in the thorough tier; 0 means 40 times Quick
	Gen        func(*rapid.T) C
	Enum       func(thorough bool, yield func(C) bool) // an exhaustive enumeration, used instead of Gen
	Run        func(C) error                           // nil if the property holds on the case
	Labels     func(C) []string                        // classification, counted in the evidence
	Nontrivial func(C) bool                            // nil: every case counts
	Pure       bool                                    // no goroutines or I/O: watched by the CPU-time watchdog
	Alone      bool                                    // a pure sub-check that is not repeated on several goroutines at once
}

type sub struct {
	prop, name      string
	rule            string
	quick, thorough int
	pure            bool
	run             func(w *worker)
	replay          func(raw json.RawMessage) error
	body            func(rt *rapid.T, before func(func() *failure), onFail func(*failure)) // for coverage-guided fuzzing; nil for enumerations
	example         func(seed int) (run func() error)                                      // the case a seed stands for, if the cases may run beside others
}

var registry []*sub

// inconclusive marks an outcome that says nothing about the property (a time-out on a starved machine, for instance).
type inconclusive struct{ error }

func inconclusivef(format string, args ...interface{}) error {
	return inconclusive{fmt.Errorf(format, args...)}
}

// harnessBug marks a failure of the machinery itself.
type harnessBug struct{ error }

type failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

type subStats struct {
	Evaluations  int            `json:"evaluations"`
	Nontrivial   int            `json:"distinct_nontrivial"`
	Rule         string         `json:"rule"`
	Labels       map[string]int `json:"labels,omitempty"`
	Samples      []string       `json:"samples,omitempty"`
	Inconclusive int            `json:"inconclusive,omitempty"` // cases that could not be decided, because the machine was starved
	Exhaustive   bool           `json:"exhaustive,omitempty"`
	Hashes       []byte         `json:"hashes,omitempty"`
	hashes       map[uint64]struct{}
}

type worker struct {
	prop          string
	tier          string
	seed          uint64
	shard, shards int
	dir           string // scratch directory of this run
	mu            sync.Mutex
	stats         map[string]*subStats
	cur           atomic.Value // *current
	fail          *failure
	err           error          // inconclusive or harness error
	note          []byte         // shared with the parent: the case being run
	crash         *failure       // shrink this case, of which the process has died; skip those before it
	stuck         func(*failure) // what the watchdog does about a case
}

type current struct {
	sub   string
	raw   func() []byte
	since time.Time
	pure  bool
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// guard runs f and turns a panic into an error: a violation if the code under test is on the stack, a bug of the
// harness otherwise.
func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if strings.Contains(st, sutPath) {
				err = fmt.Errorf("panic in the code under test: %v\n%s", r, sutFrames(st))
			} else {
				err = harnessBug{fmt.Errorf("panic in the harness: %v\n%s", r, st)}
			}
		}
	}()
	return f()
}

func sutFrames(st string) string {
	var out []string
	lines := strings.Split(st, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, sutPath) {
			out = append(out, l)
			if i+1 < len(lines) {
				out = append(out, strings.TrimSpace(lines[i+1]))
			}
		}
	}
	if len(out) > 60 {
		out = append(out[:60], "...")
	}
	return strings.Join(out, "\n")
}

// tb is the testing object handed to rapid.
type tb struct {
	name   string
	failed bool
	log    bytes.Buffer
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return t.name }
func (t *tb) Logf(f string, a ...any)   { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *tb) Log(a ...any)              { fmt.Fprintln(&t.log, a...) }
func (t *tb) Skipf(f string, a ...any)  { t.Logf(f, a...); runtime.Goexit() }
func (t *tb) Skip(a ...any)             { t.Log(a...); runtime.Goexit() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func truncate(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
}

func hash64(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v/", p)
	}
	return h.Sum64()
}

func register[C any](sp Spec[C]) {
	s := &sub{prop: sp.Prop, name: sp.Name, rule: sp.Rule, quick: sp.Quick, thorough: sp.Thorough, pure: sp.Pure}
	if s.thorough == 0 {
		s.thorough = s.quick * 40
	}
	if sp.Pure && sp.Gen != nil && !sp.Alone && s.quick > 1000 {
		s.quick *= 10
	}
	s.replay = func(raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return harnessBug{err}
		}
		return guard(func() error { return sp.Run(c) })
	}
	marshal := func(c C) []byte {
		b, err := json.Marshal(c)
		if err != nil {
			b, _ = json.Marshal("unmarshalable case: " + err.Error())
		}
		return b
	}
	if sp.Gen != nil {
		s.body = func(rt *rapid.T, before func(func() *failure), onFail func(*failure)) {
			c := sp.Gen(rt)
			if before != nil {
				before(func() *failure { return &failure{Property: sp.Prop, Sub: sp.Name, Case: marshal(c)} })
			}
			err := guard(func() error { return sp.Run(c) })
			if err == nil {
				return
			}
			var inc inconclusive
			if errors.As(err, &inc) {
				return
			}
			onFail(&failure{Property: sp.Prop, Sub: sp.Name, Error: err.Error(), Case: marshal(c)})
			rt.Fatalf("property violated")
		}
	}
	var pool []C // cases kept for the concurrent repetition
	shareable := sp.Pure && !sp.Alone
	if shareable && sp.Gen != nil {
		gen := rapid.Custom(sp.Gen)
		s.example = func(seed int) func() error {
			c := gen.Example(seed)
			return func() error { return guard(func() error { return sp.Run(c) }) }
		}
	}
	s.run = func(w *worker) {
		st := &subStats{Rule: sp.Rule, Labels: map[string]int{}, hashes: map[uint64]struct{}{}, Exhaustive: sp.Enum != nil}
		w.mu.Lock()
		w.stats[sp.Name] = st
		w.mu.Unlock()
		var last *failure
		var stop error
		var failed time.Time // for the first time
		one := func(c C) error {
			if last != nil && time.Since(failed) > 30*time.Second {
				return nil // rapid looks at the clock rarely, and cases that fail may be slow
			}
			var rawb []byte
			var once sync.Once
			raw := func() []byte {
				once.Do(func() { rawb = marshal(c) })
				return rawb
			}
			w.cur.Store(&current{sub: sp.Name, raw: raw, since: time.Now(), pure: sp.Pure})
			var err error
			if w.crash == nil {
				w.noteCurrent(sp.Name, raw())
				err = guard(func() error { return sp.Run(c) })
			} else if last != nil || bytes.Equal(raw(), w.crash.Case) {
				err = w.isolated(sp.Name, raw())
				if err == nil && last == nil {
					stop = errors.New("not reproduced")
				}
			} else {
				return nil
			}
			w.cur.Store((*current)(nil))
			if last == nil { // not while shrinking
				w.mu.Lock()
				st.Evaluations++
				if sp.Labels != nil {
					for _, l := range sp.Labels(c) {
						st.Labels[l]++
					}
				}
				if sp.Nontrivial == nil || sp.Nontrivial(c) {
					if shareable && err == nil && len(raw()) < 1<<15 {
						if len(pool) < 96 {
							pool = append(pool, c)
						} else if st.Evaluations%16 == 0 {
							pool[st.Evaluations/16%len(pool)] = c
						}
					}
					h := fnv.New64a()
					h.Write(raw())
					if _, ok := st.hashes[h.Sum64()]; !ok {
						st.hashes[h.Sum64()] = struct{}{}
						if n := len(st.hashes); n == 2 || n == 23 {
							st.Samples = append(st.Samples, truncate(string(raw()), 600))
						}
					}
				}
				w.mu.Unlock()
			}
			if err != nil {
				var inc inconclusive
				var hb harnessBug
				if errors.As(err, &inc) {
					w.mu.Lock()
					st.Inconclusive++
					if st.Inconclusive > 4+sp.Quick/100 && last == nil {
						stop = err
					}
					w.mu.Unlock()
					return nil
				}
				if errors.As(err, &hb) {
					stop = err
					return nil
				}
				if last == nil {
					failed = time.Now()
				}
				last = &failure{Property: sp.Prop, Sub: sp.Name, Error: err.Error(), Case: append([]byte{}, raw()...)}
			}
			return err
		}
		if sp.Enum != nil {
			i := 0
			sp.Enum(w.tier == "thorough", func(c C) bool {
				i++
				if i%w.shards != w.shard {
					return true
				}
				return one(c) == nil && stop == nil
			})
			w.fail, w.err = last, stop
			return
		}
		n := s.quick
		if w.tier == "thorough" {
			n = s.thorough
		}
		n = (n + w.shards - 1) / w.shards
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.seed", strconv.FormatUint(hash64(w.seed, w.shard, sp.Prop, sp.Name)|1, 10))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "20s")
		t := &tb{name: sp.Prop + "/" + sp.Name}
		done := make(chan struct{})
		finished := false
		go func() {
			defer close(done)
			rapid.Check(t, func(rt *rapid.T) {
				c := sp.Gen(rt)
				if stop != nil {
					return
				}
				if one(c) != nil {
					rt.Fatalf("property violated") // one message, so that rapid shrinks across causes
				}
			})
			finished = true
		}()
		<-done
		if last == nil && stop == nil && (t.failed || !finished) {
			stop = harnessBug{fmt.Errorf("rapid did not complete: %s", truncate(t.log.String(), 4000))}
		}
		w.fail = last
		if last == nil {
			w.err = stop
		}
	}
	registry = append(registry, s)
	if shareable {
		registerTogether(sp, &pool)
	}
}

// togetherCase is a set of cases whose outcome must not depend on what other goroutines do with other objects.
type togetherCase[C any] struct {
	Cases []C
}

// registerTogether adds the concurrent repetition of a pure sub-check: cases that passed one by one are run again on
// several goroutines at once, each with objects of its own.
func registerTogether[C any](sp Spec[C], pool *[]C) {
	s := &sub{prop: sp.Prop, name: sp.Name + "-together"}
	all := func(cases []C, d time.Duration) (int, int, error) {
		var runs []func() error
		for _, c := range cases {
			c := c
			runs = append(runs, func() error { return guard(func() error { return sp.Run(c) }) })
		}
		return lanes(runs, d)
	}
	s.replay = func(raw json.RawMessage) error {
		var c togetherCase[C]
		if err := json.Unmarshal(raw, &c); err != nil {
			return harnessBug{err}
		}
		_, _, err := all(c.Cases, 500*time.Millisecond)
		return err
	}
	s.run = func(w *worker) {
		st := &subStats{Rule: "up to 96 cases of " + sp.Name + " that passed, run again on 4 goroutines at once, each with objects of its own", Labels: map[string]int{}, hashes: map[uint64]struct{}{}}
		w.mu.Lock()
		w.stats[s.name] = st
		w.mu.Unlock()
		if len(*pool) < 2 {
			return
		}
		raw, err := json.Marshal(togetherCase[C]{*pool})
		if err != nil {
			w.err = harnessBug{err}
			return
		}
		w.noteCurrent(s.name, raw)
		d := 300 * time.Millisecond
		if w.tier == "thorough" {
			d = 20 * time.Second
		}
		n, at, err := all(*pool, d)
		st.Evaluations = len(*pool)
		st.Labels["runs of a case"] = n
		for _, c := range *pool {
			b, _ := json.Marshal(c)
			h := fnv.New64a()
			h.Write(b)
			st.hashes[h.Sum64()] = struct{}{}
		}
		if err == nil {
			return
		}
		var hb harnessBug
		if errors.As(err, &hb) {
			w.err = err
			return
		}
		cases := *pool
		for i := range *pool { // a pair that shows it
			pair := []C{(*pool)[at], (*pool)[i]}
			if _, _, perr := all(pair, 100*time.Millisecond); perr != nil {
				cases, err = pair, perr
				break
			}
		}
		raw, _ = json.Marshal(togetherCase[C]{cases})
		w.fail = &failure{Property: sp.Prop, Sub: s.name, Error: "only while other goroutines use other objects: " + err.Error(), Case: raw}
	}
	registry = append(registry, s)
}

// lanes runs the functions again and again on four goroutines, until one fails or the time is up.
func lanes(runs []func() error, d time.Duration) (n, at int, err error) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	var stop int32
	end := time.Now().Add(d)
	for l := 0; l < 4; l++ {
		wg.Add(1)
		go func(l int) {
			defer wg.Done()
			for k := 0; atomic.LoadInt32(&stop) == 0 && time.Now().Before(end); k++ {
				i := (k + l*len(runs)/4 + k/len(runs)*l) % len(runs)
				e := runs[i]()
				mu.Lock()
				n++
				if e != nil {
					if err == nil {
						err, at = e, i
					}
					atomic.StoreInt32(&stop, 1)
				}
				mu.Unlock()
			}
		}(l)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(d + 120*time.Second):
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		mu.Lock()
		defer mu.Unlock()
		if bytes.Contains(buf, []byte(sutPath)) {
			return n, 0, fmt.Errorf("did not return\n%s", sutFrames(string(buf)))
		}
		return n, 0, harnessBug{fmt.Errorf("lanes did not return\n%s", buf)}
	}
	return
}

// noteSize limits the size of a case that is known to the parent if the worker dies.
const noteSize = 32 << 20

func noteName(dir string, shard int) string {
	return filepath.Join(dir, fmt.Sprintf("current-%d", shard))
}

// mapNote lets the parent see what the worker runs, at the cost of a copy.
func (w *worker) mapNote() error {
	f, err := os.OpenFile(noteName(w.dir, w.shard), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		return err
	}
	defer f.Close()
	if err := f.Truncate(noteSize); err != nil {
		return err
	}
	w.note, err = syscall.Mmap(int(f.Fd()), 0, noteSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	return err
}

func (w *worker) noteCurrent(name string, raw []byte) {
	if w.note == nil {
		return
	}
	binary.LittleEndian.PutUint64(w.note, 0)
	if n := 8 + len(name) + 1 + len(raw); n <= len(w.note) {
		copy(w.note[8:], name)
		w.note[8+len(name)] = 0
		copy(w.note[8+len(name)+1:], raw)
		binary.LittleEndian.PutUint64(w.note, uint64(n))
	}
}

// readNote is the case a worker was running when it ended.
func readNote(prop, dir string, shard int) *failure {
	b, err := os.ReadFile(noteName(dir, shard))
	if err != nil || len(b) < 8 {
		return nil
	}
	n := binary.LittleEndian.Uint64(b)
	if n < 9 || n > uint64(len(b)) {
		return nil
	}
	parts := bytes.SplitN(b[8:n], []byte{0}, 2)
	if len(parts) != 2 || !json.Valid(parts[1]) {
		return nil
	}
	return &failure{Property: prop, Sub: string(parts[0]), Error: "the process died while running this case", Case: parts[1]}
}

// isolated runs a case in a process of its own.
func (w *worker) isolated(name string, raw []byte) error {
	b, _ := json.Marshal(failure{Property: w.prop, Sub: name, Case: raw})
	path := filepath.Join(w.dir, "isolated.json")
	self, err := os.Executable()
	if err != nil || os.WriteFile(path, b, 0o644) != nil {
		return nil
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "replay", path)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "VERIF_ONCE=1", "GOTRACEBACK=single", "VERIF_CRASH=")
	out, err := cmd.CombinedOutput()
	if kind, trace := crashOf(out); err != nil && strings.Contains(trace, sutPath) {
		return errors.New("the process ended: " + kind + "\n" + sutFrames(trace))
	}
	return nil
}

// watchdog reports a pure case that burns CPU or heap far beyond anything its size explains, or that waits for something
// that nothing will bring about.
func (w *worker) watchdog() {
	const cpuLimit, heapLimit = 20 * time.Second, 6 << 30
	var seen *current
	var cpu0 time.Duration
	waits := 0
	for {
		time.Sleep(250 * time.Millisecond)
		c, _ := w.cur.Load().(*current)
		if c == nil || !c.pure {
			seen = nil
			continue
		}
		if c != seen {
			seen, cpu0, waits = c, cpuTime(), 0
			continue
		}
		why := ""
		if d := cpuTime() - cpu0; d > cpuLimit {
			why = fmt.Sprintf("did not return within %v of CPU time", d.Round(time.Second))
		} else if time.Since(c.since) > time.Second {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > heapLimit {
				why = fmt.Sprintf("still running with %d MB of live heap", ms.HeapAlloc>>20)
			}
			if _, w := sutStack(); w {
				waits++
			} else {
				waits = 0
			}
			if waits > 60 {
				why = "waits for something that nothing in the process brings about"
			}
		}
		if why == "" {
			continue
		}
		stack, _ := sutStack()
		if cc, _ := w.cur.Load().(*current); cc != c {
			continue
		}
		if stack == "" {
			fmt.Fprintf(os.Stderr, "watchdog: %s, but not in the code under test\n", why)
			os.Exit(3)
		}
		w.stuck(&failure{Property: w.prop, Sub: c.sub, Error: why + "\n" + sutFrames(stack), Case: c.raw()})
	}
}

// sutStack is the stack of the goroutine that runs the case, if it is in the code under test, and whether it waits.
func sutStack() (stack string, waits bool) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "\n"+sutPath) || !strings.Contains(g, ".guard(") {
			continue
		}
		head := g[:strings.IndexByte(g, '\n')]
		for _, s := range []string{"[run", "[syscall", "[GC", "[preempted", "[copystack", "[waiting"} {
			if strings.Contains(head, s) {
				return g, false
			}
		}
		return g, true
	}
	return "", false
}

type shardResult struct {
	Stats map[string]*subStats
	Fail  *failure
	Err   string
}

// finish writes the shard's result for the parent.
func (w *worker) finish() {
	w.mu.Lock()
	defer w.mu.Unlock()
	r := shardResult{Stats: w.stats, Fail: w.fail}
	if w.err != nil {
		r.Err = w.err.Error()
	}
	for _, st := range w.stats {
		st.Nontrivial = len(st.hashes)
		b := make([]byte, 0, 8*len(st.hashes))
		for h := range st.hashes {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		st.Hashes = b
	}
	b, err := json.Marshal(r)
	if err == nil {
		tmp := filepath.Join(w.dir, fmt.Sprintf("result-%d.tmp", w.shard))
		if err = os.WriteFile(tmp, b, 0o644); err == nil {
			err = os.Rename(tmp, filepath.Join(w.dir, fmt.Sprintf("result-%d.json", w.shard)))
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func runWorker(w *worker) {
	debug.SetMaxStack(maxStack)
	w.stats = map[string]*subStats{}
	w.cur.Store((*current)(nil))
	if err := w.mapNote(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	only := onlySub
	if path := os.Getenv("VERIF_CRASH"); path != "" {
		w.crash = &failure{}
		if b, err := os.ReadFile(path); err != nil || json.Unmarshal(b, w.crash) != nil {
			os.Exit(3)
		}
		only = w.crash.Sub
	}
	w.stuck = func(f *failure) {
		w.fail = f
		w.finish()
		os.Exit(0)
	}
	go w.watchdog()
	for _, s := range registry {
		if s.prop != w.prop || (only != "" && s.name != only) {
			continue
		}
		s.run(w)
		if w.fail != nil || w.err != nil {
			break
		}
	}
	w.finish()
}

// maxStack makes endless recursion end sooner.
const maxStack = 256 << 20
