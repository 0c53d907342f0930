package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

// harness check ID      run a property (VERIF_SEED, VERIF_TIER)
// harness replay FILE   run one saved case
// harness list          list the sub-checks

// quickShards is the number of worker processes of properties that mostly wait; ownNet tells which of them get a network
// namespace each, if the system allows it, because the client under test uses fixed UDP ports.
var (
	quickShards = map[string]int{"C01": 8, "C22": 8, "C23": 8, "C24": 8, "C25": 8, "C26": 8, "C27": 8, "C28": 8, "C29": 8, "C30": 8, "C31": 16, "C32": 64, "C33": 8, "C34": 8, "C35": 48, "C36": 8}
	ownNet      = map[string]bool{"C24": true, "C25": true, "C28": true, "C30": true, "C31": true, "C38": true}
)

var onlySub = os.Getenv("VERIF_SUB") // development: run only this sub-check

func main() {
	testing.Init()
	flag.Parse()
	log.SetOutput(io.Discard)
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: harness check ID | replay FILE | list")
		os.Exit(2)
	}
	switch args[0] {
	case "check":
		os.Exit(check(args[1]))
	case "worker":
		seed, _ := strconv.ParseUint(args[3], 10, 64)
		shard, _ := strconv.Atoi(args[4])
		shards, _ := strconv.Atoi(args[5])
		if os.Getenv("VERIF_NETNS") == "1" {
			if err := enterNetns(); err != nil {
				fmt.Fprintln(os.Stderr, "netns:", err)
				os.Exit(4)
			}
		}
		runWorker(&worker{prop: args[1], tier: args[2], seed: seed, shard: shard, shards: shards, dir: args[6]})
	case "replay":
		os.Exit(replay(args[1]))
	case "list":
		for _, s := range registry {
			fmt.Printf("%s\t%s\t%d\t%d\t%s\n", s.prop, s.name, s.quick, s.thorough, s.rule)
		}
	default:
		os.Exit(2)
	}
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func verifDir() string { return env("VERIF_DIR", "/verif") }

func seedFromEnv() (raw int64, seed uint64) {
	s := env("VERIF_SEED", "1")
	if v, err := strconv.ParseInt(s, 10, 64); err == nil {
		return v, uint64(v)
	}
	h := hash64(s)
	return int64(h >> 1), h
}

// panicOf extracts the trace of the goroutine that crashed, if the output of a dead process has one.
var goroutineRE = regexp.MustCompile(`(?m)^goroutine \d+ [^\n]*\[running[^\n]*\]:\n(?:[^\n]+\n)*`)

func crashOf(out []byte) (kind, trace string) {
	// What the code under test prints need not end in a new line.
	i := bytes.Index(out, []byte("panic: "))
	if j := bytes.Index(out, []byte("fatal error: ")); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		return "", ""
	}
	msg := out[i:]
	kind = string(msg[:bytes.IndexByte(append(msg, '\n'), '\n')])
	trace = string(goroutineRE.Find(append(msg, '\n')))
	return
}

// raceOf extracts the first report of the race detector of which both sides are in the code under test.
func raceOf(out []byte) (kind, trace string) {
	for _, rep := range bytes.Split(out, []byte("==================\n")) {
		if !bytes.HasPrefix(rep, []byte("WARNING: DATA RACE")) {
			continue
		}
		parts := bytes.Split(rep, []byte("\n\n"))
		if len(parts) > 1 && bytes.Contains(parts[0], []byte(sutPath)) && bytes.Contains(parts[1], []byte(sutPath)) {
			var lines []string
			for _, l := range bytes.Split(append(parts[0], parts[1]...), []byte("\n")) {
				lines = append(lines, strings.TrimSpace(string(l)))
			}
			return "data race", strings.Join(lines, "\n")
		}
	}
	return "", ""
}

// racesAlone tells whether the race detector also reports something if the sessions and calls of a case take turns.
func racesAlone(self, path string) bool {
	for i := 0; i < 5; i++ {
		cmd := exec.Command(self, "replay", path)
		cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "VERIF_ALONE=1", "GOTRACEBACK=single", "GORACE=halt_on_error=1")
		if out, _ := cmd.CombinedOutput(); bytes.Contains(out, []byte("WARNING: DATA RACE")) {
			return true
		}
	}
	return false
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int64                  `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

func check(prop string) int {
	start := time.Now()
	tier := env("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	rawSeed, seed := seedFromEnv()
	var mine []*sub
	for _, s := range registry {
		if s.prop == prop {
			mine = append(mine, s)
		}
	}
	if len(mine) == 0 {
		fmt.Fprintln(os.Stderr, "no such property:", prop)
		return 2
	}
	dir, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	shards := 8
	if n := quickShards[prop]; n > 0 {
		shards = n
	}
	if tier == "thorough" && shards < 8 {
		shards = 8
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_SHARDS")); err == nil && v > 0 {
		shards = v
	}
	limit := 600 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var mu sync.Mutex
	var fail *failure
	var broken []string
	stats := map[string]*subStats{}
	hashes := map[string]map[uint64]struct{}{}
	var wg sync.WaitGroup
	var crashed func() *failure // finds a smaller case of which the process dies
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var out bytes.Buffer
			start := func(ctx context.Context, netns bool, gorace, dir string, extra ...string) error {
				out.Reset()
				cmd := exec.CommandContext(ctx, self, "worker", prop, tier, strconv.FormatUint(seed, 10), strconv.Itoa(i), strconv.Itoa(shards), dir)
				cmd.Stdout, cmd.Stderr = &out, &out
				cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
				cmd.Env = append(append(os.Environ(), "GOTRACEBACK=single", "GORACE="+gorace), extra...)
				if netns {
					cmd.Env = append(cmd.Env, "VERIF_NETNS=1")
					cmd.SysProcAttr.Cloneflags = syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET
					cmd.SysProcAttr.UidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}}
					cmd.SysProcAttr.GidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}}
				}
				return cmd.Run()
			}
			var err error
			netns := ownNet[prop] && os.Getenv("VERIF_NO_NETNS") == ""
			if netns {
				err = start(ctx, true, "halt_on_error=1", dir)
				var ee *exec.ExitError
				if err != nil && (!errors.As(err, &ee) || ee.ExitCode() == 4) {
					netns = false // no namespace to be had: the UDP cases take turns instead
				}
			}
			if !netns {
				err = start(ctx, false, "halt_on_error=1", dir)
			}
			if err != nil && bytes.Contains(out.Bytes(), []byte("WARNING: DATA RACE")) {
				// Only a race between what different sessions or calls do is judged; with any other the results are.
				again := true
				if kind, _ := raceOf(out.Bytes()); kind != "" {
					if f := readNote(prop, dir, i); f != nil {
						cur := filepath.Join(dir, fmt.Sprintf("current-%d.json", i))
						b, _ := json.Marshal(f)
						again = os.WriteFile(cur, b, 0o644) != nil || racesAlone(self, cur)
					}
				}
				if again {
					err = start(ctx, false, "halt_on_error=0 exitcode=0", dir)
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if fail != nil && ctx.Err() != nil {
				return // ended because another shard has found a violation
			}
			b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result-%d.json", i)))
			var r shardResult
			if err == nil && rerr == nil {
				rerr = json.Unmarshal(b, &r)
			}
			switch {
			case err == nil && rerr == nil:
				for n, st := range r.Stats {
					t := stats[n]
					if t == nil {
						t = &subStats{Rule: st.Rule, Labels: map[string]int{}, Exhaustive: st.Exhaustive}
						stats[n] = t
						hashes[n] = map[uint64]struct{}{}
					}
					t.Evaluations += st.Evaluations
					t.Inconclusive += st.Inconclusive
					for l, c := range st.Labels {
						t.Labels[l] += c
					}
					if len(t.Samples) < 2 {
						t.Samples = append(t.Samples, st.Samples...)
					}
					for j := 0; j+8 <= len(st.Hashes); j += 8 {
						hashes[n][binary.LittleEndian.Uint64(st.Hashes[j:])] = struct{}{}
					}
				}
				if r.Fail != nil {
					if fail == nil || len(r.Fail.Case) < len(fail.Case) {
						fail = r.Fail
					}
					cancel()
				} else if r.Err != "" {
					broken = append(broken, fmt.Sprintf("shard %d: %s", i, r.Err))
				}
			default:
				kind, trace := crashOf(out.Bytes())
				if kind == "" {
					kind, trace = raceOf(out.Bytes())
				}
				if f := readNote(prop, dir, i); f != nil && strings.Contains(trace, sutPath) {
					f.Error = "the process ended: " + kind + "\n" + sutFrames(trace)
					fail = f
					cancel()
					crashed = func() *failure {
						d := filepath.Join(dir, "shrink")
						path := filepath.Join(dir, "crash.json")
						b, _ := json.Marshal(f)
						if os.Mkdir(d, 0o755) != nil || os.WriteFile(path, b, 0o644) != nil {
							return nil
						}
						ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
						defer cancel()
						if start(ctx, netns, "halt_on_error=0 exitcode=0", d, "VERIF_CRASH="+path) != nil {
							return nil
						}
						var r shardResult
						b, err := os.ReadFile(filepath.Join(d, fmt.Sprintf("result-%d.json", i)))
						if err != nil || json.Unmarshal(b, &r) != nil {
							return nil
						}
						return r.Fail
					}
					return
				}
				broken = append(broken, fmt.Sprintf("shard %d: %v %v: %s", i, err, rerr, truncate(out.String(), 1500)))
			}
		}(i)
	}
	wg.Wait()
	if crashed != nil {
		if f := crashed(); f != nil && len(f.Case) <= len(fail.Case) {
			fail = f
		}
	}
	guided := map[string]interface{}{}
	if bin := os.Getenv("VERIF_FUZZ"); tier == "thorough" && bin != "" && fail == nil && len(broken) == 0 {
		for _, s := range mine {
			if !s.pure || s.body == nil || fail != nil {
				continue
			}
			res, f, err := guidedSearch(ctx, bin, s, rawSeed, dir)
			if err != nil {
				broken = append(broken, fmt.Sprintf("coverage-guided search of %s: %v", s.name, err))
			}
			guided[s.name], fail = res, f
		}
	}

	ev := evidence{Property: prop, Tier: tier, Seed: rawSeed, Level: "exploration", Coverage: map[string]interface{}{}, Assumptions: assumptions[prop]}
	if ev.Assumptions == nil {
		ev.Assumptions = []string{}
	}
	ev.Assumptions = append(ev.Assumptions, "generated-input search: it shows no violation among the cases explored, not absence")
	var names []string
	for n := range stats {
		names = append(names, n)
	}
	sort.Strings(names)
	total, nontriv := 0, 0
	var rules []string
	samples := []string{}
	subs := map[string]interface{}{}
	exhaustive := len(names) > 0
	for _, n := range names {
		st := stats[n]
		total += st.Evaluations
		nt := len(hashes[n])
		nontriv += nt
		rules = append(rules, n+": "+st.Rule)
		for i, s := range st.Samples {
			if i < 2 {
				samples = append(samples, n+": "+s)
			}
		}
		subs[n] = map[string]interface{}{"evaluations": st.Evaluations, "distinct_nontrivial": nt, "classes": st.Labels, "exhaustive": st.Exhaustive, "inconclusive": st.Inconclusive}
		exhaustive = exhaustive && st.Exhaustive
	}
	ev.Coverage["evaluations"] = total
	ev.Coverage["distinct_nontrivial"] = nontriv
	ev.Coverage["rule"] = strings.Join(rules, " | ")
	ev.Coverage["samples"] = samples
	ev.Coverage["sub_checks"] = subs
	ev.Coverage["exhaustive"] = exhaustive
	if len(guided) > 0 {
		ev.Coverage["coverage_guided"] = guided
	}
	code := 0
	if fail != nil {
		ev.Violations = 1
		code = 1
		path := filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%s-%d.json", prop, fail.Sub, rawSeed))
		os.MkdirAll(filepath.Dir(path), 0o755)
		b, _ := json.MarshalIndent(fail, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		fmt.Printf("%s/%s: %s\ncase: %s\n", prop, fail.Sub, fail.Error, truncate(string(fail.Case), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	} else if len(broken) > 0 {
		fmt.Fprintf(os.Stderr, "ERROR: %s could not be decided:\n%s\n", prop, strings.Join(broken, "\n"))
		code = 2
	}
	ev.WallS = float64(int(time.Since(start).Seconds()*100)) / 100
	b, _ := json.MarshalIndent(ev, "", " ")
	epath := filepath.Join(verifDir(), "evidence", prop+".json")
	os.MkdirAll(filepath.Dir(epath), 0o755)
	if err := os.WriteFile(epath, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if code == 0 {
			code = 2
		}
	}
	if code == 0 {
		fmt.Printf("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs\n", prop, tier, rawSeed, total, nontriv, ev.WallS)
	}
	return code
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if os.Getenv("VERIF_CHILD") == "" { // the case may end the process that runs it
		self, err := os.Executable()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		cmd := exec.Command(self, "replay", path)
		cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "GOTRACEBACK=single", "GORACE=halt_on_error=1")
		out, err := cmd.CombinedOutput()
		if kind, _ := raceOf(out); kind != "" && !racesAlone(self, path) {
			os.Stdout.Write(out)
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
			return 1
		}
		if kind, trace := crashOf(out); strings.Contains(trace, sutPath) {
			fmt.Printf("the process ended: %s\n%s\n", kind, sutFrames(trace))
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
			return 1
		}
		os.Stdout.Write(out)
		if bytes.Contains(out, []byte("WARNING: DATA RACE")) {
			cmd = exec.Command(self, "replay", path)
			cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "GORACE=halt_on_error=0 exitcode=0")
			cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
			err = cmd.Run()
		}
		if cmd.ProcessState == nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		return cmd.ProcessState.ExitCode()
	}
	debug.SetMaxStack(maxStack)
	w := &worker{prop: f.Property, stuck: func(x *failure) {
		fmt.Println(x.Error)
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
		os.Exit(1)
	}}
	once := os.Getenv("VERIF_ONCE") != ""
	for _, s := range registry {
		if s.prop == f.Property && s.name == f.Sub {
			start := time.Now()
			w.cur.Store(&current{sub: s.name, raw: func() []byte { return f.Case }, since: start, pure: s.pure})
			go w.watchdog()
			err := s.replay(f.Case)
			// What goroutines and the network do differs from time to time.
			for i := 0; err == nil && !s.pure && !once && i < 100 && (!alone || i < 10) && time.Since(start) < 40*time.Second; i++ {
				err = s.replay(f.Case)
			}
			if err == nil {
				fmt.Println("the property holds on this case")
				return 0
			}
			fmt.Println(err)
			switch err.(type) {
			case inconclusive, harnessBug:
				return 2
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
			return 1
		}
	}
	fmt.Fprintln(os.Stderr, "no sub-check", f.Property, f.Sub)
	return 2
}
