package main

// Coverage-guided search, thorough tier: Go's fuzzer mutates the stream of random numbers that the generator of a
// pure sub-check draws from, and keeps those that reach new code in the code under test.

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
)

type guidedResult struct {
	Execs       int    `json:"executions"`
	Interesting int    `json:"inputs_that_reached_new_code"`
	Time        string `json:"time"`
}

var fuzzLine = regexp.MustCompile(`execs: (\d+) .*new interesting: (\d+)`)

func guidedSearch(ctx context.Context, bin string, s *sub, seed int64, dir string) (*guidedResult, *failure, error) {
	res := &guidedResult{Time: env("VERIF_FUZZ_TIME", "60s")}
	d := filepath.Join(dir, "guided-"+s.name)
	if err := os.MkdirAll(filepath.Join(d, "cache"), 0o755); err != nil {
		return res, nil, err
	}
	defer os.RemoveAll(d)
	out := filepath.Join(d, "fail.json")
	run := func(extra []string, args ...string) ([]byte, error) {
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Dir = d
		cmd.Env = append(os.Environ(), append(extra, "VERIF_FUZZ_SUB="+s.prop+"/"+s.name, "VERIF_FUZZ_SEED="+strconv.FormatInt(seed, 10), "VERIF_FUZZ_OUT="+out)...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		return cmd.CombinedOutput()
	}
	load := func(path string) *failure {
		var f failure
		if b, err := os.ReadFile(path); err == nil && json.Unmarshal(b, &f) == nil {
			return &f
		}
		return nil
	}
	log, err := run(nil, "-test.run=^$", "-test.fuzz=^FuzzSub$", "-test.fuzztime="+res.Time, "-test.fuzzminimizetime=20s", "-test.fuzzcachedir="+filepath.Join(d, "cache"), "-test.parallel=8")
	for _, m := range fuzzLine.FindAllSubmatch(log, -1) {
		res.Execs, _ = strconv.Atoi(string(m[1]))
		res.Interesting, _ = strconv.Atoi(string(m[2]))
	}
	if f := load(out); f != nil {
		return res, f, nil
	}
	if err == nil {
		return res, nil, nil
	}
	// The process ended.  Find out on which case.
	found, _ := filepath.Glob(filepath.Join(d, "testdata/fuzz/FuzzSub/*"))
	for _, p := range found {
		trace := filepath.Join(d, "trace.json")
		os.Remove(trace)
		again, err := run([]string{"VERIF_FUZZ_TRACE=" + trace, "GOTRACEBACK=single"}, "-test.run=^FuzzSub$/^"+filepath.Base(p)+"$", "-test.timeout=60s")
		if f := load(out); f != nil {
			return res, f, nil
		}
		if f := load(trace); err != nil && f != nil && bytes.Contains(again, []byte(sutPath)) {
			kind, tr := crashOf(again)
			if kind == "" {
				kind, tr = "the call does not return", string(again)
			}
			f.Error = "the process ended: " + kind + "\n" + sutFrames(tr)
			return res, f, nil
		}
	}
	if len(found) == 0 && ctx.Err() == nil && strings.Contains(string(log), "context deadline exceeded") {
		return res, nil, nil // the fuzzer's own way of being late at the end of its time
	}
	return res, nil, errors.New(fmt.Sprint(err, ": ", truncate(string(log), 3000)))
}
