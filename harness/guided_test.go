package main

import (
	"encoding/json"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// FuzzSub runs the sub-check VERIF_FUZZ_SUB on cases whose random numbers begin with those the fuzzer supplies.
func FuzzSub(f *testing.F) {
	debug.SetMaxStack(maxStack)
	want := os.Getenv("VERIF_FUZZ_SUB")
	var s *sub
	for _, x := range registry {
		if x.prop+"/"+x.name == want && x.body != nil {
			s = x
		}
	}
	if s == nil {
		f.Skip("no sub-check ", want)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_FUZZ_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	tail := make([]byte, 1<<14)
	rnd.Read(tail)
	for i := 0; i < 32; i++ {
		b := make([]byte, 64<<(i%6))
		rnd.Read(b)
		f.Add(b)
	}
	f.Add(make([]byte, 256))
	f.Add([]byte(strings.Repeat("\xff", 256)))
	write := func(env string, smaller bool) func(*failure) {
		path := os.Getenv(env)
		if path == "" {
			return nil
		}
		return func(x *failure) {
			b, err := json.Marshal(x)
			if err != nil {
				return
			}
			if fi, err := os.Stat(path); smaller && err == nil && fi.Size() <= int64(len(b)) {
				return
			}
			tmp := path + strconv.Itoa(os.Getpid())
			if os.WriteFile(tmp, b, 0o644) == nil {
				os.Rename(tmp, path)
			}
		}
	}
	onFail := write("VERIF_FUZZ_OUT", true)
	if onFail == nil {
		onFail = func(*failure) {}
	}
	trace := write("VERIF_FUZZ_TRACE", false)
	type now struct{ f func() *failure }
	var cur atomic.Value
	before := func(f func() *failure) {
		cur.Store(&now{f})
		if trace != nil {
			trace(f())
		}
	}
	go func() { // the fuzzer itself takes no notice of a case that does not end
		var seen *now
		var cpu0 time.Duration
		n := 0
		for {
			time.Sleep(250 * time.Millisecond)
			c, _ := cur.Load().(*now)
			if c != seen {
				seen, cpu0, n = c, cpuTime(), 0
			}
			if n++; n < 60 || c == nil {
				continue
			}
			if st, waits := sutStack(); st != "" && (waits || cpuTime()-cpu0 > 10*time.Second) {
				x := c.f()
				x.Error = "the call does not return\n" + sutFrames(st)
				onFail(x)
				os.Exit(3)
			}
		}
	}()
	run := rapid.MakeFuzz(func(rt *rapid.T) { s.body(rt, before, onFail) })
	f.Fuzz(func(t *testing.T, b []byte) {
		run(t, append(b[:len(b):len(b)], tail...))
	})
}
