package main

// C33: objects used side by side.  This check is built with the race detector, if the tool chain has it.

import (
	"fmt"
	"os"
	"sync"
	"time"

	"pgregory.net/rapid"
)

type call struct {
	Sub  string // a pure sub-check of another property
	Seed int    // of the case
}

type callsCase struct{ Calls []call }

type sideSession struct {
	Mix      mixCase
	Commands []string
}

type sideCase struct {
	Sessions []sideSession
	Calls    []call // meanwhile
}

// alone makes the sessions and calls of a case take turns, to tell a race between them from one inside a session.
var alone = os.Getenv("VERIF_ALONE") != ""

func findSub(name string) *sub {
	for _, s := range registry {
		if s.prop+"/"+s.name == name {
			return s
		}
	}
	return nil
}

// runsOf gives the calls that succeed on their own; the others are a matter of their own property.
func runsOf(calls []call) (runs []func() error, err error) {
	for _, c := range calls {
		s := findSub(c.Sub)
		if s == nil || s.example == nil {
			return nil, harnessBug{fmt.Errorf("no sub-check %s", c.Sub)}
		}
		f := s.example(c.Seed)
		if f() == nil {
			runs = append(runs, f)
		}
	}
	return
}

func genCalls(t *rapid.T, max int) []call {
	var names []string
	for _, s := range registry {
		if s.example != nil && s.name != "huge-extension" {
			names = append(names, s.prop+"/"+s.name)
		}
	}
	some := rapid.SliceOfN(rapid.SampledFrom(names), 1, 3).Draw(t, "which")
	n := rapid.IntRange(2, max).Draw(t, "calls")
	var out []call
	for i := 0; i < n; i++ {
		out = append(out, call{rapid.SampledFrom(some).Draw(t, "sub"), rapid.IntRange(0, 1<<30).Draw(t, "seed")})
	}
	return out
}

// runSession plays one session to its end.
func (s sideSession) run(x *run) error {
	data, _, want, err := x.mixStream(s.Mix)
	if err != nil {
		return err
	}
	x.cam.cuts = s.Mix.Cuts
	if err := x.cam.send(data); err != nil {
		return err
	}
	if err := x.drain(); err != nil {
		return err
	}
	for i, w := range want {
		st, err := x.cl.state()
		if err != nil {
			return fmt.Errorf("stage %s: %w", stageNames[w], err)
		}
		if st != w {
			return fmt.Errorf("stage %d is %s instead of %s", i, stageNames[st], stageNames[w])
		}
	}
	x.cam.cuts = s.Mix.Spec.Cuts
	for _, cmd := range s.Commands {
		if err := x.command(cmd); err != nil {
			return err
		}
	}
	if err := x.settled(); err != nil {
		return err
	}
	for i, p := range x.got {
		if err := samePacket(p, x.want[i]); err != nil {
			return fmt.Errorf("packet %d, later: %v", i, err)
		}
	}
	return nil
}

func runSide(c sideCase) error {
	return settle(func() error {
		calls, err := runsOf(c.Calls)
		if err != nil {
			return err
		}
		errs := make([]error, len(c.Sessions))
		var wg, turn sync.WaitGroup
		for i := range c.Sessions {
			wg.Add(1)
			turn.Add(1)
			go func(i int) {
				defer wg.Done()
				defer turn.Done()
				errs[i] = guard(func() error {
					x, err := startRun(c.Sessions[i].Mix.Spec)
					if err != nil {
						return err
					}
					defer x.close()
					x.gapless = true // numbers taken by other sessions would leave gaps
					return c.Sessions[i].run(x)
				})
			}(i)
			if alone {
				turn.Wait()
			}
		}
		if len(calls) > 0 && !alone {
			_, _, err = lanes(calls, 10*time.Millisecond)
		}
		wg.Wait()
		for i, e := range errs {
			if e != nil {
				err = fmt.Errorf("session %d of %d: %w", i, len(c.Sessions), e)
			}
		}
		return err
	})
}

func init() {
	register(Spec[callsCase]{
		Prop: "C33", Name: "calls", Quick: 1200, Thorough: 20000,
		Rule: "2-12 generated cases of the parser and formatter checks of C02-C21, run alone and then again and again on four goroutines at once, each with objects of its own, under the race detector: each must go as it does alone; non-trivial: all",
		Gen:  func(t *rapid.T) callsCase { return callsCase{genCalls(t, 12)} },
		Run: func(c callsCase) error {
			runs, err := runsOf(c.Calls)
			if err != nil || len(runs) == 0 || alone {
				return err
			}
			if _, _, err := lanes(runs, 15*time.Millisecond); err != nil {
				return fmt.Errorf("only while other goroutines use other objects: %w", err)
			}
			return nil
		},
	})
	register(Spec[sideCase]{
		Prop: "C33", Name: "sessions", Quick: 600, Thorough: 12000,
		Rule: "2-6 sessions of one process at the same time, over TCP and HTTP, with credentials, commands, interleaved packets and answers of their own, while other goroutines use parsers, under the race detector: each goes as it does alone; non-trivial: all",
		Gen: func(t *rapid.T) sideCase {
			var c sideCase
			for i := rapid.IntRange(2, 6).Draw(t, "sessions"); i > 0; i-- {
				s := sideSession{Mix: genMix(t), Commands: genCommands(t)}
				for j := range s.Mix.Items {
					s.Mix.Items[j].Data.Len %= 6000
				}
				s.Mix.Spec.Lag = 0
				if rapid.Bool().Draw(t, "auth") {
					s.Mix.Spec.NoUser = false
					s.Mix.Spec.Auth = genAuth(t, 2+len(s.Mix.Spec.Streams)+len(s.Mix.Commands))
				}
				c.Sessions = append(c.Sessions, s)
			}
			c.Calls = genCalls(t, 4)
			return c
		},
		Labels: func(c sideCase) (l []string) {
			for _, s := range c.Sessions {
				n := protoName(s.Mix.Spec.Proto)
				if s.Mix.Spec.Auth.On {
					n += " with credentials"
				}
				l = append(l, n)
			}
			return
		},
		Run: runSide,
	})
}
