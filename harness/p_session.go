package main

// C24-C27: the RTSP session against a scripted camera.

import (
	"fmt"
	"sync"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"pgregory.net/rapid"
)

type sessionCase struct {
	Spec     camSpec
	Commands []string // issued after the handshake, one after the other
	Burst    []string // then issued without waiting for answers
}

// withRun runs f on a session and cleans up.
func withRun(spec camSpec, f func(x *run) error) error {
	return settle(func() error {
		if spec.Proto == rtsp.ProtoUnicast {
			unlock, err := lockUDP()
			if err != nil {
				return err
			}
			defer unlock()
		}
		x, err := startRun(spec)
		if err != nil {
			return err
		}
		defer x.close()
		if spec.Proto == rtsp.ProtoUnicast {
			defer func() {
				if x.cl.s.Conn != nil {
					stopUDP(x)
				}
			}()
		}
		return f(x)
	})
}

func protoName(p int) string {
	return []string{"TCP", "UDP", "multicast", "HTTP"}[p]
}

func genCommands(t *rapid.T) []string {
	cmds := []string{"PLAY"}
	for i := rapid.IntRange(0, 3).Draw(t, "commands"); i > 0; i-- {
		cmds = append(cmds, rapid.SampledFrom([]string{"PLAY", "PAUSE"}).Draw(t, "command"))
	}
	return append(cmds, "TEARDOWN")
}

// histCase is a history of commands and answers for C26.
type histCase struct {
	Spec  camSpec
	Steps []histStep
}

type histStep struct {
	Cmd    string // issue this command, or
	Answer int    // answer the i-th outstanding request (modulo their number) with Code
	Code   int
	Stray  string // or send an answer nobody waits for: unknown, repeated, zero
	Frame  bool   // or an interleaved packet
}

type manyCase struct {
	Spec    camSpec
	Workers [][]string
	Answers []int // order and codes of the answers
}

type rejectCase struct {
	Spec   camSpec
	At     int // index of the request from which on every request is rejected
	Times  int
	Repeat string   // whether the nonce stays the same
	Beside []string // if not empty: the session is ready, these commands are outstanding
	Only   []int    // and of these the camera rejects those, in turn
}

func init() {
	genSess := func(t *rapid.T) sessionCase {
		protos := []int{rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoHTTP, rtsp.ProtoUnicast}
		c := sessionCase{Spec: genSpec(t, rapid.SampledFrom(protos).Draw(t, "proto"), rapid.SampledFrom([]int{5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 20}).Draw(t, "max"))}
		for i := range c.Spec.Streams {
			if rapid.IntRange(0, 4).Draw(t, "refuse") == 0 {
				c.Spec.Streams[i].Refuse = rapid.OneOf(rapid.SampledFrom([]int{404, 461, 500, 453}), rapid.IntRange(402, 599), rapid.Just(400), rapid.IntRange(300, 305)).Draw(t, "status")
			}
		}
		c.Commands = genCommands(t)
		return c
	}
	labels := func(c sessionCase) (l []string) {
		l = append(l, protoName(c.Spec.Proto), fmt.Sprintf("%d streams", len(c.Spec.Streams)))
		for _, s := range c.Spec.Streams {
			if s.Refuse != 0 {
				l = append(l, "refused stream")
				break
			}
		}
		for _, s := range c.Spec.Streams {
			if s.Absolute {
				l = append(l, "absolute control")
				break
			}
		}
		if len(c.Spec.Order) > 0 {
			l = append(l, "answers out of order")
		}
		return
	}
	register(Spec[sessionCase]{
		Prop: "C24", Name: "handshake", Quick: 4000, Thorough: 30000,
		Rule: "cameras with 1-20 video streams (audio in between), relative and absolute control URIs, refused streams, SETUP answers in any order, spelling and segmentation, over TCP, UDP and HTTP; non-trivial: more than one stream",
		Gen:  genSess, Labels: labels, Nontrivial: func(c sessionCase) bool { return len(c.Spec.Streams) > 1 },
		Run: func(c sessionCase) error {
			return withRun(c.Spec, func(x *run) error {
				if err := x.handshake(); err != nil {
					return err
				}
				if err := x.settled(); err != nil {
					return err
				}
				if x.spec.Proto == rtsp.ProtoUnicast {
					return nil // keep-alives would mix with the commands
				}
				for _, cmd := range c.Commands {
					if err := x.command(cmd); err != nil {
						return err
					}
				}
				return x.settled()
			})
		},
	})
	register(Spec[sessionCase]{
		Prop: "C25", Name: "challenges", Quick: 3000, Thorough: 30000,
		Rule: "sessions in which the camera demands Basic or Digest credentials from any request on, changes the nonce now and then, and challenges several outstanding requests; the repeated and all later requests must verify; non-trivial: Digest",
		Gen: func(t *rapid.T) sessionCase {
			c := genSess(t)
			c.Spec.NoUser = false
			c.Spec.Auth = genAuth(t, 2+len(c.Spec.Streams)+len(c.Commands))
			if c.Spec.Proto == rtsp.ProtoUnicast { // no commands then
				c.Spec.Auth.Start %= 2 + len(c.Spec.Streams)
			}
			if rapid.Bool().Draw(t, "burst") {
				c.Burst = append([]string{}, rapid.SliceOfN(rapid.SampledFrom([]string{"PLAY", "PAUSE"}), 2, 4).Draw(t, "burst")...)
				c.Commands = c.Commands[:len(c.Commands)-1]
				c.Spec.Auth.Start = rapid.IntRange(0, 2+len(c.Spec.Streams)+len(c.Commands)+1).Draw(t, "challenged from")
			}
			return c
		},
		Nontrivial: func(c sessionCase) bool { return !c.Spec.Auth.Ch.Basic },
		Labels: func(c sessionCase) (l []string) {
			l = append(labels(c), c.Spec.Auth.Ch.labels()...)
			n := 2 + len(c.Spec.Streams)
			switch s := c.Spec.Auth.Start; {
			case s < 2:
				l = append(l, "from the start")
			case s < n:
				l = append(l, "from a SETUP")
			case s >= n+len(c.Commands):
				l = append(l, "from a burst of commands")
			default:
				l = append(l, "from a command")
			}
			if len(c.Spec.Auth.Rotate) > 0 {
				l = append(l, "nonce changes")
			}
			if c.Spec.Auth.Either > 0 {
				l = append(l, "either scheme")
			}
			return
		},
		Run: func(c sessionCase) error {
			return withRun(c.Spec, func(x *run) error {
				if err := x.handshake(); err != nil {
					return err
				}
				if x.spec.Proto == rtsp.ProtoUnicast {
					return x.settled()
				}
				for _, cmd := range c.Commands {
					if err := x.command(cmd); err != nil {
						return err
					}
				}
				if len(c.Burst) > 0 {
					for _, cmd := range c.Burst {
						if err := x.issue(cmd); err != nil {
							return err
						}
					}
					got := map[int]bool{}
					for range c.Burst {
						m, err := x.accept()
						if err != nil {
							return fmt.Errorf("waiting for a burst of %v: %w", c.Burst, err)
						}
						if got[m.cseq()] {
							return fmt.Errorf("CSeq %d accepted twice: %q", m.cseq(), m.Raw)
						}
						got[m.cseq()] = true
						if m.Method != "PLAY" && m.Method != "PAUSE" {
							return fmt.Errorf("unexpected %q", m.Raw)
						}
						if err := x.checkCommand(m, m.Method); err != nil {
							return err
						}
						if err := x.send(m, answer{Code: 200}); err != nil {
							return err
						}
						st, err := x.cl.state()
						if err != nil {
							return fmt.Errorf("%s was answered: %w", m.Method, err)
						}
						if st != stageOf[m.Method] {
							return fmt.Errorf("stage %s reported for %s", stageNames[st], m.Method)
						}
					}
				}
				return x.settled()
			})
		},
	})
	register(Spec[rejectCase]{
		Prop: "C25", Name: "rejections", Quick: 600, Thorough: 6000,
		Rule: "cameras that answer every request from some point on (of a handshake, or one or two of several outstanding commands) with 401, whatever credentials come, with the same or a fresh nonce, and URIs without credentials: the same request must not come again without bound, and not at all without credentials; non-trivial: all",
		Gen: func(t *rapid.T) rejectCase {
			c := rejectCase{Spec: genSpec(t, rapid.SampledFrom([]int{rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoHTTP}).Draw(t, "proto"), 1), Times: 12, Repeat: rapid.SampledFrom([]string{"same", "fresh", "stale"}).Draw(t, "nonce")}
			c.Spec.NoUser = rapid.IntRange(0, 2).Draw(t, "no user") == 0
			c.Spec.Auth.Ch = genChallenge(t)
			c.At = rapid.IntRange(0, 2).Draw(t, "at")
			if rapid.IntRange(0, 2).Draw(t, "several outstanding") == 0 {
				c.Beside = rapid.SliceOfN(rapid.SampledFrom([]string{"PLAY", "PAUSE", "TEARDOWN"}), 1, 4).Draw(t, "commands")
				c.Only = []int{rapid.IntRange(0, len(c.Beside)-1).Draw(t, "rejected")}
				if rapid.Bool().Draw(t, "two") {
					c.Only = append(c.Only, rapid.IntRange(0, len(c.Beside)-1).Draw(t, "rejected too"))
				}
			}
			return c
		},
		Labels: func(c rejectCase) []string {
			l := []string{c.Repeat, fmt.Sprintf("credentials: %v", !c.Spec.NoUser)}
			if len(c.Beside) > 1 {
				l = append(l, "others outstanding")
			}
			return l
		},
		Run: func(c rejectCase) error {
			return withRun(c.Spec, func(x *run) error {
				var ms []*message
				if len(c.Beside) > 0 {
					if err := x.handshake(); err != nil {
						return err
					}
					for _, cmd := range c.Beside {
						if err := x.issue(cmd); err != nil {
							return err
						}
						m, err := x.accept()
						if err != nil {
							return err
						}
						ms = append(ms, m)
					}
					var only []*message
					for _, i := range c.Only {
						only = append(only, ms[i])
					}
					if len(only) == 2 && only[0] == only[1] {
						only = only[:1]
					}
					ms = only
				} else {
					for i := 0; i <= c.At; i++ {
						m, err := x.accept()
						if err != nil {
							return err
						}
						if i < c.At {
							a := answer{Code: 200}
							if m.Method == "DESCRIBE" {
								a.Body = x.sdp()
							}
							if err := x.send(m, a); err != nil {
								return err
							}
						}
						ms = []*message{m}
					}
				}
				for i := 0; i < c.Times*len(ms); i++ {
					m := ms[i%len(ms)]
					ch := c.Spec.Auth.Ch
					if c.Repeat != "same" {
						ch.Nonce = fmt.Sprintf("%s%d", ch.Nonce, i)
					}
					v := ch.plain()
					if c.Repeat == "stale" && !ch.Basic {
						v += ", stale=true"
					}
					if err := x.send(m, answer{Code: 401, Header: [][2]string{{"WWW-Authenticate", v}}}); err != nil {
						return nil // the client has given up and closed
					}
					// Wait for the repetition; the first one must come if there are credentials.
					var r camReq
					select {
					case r = <-x.cam.reqs:
					case <-time.After(map[bool]time.Duration{true: wait(), false: 40 * time.Millisecond}[i == 0 && !c.Spec.NoUser]):
						if i == 0 && !c.Spec.NoUser {
							return latef("a challenged %s is not repeated", m.Method)
						}
						return nil
					}
					if r.err == errHangup {
						return nil
					}
					if r.err != nil {
						return r.err
					}
					if c.Spec.NoUser {
						return fmt.Errorf("repeated without credentials: %q", r.m.Raw)
					}
					if err := sameRequest(r.m, m); err != nil {
						return err
					}
				}
				return fmt.Errorf("%s was repeated %d times though the camera rejects the credentials", ms[0].Method, c.Times)
			})
		},
	})
	register(Spec[histCase]{
		Prop: "C26", Name: "histories", Quick: 2500, Thorough: 50000,
		Rule: "histories (1-25 steps, rarely up to 600) of PLAY, PAUSE, TEARDOWN and OPTIONS, issued with answers outstanding, and of answers in any order with any status, repeated and stray answers and interleaved packets; the stages reported must be those of the 200 answers in their order; non-trivial: an answer out of order or a stray one or another status",
		Gen: func(t *rapid.T) histCase {
			c := histCase{Spec: genSpec(t, rapid.SampledFrom([]int{rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoHTTP}).Draw(t, "proto"), 2)}
			n := rapid.IntRange(1, 25).Draw(t, "steps")
			if rapid.IntRange(0, 39).Draw(t, "long") == 0 {
				n = rapid.SampledFrom([]int{100, 300, 600}).Draw(t, "steps")
			}
			for i := 0; i < n; i++ {
				switch rapid.IntRange(0, 9).Draw(t, "step") {
				case 0, 1, 2, 3:
					c.Steps = append(c.Steps, histStep{Cmd: rapid.SampledFrom([]string{"PLAY", "PLAY", "PAUSE", "PAUSE", "TEARDOWN", "OPTIONS"}).Draw(t, "command")})
				case 4, 5, 6, 7:
					c.Steps = append(c.Steps, histStep{Answer: rapid.IntRange(0, 5).Draw(t, "which"), Code: rapid.SampledFrom([]int{200, 200, 200, 200, 201, 250, 302, 400, 404, 454, 455, 457, 500, 503, 551, 100}).Draw(t, "code")})
				case 8:
					c.Steps = append(c.Steps, histStep{Stray: rapid.SampledFrom([]string{"unknown", "repeated", "zero", "setup"}).Draw(t, "stray"), Code: rapid.SampledFrom([]int{200, 200, 454}).Draw(t, "code")})
				case 9:
					c.Steps = append(c.Steps, histStep{Frame: true})
				}
			}
			return c
		},
		Labels: func(c histCase) (l []string) {
			for _, s := range c.Steps {
				switch {
				case s.Stray != "":
					l = append(l, "stray "+s.Stray)
				case s.Cmd != "":
					l = append(l, "command")
				case s.Code == 200:
					l = append(l, "answer 200")
				case s.Code != 0:
					l = append(l, "answer other")
				}
			}
			return
		},
		Nontrivial: func(c histCase) bool {
			for _, s := range c.Steps {
				if s.Stray != "" || (s.Cmd == "" && !s.Frame && (s.Code != 200 || s.Answer > 0)) {
					return true
				}
			}
			return false
		},
		Run: func(c histCase) error {
			return withRun(c.Spec, func(x *run) error {
				if err := x.handshake(); err != nil {
					return err
				}
				setup := x.lastCseq
				var open []*message
				var last *message
				var want []int
				reply := func(m *message, code int) error {
					last = m
					if st, ok := stageOf[m.Method]; ok && code == 200 {
						want = append(want, st)
					}
					return x.send(m, answer{Code: code})
				}
				for _, s := range c.Steps {
					switch {
					case s.Cmd != "":
						if err := x.issue(s.Cmd); err != nil {
							return err
						}
						m, err := x.accept()
						if err != nil {
							return fmt.Errorf("waiting for %s: %w", s.Cmd, err)
						}
						if err := x.checkCommand(m, s.Cmd); err != nil {
							return err
						}
						open = append(open, m)
					case s.Stray != "":
						seq := x.lastCseq + 1000
						switch {
						case s.Stray == "repeated" && last != nil:
							seq = last.cseq()
						case s.Stray == "zero":
							seq = 0
						case s.Stray == "setup":
							seq = setup
						}
						if err := x.cam.send(answer{Code: s.Code}.wire(seq, x.spec.Style)); err != nil {
							return err
						}
					case s.Frame:
						if err := x.fence(); err != nil {
							return err
						}
					case len(open) > 0:
						i := s.Answer % len(open)
						m := open[i]
						open = append(open[:i:i], open[i+1:]...)
						if err := reply(m, s.Code); err != nil {
							return err
						}
					}
				}
				for _, m := range open {
					if err := reply(m, 200); err != nil {
						return err
					}
				}
				for i, w := range want {
					st, err := x.cl.state()
					if err != nil {
						return fmt.Errorf("stage %d (%s): %w", i, stageNames[w], err)
					}
					if st != w {
						return fmt.Errorf("stage %d is %s, want %s", i, stageNames[st], stageNames[w])
					}
				}
				return x.settled()
			})
		},
	})
	register(Spec[manyCase]{
		Prop: "C27", Name: "concurrent_commands", Quick: 6000, Thorough: 60000,
		Rule: "2-8 goroutines issuing up to 30 (rarely 80) commands each at the same time, with answers and interleaved packets in between, with and without Digest credentials; non-trivial: all",
		Gen: func(t *rapid.T) manyCase {
			c := manyCase{Spec: genSpec(t, rapid.SampledFrom([]int{rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoHTTP}).Draw(t, "proto"), 2)}
			c.Spec.Cuts = nil
			if rapid.Bool().Draw(t, "auth") {
				c.Spec.NoUser = false
				c.Spec.Auth = authPlan{On: true, Ch: genChallenge(t), Start: rapid.IntRange(0, 1).Draw(t, "from")}
			}
			lo, hi := 1, 30
			if rapid.IntRange(0, 19).Draw(t, "many") == 0 {
				lo, hi = 40, 80
			}
			for i := rapid.IntRange(2, 8).Draw(t, "workers"); i > 0; i-- {
				c.Workers = append(c.Workers, rapid.SliceOfN(rapid.SampledFrom([]string{"PLAY", "PAUSE", "OPTIONS", "TEARDOWN"}), lo, hi).Draw(t, "commands"))
			}
			c.Answers = rapid.SliceOfN(rapid.IntRange(0, 7), 1, 10).Draw(t, "answers")
			return c
		},
		Labels: func(c manyCase) []string {
			return []string{fmt.Sprintf("%d workers", len(c.Workers)), fmt.Sprintf("auth: %v", c.Spec.Auth.On)}
		},
		Run: func(c manyCase) error {
			return withRun(c.Spec, func(x *run) error {
				if err := x.handshake(); err != nil {
					return err
				}
				first := x.lastCseq
				total := 0
				left := map[string]int{}
				errs := make(chan error, len(c.Workers))
				var wg sync.WaitGroup
				start := make(chan struct{})
				for _, w := range c.Workers {
					total += len(w)
					for _, cmd := range w {
						left[cmd]++
					}
					wg.Add(1)
					go func(w []string) {
						defer wg.Done()
						<-start
						for _, cmd := range w {
							if err := x.issue(cmd); err != nil {
								errs <- err
								return
							}
						}
					}(w)
				}
				x.loose, x.concurrent = true, true
				if x.verifier != nil {
					x.verifier.anyNC = true
					x.verifier.used = map[uint64]bool{}
					for i := uint64(1); i <= x.verifier.lastNC; i++ {
						x.verifier.used[i] = true
					}
				}
				close(start)
				seen := map[int]bool{}
				var open []*message
				var want []int
				reply := func() error {
					i := c.Answers[len(want)%len(c.Answers)] % len(open)
					m := open[i]
					open = append(open[:i:i], open[i+1:]...)
					if st, ok := stageOf[m.Method]; ok {
						want = append(want, st)
					}
					return x.send(m, answer{Code: 200})
				}
				for i := 0; i < total; i++ {
					m, err := x.accept()
					if err != nil {
						select {
						case e := <-errs:
							err = fmt.Errorf("%v; %w", e, err)
						default:
						}
						return fmt.Errorf("after %d of %d commands: %w", i, total, err)
					}
					if err := x.checkCommand(m, m.Method); err != nil {
						return err
					}
					if seen[m.cseq()] || m.cseq() <= first || m.cseq() > first+total {
						return fmt.Errorf("CSeq %d of %q, want each of %d-%d once (seen: %v)", m.cseq(), m.Raw, first+1, first+total, seen[m.cseq()])
					}
					seen[m.cseq()] = true
					if left[m.Method]--; left[m.Method] < 0 {
						return fmt.Errorf("more %s than were issued", m.Method)
					}
					open = append(open, m)
					if c.Answers[i%len(c.Answers)]%2 == 0 {
						if err := reply(); err != nil {
							return err
						}
					}
				}
				wg.Wait()
				select {
				case err := <-errs:
					return err
				default:
				}
				for len(open) > 0 {
					if err := reply(); err != nil {
						return err
					}
				}
				for i, w := range want {
					st, err := x.cl.state()
					if err != nil {
						return fmt.Errorf("stage %d of %d (%s): %w", i, len(want), stageNames[w], err)
					}
					if st != w {
						return fmt.Errorf("stage %d is %s, want %s", i, stageNames[st], stageNames[w])
					}
				}
				return x.settled()
			})
		},
	})
}

// stopUDP closes the client's UDP listeners.
func stopUDP(x *run) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		guard(func() error { x.cl.s.Stop(); return nil })
	}()
	select {
	case <-done:
	case <-time.After(wait()):
	}
}
