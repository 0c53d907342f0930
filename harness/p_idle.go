package main

// C23, C25, C26 and C29 where nothing comes for a long time.

import (
	"fmt"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"pgregory.net/rapid"
)

// idleCase are sessions side by side that spend most of their time waiting.
type idleCase struct {
	Sessions []idleSession
}

type idleSession struct {
	Spec  camSpec
	Steps []idleStep
	Gaps  []int // milliseconds before each answer of the handshake
}

type idleStep struct {
	Wait   int       // milliseconds of silence before
	Verb   string    // a command, or "" for a packet
	Hold   int       // milliseconds between the command and its answer, or between the parts of the packet
	Ch     byte      // channel
	Data   bytesSpec // payload
	Prefix int       // bytes of the frame that come before the pause
}

func (s idleSession) pauses() (longest int) {
	for _, g := range s.Gaps {
		if g > longest {
			longest = g
		}
	}
	for _, st := range s.Steps {
		if st.Wait > longest {
			longest = st.Wait
		}
		if st.Hold > longest {
			longest = st.Hold
		}
	}
	return
}

func genIdle(t *rapid.T, protos []int, packets, challenged, slow bool) idleCase {
	var c idleCase
	for i := rapid.IntRange(8, 16).Draw(t, "sessions"); i > 0; i-- {
		s := idleSession{Spec: genSpec(t, rapid.SampledFrom(protos).Draw(t, "protocol"), 2)}
		s.Spec.Lag = 0
		if challenged {
			s.Spec.NoUser = false
			s.Spec.Auth = genAuth(t, 4+len(s.Spec.Streams))
		} else if !s.Spec.NoUser && rapid.Bool().Draw(t, "challenged") {
			s.Spec.Auth = genAuth(t, 4+len(s.Spec.Streams))
		}
		left := 28000
		pause := func(what string) int {
			d := rapid.SampledFrom([]int{0, 0, 50, 2100, 3000, 4300, 6500, 9000, 13000, 22000, 28000}).Draw(t, what)
			if d > left {
				d = left
			}
			left -= d
			return d
		}
		if slow || rapid.IntRange(0, 3).Draw(t, "slow handshake") == 0 {
			for k := rapid.IntRange(1, 4).Draw(t, "gaps"); k > 0; k-- {
				s.Gaps = append(s.Gaps, pause("gap"))
			}
		}
		for k := rapid.IntRange(2, 6).Draw(t, "steps"); k > 0; k-- {
			st := idleStep{Wait: pause("wait")}
			if rapid.IntRange(0, 2).Draw(t, "kind") > 0 != packets {
				st.Verb = rapid.SampledFrom([]string{"PLAY", "PAUSE", "PLAY", "TEARDOWN"}).Draw(t, "verb")
			} else {
				st.Ch = rapid.Byte().Draw(t, "channel")
				st.Data = genBytesSpec(t, "payload", 3000)
				st.Prefix = rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, 3000)).Draw(t, "prefix")
			}
			st.Hold = pause("hold")
			s.Steps = append(s.Steps, st)
		}
		c.Sessions = append(c.Sessions, s)
	}
	return c
}

func (s idleSession) run() error {
	x, err := startRun(s.Spec)
	if err != nil {
		return err
	}
	defer x.close()
	sleep := func(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond) }
	n := 0
	x.gap = func() error {
		if n < len(s.Gaps) {
			sleep(s.Gaps[n])
		}
		n++
		return nil
	}
	if err := x.handshake(); err != nil {
		return err
	}
	x.gap = nil
	for i, st := range s.Steps {
		sleep(st.Wait)
		if err := x.idle(st, func() { sleep(st.Hold) }); err != nil {
			return fmt.Errorf("step %d, after %d and %d ms of silence: %w", i, st.Wait, st.Hold, err)
		}
	}
	return x.settled()
}

func (x *run) idle(st idleStep, pause func()) error {
	if st.Verb == "" {
		p := rtsp.RawPacket{Channel: st.Ch, Payload: st.Data.make()}
		x.want = append(x.want, p)
		b := frame(p.Channel, p.Payload)
		n := st.Prefix
		if n > len(b) {
			n = len(b)
		}
		if err := x.cam.send(b[:n]); err != nil {
			return err
		}
		pause()
		if err := x.cam.send(b[n:]); err != nil {
			return err
		}
		return x.drain()
	}
	if err := x.issue(st.Verb); err != nil {
		return err
	}
	m, err := x.accept()
	if err != nil {
		return fmt.Errorf("waiting for %s: %w", st.Verb, err)
	}
	if err := x.checkCommand(m, st.Verb); err != nil {
		return err
	}
	pause()
	if x.takeStates(); len(x.states) > 0 {
		return fmt.Errorf("stage %s reported before %s was answered", stageNames[x.states[0]], st.Verb)
	}
	if err := x.send(m, answer{Code: 200, Header: x.sessionHeader()}); err != nil {
		return err
	}
	got, err := x.cl.state()
	if err != nil {
		return fmt.Errorf("%s was answered: %w", st.Verb, err)
	}
	if got != stageOf[st.Verb] {
		return fmt.Errorf("stage %s reported for %s", stageNames[got], st.Verb)
	}
	return nil
}

func runIdle(c idleCase) error {
	return settle(func() error {
		errs := make(chan error, len(c.Sessions))
		for _, s := range c.Sessions {
			go func() { errs <- guard(s.run) }()
		}
		var first error
		for range c.Sessions {
			if err := <-errs; err != nil && first == nil {
				first = err
			}
		}
		return first
	})
}

func init() {
	both := []int{rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoHTTP}
	for _, p := range []struct {
		prop, what          string
		protos              []int
		packets, challenged bool
		slow                bool
	}{
		{"C23", "packets", both, true, false, false},
		{"C24", "commands", both, false, false, true},
		{"C25", "challenged commands", both, false, true, false},
		{"C26", "commands", both, false, false, false},
		{"C29", "commands", []int{rtsp.ProtoHTTP}, false, false, false},
	} {
		register(Spec[idleCase]{
			Prop: p.prop, Name: "silence", Quick: 8, Thorough: 400,
			Rule: "8-16 sessions at once over TCP or HTTP (C29: HTTP), some or all challenged, mostly with " + p.what + ", where nothing comes for up to 28 seconds: between commands, before the answers of the handshake, before an answer and inside a packet; what comes afterwards is handled as usual; non-trivial: a pause beyond the client's time-out of two seconds",
			Gen:  func(t *rapid.T) idleCase { return genIdle(t, p.protos, p.packets, p.challenged, p.slow) },
			Nontrivial: func(c idleCase) bool {
				for _, s := range c.Sessions {
					if s.pauses() > 2000 {
						return true
					}
				}
				return false
			},
			Run: runIdle,
		})
	}
}
