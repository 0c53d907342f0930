package main

import (
	"fmt"
	"sync"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"pgregory.net/rapid"
)

// historyCase is a session that goes on for many commands.
type historyCase struct {
	Spec    camSpec
	N       int
	Verbs   []string // repeated for ever
	Workers int      // goroutines that issue them
	Window  int      // commands that may be outstanding
	Order   []int    // picks the outstanding command that is answered next
	Codes   []int
	Packets []int // packets before each answer
	Demand  int   // every so many commands are challenged anew; 0: none
}

func genHistory(t *rapid.T, proto int) historyCase {
	c := historyCase{
		Spec:    genSpec(t, proto, 2),
		N:       rapid.OneOf(rapid.IntRange(1000, 3000), rapid.IntRange(1000, 3000), rapid.IntRange(3000, 12000)).Draw(t, "commands"),
		Verbs:   rapid.SliceOfN(rapid.SampledFrom([]string{"PLAY", "PAUSE", "OPTIONS", "TEARDOWN"}), 1, 6).Draw(t, "verbs"),
		Workers: 1,
		Window:  rapid.SampledFrom([]int{1, 2, 8, 40}).Draw(t, "window"),
		Order:   rapid.SliceOfN(rapid.IntRange(0, 40), 1, 6).Draw(t, "order"),
		Codes:   rapid.SliceOfN(rapid.SampledFrom([]int{200, 200, 200, 454, 500}), 1, 6).Draw(t, "codes"),
		Packets: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2}), 1, 6).Draw(t, "packets"),
	}
	if rapid.IntRange(0, 7).Draw(t, "very long") == 0 {
		c.N = rapid.IntRange(66000, 70000).Draw(t, "commands")
		if c.Window < 8 {
			c.Window = 8
		}
	}
	c.Spec.Cuts, c.Spec.Lag, c.Spec.Order = nil, 0, nil
	return c
}

// challenged adds credentials, and challenges with new nonces along the way.
func (c *historyCase) challenged(t *rapid.T) {
	c.Spec.NoUser = false
	c.Spec.Auth = genAuth(t, 2+len(c.Spec.Streams))
	c.Spec.Auth.Rotate, c.Spec.Auth.FreshEach = nil, false
	if c.N > 12000 {
		c.N = 12000
	}
	if !c.Spec.Auth.Ch.Basic && rapid.IntRange(0, 2).Draw(t, "renewed") > 0 {
		c.Demand = rapid.SampledFrom([]int{7, 50, 333}).Draw(t, "every")
		for k := c.Demand; k < c.N; k += c.Demand {
			c.Spec.Auth.Rotate = append(c.Spec.Auth.Rotate, k+20)
		}
	}
}

func runHistory(c historyCase) error {
	return withRun(c.Spec, func(x *run) error {
		if err := x.handshake(); err != nil {
			return err
		}
		if err := x.drain(); err != nil {
			return err
		}
		x.want, x.got = nil, nil
		x.loose = true
		if c.Workers > 1 {
			x.concurrent = true
			if x.verifier != nil {
				x.verifier.anyNC = true
				x.verifier.used = map[uint64]bool{}
				for i := uint64(1); i <= x.verifier.lastNC; i++ {
					x.verifier.used[i] = true
				}
			}
		}
		first := x.lastCseq
		slots := make(chan struct{}, c.Window)
		halt := make(chan struct{})
		errs := make(chan error, c.Workers)
		var mu sync.Mutex
		var wg sync.WaitGroup
		issued := 0
		defer wg.Wait()
		defer close(halt)
		for w := 0; w < c.Workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs <- func() error {
					for {
						select {
						case slots <- struct{}{}:
						case <-halt:
							return nil
						}
						mu.Lock()
						if issued == c.N {
							mu.Unlock()
							return nil
						}
						verb := c.Verbs[issued%len(c.Verbs)]
						issued++
						mu.Unlock()
						if err := x.issue(verb); err != nil {
							return err
						}
					}
				}()
			}()
		}
		var open []*message
		var want []int
		reported, sent := 0, 0
		stages := func(all bool) error {
			for reported < len(want) {
				var st int
				if all {
					var err error
					if st, err = x.cl.state(); err != nil {
						return fmt.Errorf("stage %d of %d: %w", reported, len(want), err)
					}
				} else {
					select {
					case st = <-x.cl.states:
					default:
						return nil
					}
				}
				if st != want[reported] {
					return fmt.Errorf("stage %d is %s, want %s", reported, stageNames[st], stageNames[want[reported]])
				}
				reported++
			}
			return nil
		}
		seen := make([]bool, c.N+1)
		deadline := time.Now().Add(wait() + time.Duration(c.N)*20*time.Millisecond)
		for n := 0; n < c.N; {
			if time.Now().After(deadline) {
				return latef("%d of %d commands", n, c.N)
			}
			m, err := x.accept()
			if err != nil {
				select {
				case e := <-errs:
					if e != nil {
						err = fmt.Errorf("%v; %w", e, err)
					}
				default:
				}
				return fmt.Errorf("after %d of %d commands: %w", n, c.N, err)
			}
			i := m.cseq() - first
			if i < 1 || i > c.N || seen[i] {
				return fmt.Errorf("CSeq %d of %q, want each of %d-%d once", m.cseq(), m.Raw, first+1, first+c.N)
			}
			seen[i] = true
			verb := m.Method
			if c.Workers == 1 {
				verb = c.Verbs[(i-1)%len(c.Verbs)]
			}
			if err := x.checkCommand(m, verb); err != nil {
				return fmt.Errorf("command %d: %v", i, err)
			}
			open = append(open, m)
			n++
			// The client issues no more than fit into the window, and the rest may still be on its way.
			for len(open) > 0 && (len(open) >= c.Window/2 || n == c.N) && len(x.challenged) == 0 {
				k := c.Order[sent%len(c.Order)] % len(open)
				m := open[k]
				open = append(open[:k:k], open[k+1:]...)
				for i := c.Packets[sent%len(c.Packets)]; i > 0; i-- {
					p := rtsp.RawPacket{Channel: byte(sent % 250), Payload: fill(sent%40, sent)}
					x.want = append(x.want, p)
					if err := x.cam.send(frame(p.Channel, p.Payload)); err != nil {
						return err
					}
				}
				code := c.Codes[sent%len(c.Codes)]
				sent++
				if st, ok := stageOf[m.Method]; ok && code == 200 {
					want = append(want, st)
				}
				if err := x.send(m, answer{Code: code}); err != nil {
					return err
				}
				<-slots
			}
			if err := stages(false); err != nil {
				return err
			}
			if err := x.takePackets(); err != nil {
				return err
			}
		}
		if err := stages(true); err != nil {
			return err
		}
		for w := 0; w < c.Workers; w++ {
			select {
			case err := <-errs:
				if err != nil {
					return err
				}
			case <-time.After(wait()):
				return latef("commands do not return")
			}
		}
		return x.settled()
	})
}

func fill(n, v int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v + i)
	}
	return b
}

// takePackets compares the packets that have come with those that were sent, and forgets both.
func (x *run) takePackets() error {
	for {
		select {
		case p := <-x.cl.packets:
			if len(x.want) == 0 {
				return fmt.Errorf("a packet of %d bytes that was never sent", len(p.Payload))
			}
			if err := samePacket(p, x.want[0]); err != nil {
				return err
			}
			x.want = x.want[1:]
		default:
			return nil
		}
	}
}

func init() {
	labels := func(c historyCase) []string {
		return []string{protoName(c.Spec.Proto), fmt.Sprintf("auth: %v", c.Spec.Auth.On), fmt.Sprintf("window of %d", c.Window), fmt.Sprintf("%d workers", c.Workers), fmt.Sprintf("over 65536 commands: %v", c.N > 65536)}
	}
	direct := func(t *rapid.T) int {
		return rapid.SampledFrom([]int{rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoHTTP}).Draw(t, "proto")
	}
	const rule = "sessions of 1000 to 70000 commands, up to 40 of them outstanding, answered in and out of order by 200 and other codes, with packets in between: every request whole, with the next CSeq, its method and the session id, every stage and packet delivered; "
	register(Spec[historyCase]{
		Prop: "C26", Name: "long", Quick: 96, Thorough: 1600,
		Rule:   rule + "non-trivial: all",
		Gen:    func(t *rapid.T) historyCase { return genHistory(t, direct(t)) },
		Labels: labels, Run: runHistory,
	})
	register(Spec[historyCase]{
		Prop: "C25", Name: "long", Quick: 96, Thorough: 1600,
		Rule: rule + "challenged, and challenged again with a new nonce every 7 to 333 commands or never; non-trivial: all",
		Gen: func(t *rapid.T) historyCase {
			c := genHistory(t, direct(t))
			c.challenged(t)
			return c
		},
		Labels: labels, Run: runHistory,
	})
	register(Spec[historyCase]{
		Prop: "C27", Name: "long", Quick: 96, Thorough: 1600,
		Rule: rule + "issued by 2-6 goroutines, with and without credentials; non-trivial: all",
		Gen: func(t *rapid.T) historyCase {
			c := genHistory(t, direct(t))
			if rapid.Bool().Draw(t, "auth") {
				c.challenged(t)
				c.Demand, c.Spec.Auth.Rotate = 0, nil
			}
			c.Workers = rapid.IntRange(2, 6).Draw(t, "workers")
			if c.Window < c.Workers {
				c.Window = 8
			}
			return c
		},
		Labels: labels, Run: runHistory,
	})
	register(Spec[historyCase]{
		Prop: "C23", Name: "long", Quick: 48, Thorough: 800,
		Rule: rule + "with up to 80 packets before each answer; non-trivial: all",
		Gen: func(t *rapid.T) historyCase {
			c := genHistory(t, direct(t))
			if c.N > 3000 {
				c.N = 3000
			}
			c.Packets = rapid.SliceOfN(rapid.IntRange(0, 80), 1, 6).Draw(t, "packets")
			return c
		},
		Labels: labels, Run: runHistory,
	})
	register(Spec[historyCase]{
		Prop: "C29", Name: "long", Quick: 96, Thorough: 1600,
		Rule: rule + "all through the tunnel, on one POST; non-trivial: all",
		Gen: func(t *rapid.T) historyCase {
			c := genHistory(t, rtsp.ProtoHTTP)
			if rapid.Bool().Draw(t, "auth") {
				c.challenged(t)
			}
			return c
		},
		Labels: labels, Run: runHistory,
	})
}
