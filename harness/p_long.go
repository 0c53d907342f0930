package main

// C26 with a user of a single goroutine, and C36: long histories.

import (
	"bufio"
	"fmt"
	"net"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/hls"
	"github.com/aboukirev/ouro/net/rtsp"
	"pgregory.net/rapid"
)

// soloCase is a session whose user issues commands and looks at stages and packets in one goroutine, as cmd/ouro does.
type soloCase struct {
	Spec  camSpec
	Steps []soloStep
	Size  int // of packets
}

type soloStep struct {
	Commands []string // issued one after the other, without looking at anything in between
	Before   int      // packets that the camera sends before each answer
	After    int      // and after it
	Look     int      // stages and packets looked at afterwards, if there are as many
}

func runSolo(c soloCase) error {
	return settle(func() error {
		x, err := newRun(c.Spec)
		if err != nil {
			return err
		}
		x.external = true // the camera's part knows only what is on the wire
		defer x.close()
		var wantStages []int
		var wantPackets [][]byte
		packet := func(n int) []byte {
			b := bytesSpec{Seed: uint64(n + 1), Len: c.Size, Kind: n % 2}.make()
			return append([]byte{byte(n), byte(n >> 8)}, b...)
		}
		wantStages = append(wantStages, rtsp.StageReady)
		for _, st := range c.Steps {
			for _, cmd := range st.Commands {
				wantStages = append(wantStages, stageOf[cmd])
				for i := 0; i < st.Before+st.After; i++ {
					wantPackets = append(wantPackets, packet(len(wantPackets)))
				}
			}
		}
		camera := make(chan error, 1)
		go func() {
			camera <- func() error {
				if err := x.handshake(); err != nil {
					return err
				}
				n := 0
				frames := func(k int) error {
					var b []byte
					for ; k > 0; k-- {
						b = append(b, frame(byte(n%4), packet(n))...)
						n++
					}
					if b == nil {
						return nil
					}
					return x.cam.send(b)
				}
				for _, st := range c.Steps {
					for _, cmd := range st.Commands {
						m, err := x.accept()
						if err != nil {
							return fmt.Errorf("waiting for %s: %w", cmd, err)
						}
						if err := x.checkCommand(m, cmd); err != nil {
							return err
						}
						if err := frames(st.Before); err != nil {
							return err
						}
						if err := x.send(m, answer{Code: 200, Header: x.sessionHeader()}); err != nil {
							return err
						}
						if err := frames(st.After); err != nil {
							return err
						}
					}
				}
				return nil
			}()
		}()
		user := make(chan error, 1)
		var doing atomic.Value
		doing.Store("opening")
		go func() {
			s := rtsp.NewSession()
			x.cl = &client{s: s, quit: make(chan struct{})}
			user <- guard(func() error {
				if err := reallyOpen(s, x.uri(), c.Spec.Proto); err != nil {
					return fmt.Errorf("Open: %w", err)
				}
				stages, packets := 0, 0
				look := func() error {
					doing.Store(fmt.Sprintf("looking at stages and packets, %d and %d so far", stages, packets))
					select {
					case st := <-s.State:
						if stages == len(wantStages) || st != wantStages[stages] {
							return fmt.Errorf("stage %d is %s", stages, stageNames[st])
						}
						stages++
					case p := <-s.Data:
						if packets == len(wantPackets) {
							return fmt.Errorf("a packet too many")
						}
						if err := samePacket(p, rtsp.RawPacket{Channel: byte(packets % 4), Payload: wantPackets[packets]}); err != nil {
							return fmt.Errorf("packet %d: %v", packets, err)
						}
						packets++
					case <-time.After(wait()):
						return latef("%d of %d stages and %d of %d packets", stages, len(wantStages), packets, len(wantPackets))
					}
					return nil
				}
				for stages == 0 {
					if err := look(); err != nil {
						return err
					}
				}
				due := 1
				for _, st := range c.Steps {
					for _, cmd := range st.Commands {
						doing.Store(cmd)
						if err := map[string]func() error{"PLAY": s.Play, "PAUSE": s.Pause, "TEARDOWN": s.Teardown}[cmd](); err != nil {
							return fmt.Errorf("%s: %w", cmd, err)
						}
						due += 1 + st.Before + st.After
					}
					for i := 0; i < st.Look && stages+packets < due; i++ {
						if err := look(); err != nil {
							return err
						}
					}
				}
				for stages < len(wantStages) || packets < len(wantPackets) {
					if err := look(); err != nil {
						return err
					}
				}
				return nil
			})
		}()
		cam := camera
		for {
			select {
			case err := <-cam:
				if err != nil {
					return fmt.Errorf("at the camera, the user is %v: %w", doing.Load(), err)
				}
				cam = nil
			case err := <-user:
				if err != nil || cam == nil {
					return err
				}
				if err := <-cam; err != nil {
					return err
				}
				return x.cam.pending(0)
			case <-time.After(3 * wait()):
				return latef("nothing goes on, the user is %v", doing.Load())
			}
		}
	})
}

// grows runs step again and again and compares what the process holds after n and after 2n times.
func grows(n int, step func(i int) error, limit int64) error {
	heap := func() int64 {
		var ms runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&ms)
		return int64(ms.HeapAlloc)
	}
	run := func(from, to int) error {
		for i := from; i < to; i++ {
			if err := step(i); err != nil {
				return err
			}
		}
		return nil
	}
	if err := run(0, n); err != nil {
		return err
	}
	before, goroutines := heap(), runtime.NumGoroutine()
	if err := run(n, 2*n); err != nil {
		return err
	}
	grown := heap() - before
	// Something else in the process may have grown once; what leaks goes on growing.
	for k := 2; grown > limit && k < 4; k++ {
		before = heap()
		if err := run(k*n, (k+1)*n); err != nil {
			return err
		}
		grown = heap() - before
	}
	if grown > limit {
		return fmt.Errorf("%d more steps after %d make the process hold %d more bytes", n, n, grown)
	}
	if g := runtime.NumGoroutine(); g > goroutines+n/10+20 {
		return fmt.Errorf("%d more steps after %d leave %d more goroutines", n, n, g-goroutines)
	}
	return nil
}

const growth = 40_000

type longNAL struct {
	S nalSession
	N int
}

type longSets struct {
	S     []spsCase
	P     []ppsCase
	Sprop bool
	N     int
}

type longList struct {
	Cap, N, Render int
}

type longAuth struct {
	Ch challenge
	N  int
}

type longSession struct {
	Proto   int
	Size    int // of packets
	Frames  int // packets per command
	Auth    bool
	N       int
	Codes   []int // of the answers
	Replays bool  // answers come twice
}

// leanCamera answers without keeping anything.
func leanCamera(c longSession, conn net.Conn) {
	rd := bufio.NewReader(conn)
	payload := bytesSpec{Seed: 1, Len: c.Size}.make()
	nonce, left := 0, 0
	for k := 0; ; k++ {
		head, err := readHead(rd)
		if err != nil {
			return
		}
		m, err := parseRequest(head)
		if err != nil {
			return
		}
		if c.Auth {
			if left--; left < 0 || !strings.Contains(m.get("Authorization"), fmt.Sprintf(`"%dn"`, nonce)) {
				nonce++
				left = 50
				conn.Write(answer{Code: 401, Header: [][2]string{{"WWW-Authenticate", fmt.Sprintf(`Digest realm="r", nonce="%dn", qop="auth"`, nonce)}}}.wire(m.cseq(), 0))
				k--
				continue
			}
		}
		a := answer{Code: 200, Header: [][2]string{{"Session", "12345678;timeout=60"}}}
		switch m.Method {
		case "DESCRIBE":
			a.Body = []byte("v=0\r\nm=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=control:t0\r\n")
		case "SETUP":
			a.Header = append(a.Header, [2]string{"Transport", m.get("Transport")})
		case "PLAY", "PAUSE":
			a.Code = c.Codes[k%len(c.Codes)]
		}
		conn.Write(a.wire(m.cseq(), 0))
		if c.Replays {
			conn.Write(a.wire(m.cseq(), 0))
		}
		if m.Method == "PLAY" || m.Method == "PAUSE" {
			// The user, who waits for these, is then never more than one command ahead.
			for i := 0; i < c.Frames; i++ {
				conn.Write(frame(byte(i%2), payload))
			}
		}
	}
}

func runLongSession(c longSession) error {
	return settle(func() error {
		ln, err := listenLocal()
		if err != nil {
			return harnessBug{err}
		}
		defer ln.Close()
		go func() {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			defer conn.Close()
			leanCamera(c, conn)
		}()
		s := rtsp.NewSession()
		if err := reallyOpen(s, "rtsp://u:p@"+ln.Addr().String()+"/live", rtsp.ProtoTCP); err != nil {
			return inTime(err, "Open")
		}
		look := func(stages, packets int) error {
			t := time.NewTimer(wait())
			defer t.Stop()
			for stages > 0 || packets > 0 {
				select {
				case <-s.State:
					stages--
				case p := <-s.Data:
					if len(p.Payload) != c.Size {
						return fmt.Errorf("packet of %d bytes instead of %d", len(p.Payload), c.Size)
					}
					packets--
				case <-t.C:
					return latef("%d stages and %d packets are missing", stages, packets)
				}
			}
			return nil
		}
		if err := look(1, 0); err != nil {
			return err
		}
		return grows(c.N, func(i int) error {
			cmd := s.Play
			if i%2 == 1 {
				cmd = s.Pause
			}
			if i%5 == 4 {
				// The answer to this shows nowhere; the next command waits for it.
				if err := s.Options(); err != nil {
					return inTime(err, "OPTIONS %d", i)
				}
				return nil
			}
			if err := cmd(); err != nil {
				return inTime(err, "command %d", i)
			}
			stages := 0
			if c.Codes[(i+3)%len(c.Codes)] == 200 { // OPTIONS, DESCRIBE and SETUP came before
				stages = 1
			}
			return look(stages, c.Frames)
		}, growth)
	})
}

func init() {
	register(Spec[soloCase]{
		Prop: "C26", Name: "one_goroutine", Quick: 400, Thorough: 12000,
		Rule: "sessions whose user issues commands and looks at stages and packets in one and the same goroutine, 1-6 times 1-4 commands in a row without looking, while the camera answers at once and sends up to 60 packets around each answer; all stages and packets must come in order and no command may block for ever; non-trivial: several commands in a row and packets",
		Gen: func(t *rapid.T) soloCase {
			c := soloCase{Spec: genSpec(t, rapid.SampledFrom([]int{rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoHTTP}).Draw(t, "proto"), 2), Size: rapid.SampledFrom([]int{10, 200, 1400, 30000}).Draw(t, "size")}
			c.Spec.Lag, c.Spec.Cuts = 0, nil
			if rapid.IntRange(0, 2).Draw(t, "auth") == 0 {
				c.Spec.NoUser = false
				c.Spec.Auth = genAuth(t, 2+len(c.Spec.Streams))
				c.Spec.Auth.FreshEach, c.Spec.Auth.Rotate = false, nil
			}
			max := 30
			if c.Size > 10000 {
				max = 6
			}
			for i := rapid.IntRange(1, 6).Draw(t, "steps"); i > 0; i-- {
				c.Steps = append(c.Steps, soloStep{
					Commands: rapid.SliceOfN(rapid.SampledFrom([]string{"PLAY", "PAUSE"}), 1, 4).Draw(t, "commands"),
					Before:   rapid.IntRange(0, max).Draw(t, "before"), After: rapid.IntRange(0, max).Draw(t, "after"), Look: rapid.IntRange(0, 40).Draw(t, "look"),
				})
			}
			return c
		},
		Nontrivial: func(c soloCase) bool {
			for _, s := range c.Steps {
				if len(s.Commands) > 1 && s.Before+s.After > 0 {
					return true
				}
			}
			return false
		},
		Labels: func(c soloCase) []string { return []string{protoName(c.Spec.Proto)} },
		Run:    runSolo,
	})
	register(Spec[longNAL]{
		Prop: "C36", Name: "sink", Quick: 160, Thorough: 2000, Pure: true, Alone: true,
		Rule: "a history of 1-8 payloads of every kind, with fragments lost, pushed into one sink 2 x 3000 times: the second half must not make the process hold more; non-trivial: all",
		Gen: func(t *rapid.T) longNAL {
			kinds := []int{kSingle, kStapA, kStapB, kMtap16, kMtap24, kAnnexB, kSeries}
			return longNAL{nalSession{rapid.SliceOfN(genPayload(kinds, 300), 1, 8).Draw(t, "payloads")}, 3000}
		},
		Labels: func(c longNAL) []string { return c.S.labels() },
		Run: func(c longNAL) error {
			sink := h264.NewNALSink()
			var pkts [][]byte
			var ts []uint32
			for _, p := range c.S.Payloads {
				ps, _ := p.packets()
				pkts = append(pkts, ps...)
				for range ps {
					ts = append(ts, p.TS)
				}
			}
			return grows(c.N, func(i int) error {
				for k, p := range pkts {
					sink.Push(p, ts[k]+uint32(i)*3000)
				}
				return nil
			}, growth)
		},
	})
	register(Spec[longSets]{
		Prop: "C36", Name: "sets", Quick: 64, Thorough: 800, Pure: true, Alone: true,
		Rule: "1-4 sequence and picture parameter sets parsed into one store 2 x 2000 times; non-trivial: all",
		Gen: func(t *rapid.T) longSets {
			c := longSets{N: 2000, Sprop: rapid.Bool().Draw(t, "sprop")}
			for i := rapid.IntRange(1, 2).Draw(t, "sequence sets"); i > 0; i-- {
				c.S = append(c.S, genSPS(t))
			}
			for i := rapid.IntRange(0, 2).Draw(t, "picture sets"); i > 0; i-- {
				c.P = append(c.P, genPPS(t, c.S[0].ID, int(c.S[0].Chroma)))
			}
			return c
		},
		Run: func(c longSets) error {
			store := h264.NewParameterSets()
			var raws [][]byte
			for _, s := range c.S {
				b, _ := s.write()
				raws = append(raws, b)
			}
			for _, p := range c.P {
				b, _ := p.write()
				raws = append(raws, b)
			}
			return grows(c.N, func(i int) error {
				for k, b := range raws {
					if c.Sprop {
						typ := byte(7)
						if k >= len(c.S) {
							typ = 8
						}
						store.ParseSprop(sprop(1, typ, b))
					} else if k < len(c.S) {
						store.ParseSPS(b)
					} else {
						store.ParsePPS(b)
					}
				}
				return nil
			}, growth)
		},
	})
	register(Spec[longList]{
		Prop: "C36", Name: "playlist", Quick: 64, Thorough: 800, Pure: true, Alone: true,
		Rule: "2 x 20000 segments added to a playlist of 1-50, rendered now and then; non-trivial: all",
		Gen: func(t *rapid.T) longList {
			return longList{rapid.IntRange(1, 50).Draw(t, "capacity"), 20000, rapid.IntRange(1, 400).Draw(t, "render")}
		},
		Run: func(c longList) error {
			pl, err := hls.NewPlaylist("http://h/m", "/v.ts", c.Cap, 5)
			if err != nil {
				return err
			}
			return grows(c.N, func(i int) error {
				pl.AddSegment(float64(i%7), int64(i))
				if i%c.Render == 0 {
					_ = pl.String()
				}
				return nil
			}, growth)
		},
	})
	register(Spec[longAuth]{
		Prop: "C36", Name: "credentials", Quick: 64, Thorough: 800, Pure: true, Alone: true,
		Rule: "2 x 5000 authorizations for one challenge; non-trivial: all",
		Gen:  func(t *rapid.T) longAuth { return longAuth{genChallenge(t), 5000} },
		Run: func(c longAuth) error {
			d, err := rtsp.NewDigest("rtsp://h/", c.Ch.plain())
			if err != nil {
				return nil // C19
			}
			auth := d.Authenticate("user", "pass")
			return grows(c.N, func(i int) error {
				auth("PLAY", nil)
				return nil
			}, growth)
		},
	})
	register(Spec[longSession]{
		Prop: "C36", Name: "session", Quick: 48, Thorough: 400,
		Rule: "sessions over TCP with 2 x 5000 commands, answered with 200 or another status, once or twice, with and without new challenges all the time, and 1-10 packets each: what the process holds and the number of goroutines must not grow; non-trivial: all",
		Gen: func(t *rapid.T) longSession {
			return longSession{Size: rapid.IntRange(0, 1400).Draw(t, "size"), Frames: rapid.IntRange(1, 10).Draw(t, "packets"), Auth: rapid.Bool().Draw(t, "auth"), N: 5000,
				Codes: rapid.SliceOfN(rapid.SampledFrom([]int{200, 200, 200, 404, 455, 500}), 1, 3).Draw(t, "codes"), Replays: rapid.Bool().Draw(t, "replays")}
		},
		Run: runLongSession,
	})
}
