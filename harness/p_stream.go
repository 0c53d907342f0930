package main

// C23, C28-C31: packets over TCP, UDP and HTTP, credentials on the wire, keep-alives.

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"net"
	"net/url"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"pgregory.net/rapid"
)

// mixItem is a packet or an answer to one of the commands issued before.
type mixItem struct {
	Answer bool
	Ch     byte
	Data   bytesSpec
}

type mixCase struct {
	Spec     camSpec
	Early    []mixItem // packets between the answers of the handshake
	Commands []string
	Items    []mixItem
	Cuts     []int
	Stall    int // position of a stall in the stream, as a fraction of its length in 1/1000; negative: between two messages
}

func genItem(t *rapid.T) mixItem {
	return mixItem{Ch: byte(rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 253)).Draw(t, "channel")), Data: genBytesSpec(t, "packet", 65535)}
}

func genMix(t *rapid.T) mixCase {
	c := mixCase{Spec: genSpec(t, rapid.SampledFrom([]int{rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoHTTP}).Draw(t, "proto"), 2), Cuts: genCuts.Draw(t, "stream cuts")}
	for i := rapid.IntRange(0, 3).Draw(t, "early"); i > 0; i-- {
		c.Early = append(c.Early, genItem(t))
	}
	n := rapid.IntRange(0, 3).Draw(t, "commands")
	for i := 0; i < n; i++ {
		c.Commands = append(c.Commands, rapid.SampledFrom([]string{"PLAY", "PAUSE", "OPTIONS"}).Draw(t, "command"))
	}
	for i := rapid.IntRange(1, 25).Draw(t, "items"); i > 0; i-- {
		it := genItem(t)
		if n > 0 && rapid.IntRange(0, 4).Draw(t, "answer") == 0 {
			it = mixItem{Answer: true}
			n--
		}
		c.Items = append(c.Items, it)
	}
	return c
}

// mixStream runs the handshake and builds the stream; it returns the stream, the boundaries between its messages and
// the stages its answers report.
func (x *run) mixStream(c mixCase) (data []byte, bounds []int, want []int, err error) {
	early := c.Early
	x.gap = func() error {
		if len(early) == 0 {
			return nil
		}
		e := early[0]
		early = early[1:]
		p := rtsp.RawPacket{Channel: e.Ch, Payload: e.Data.make()}
		x.want = append(x.want, p)
		return x.cam.send(frame(p.Channel, p.Payload))
	}
	if err = x.handshake(); err != nil {
		return
	}
	x.gap = nil
	var open []*message
	for _, cmd := range c.Commands {
		if err = x.issue(cmd); err != nil {
			return
		}
		var m *message
		if m, err = x.accept(); err != nil {
			return
		}
		open = append(open, m)
	}
	put := func(it mixItem) {
		bounds = append(bounds, len(data))
		if !it.Answer {
			p := rtsp.RawPacket{Channel: it.Ch, Payload: it.Data.make()}
			x.want = append(x.want, p)
			data = append(data, frame(p.Channel, p.Payload)...)
			return
		}
		m := open[0]
		open = open[1:]
		if st, ok := stageOf[m.Method]; ok {
			want = append(want, st)
		}
		from := len(data)
		data = append(data, answer{Code: 200, Body: []byte("$\x00\x00\x04body")}.wire(m.cseq(), x.spec.Style)...)
		x.spans = append(x.spans, [2]int{from, len(data)})
	}
	for _, it := range c.Items {
		put(it)
	}
	for len(open) > 0 {
		put(mixItem{Answer: true})
	}
	return
}

type behindCase struct {
	Spec     camSpec
	N, Len   int
	Commands []string
}

type udpCase struct {
	Spec  camSpec
	Grams []udpGram
	Times int  // how often they are sent in all
	Again bool // a second session on the same ports
	Cmds  []udpCommand
	Stops int // further calls of Stop
}

type udpCommand struct {
	At   int // before this datagram
	Verb string
}

type udpGram struct {
	Port int // index: stream*2, +1 for control
	Data bytesSpec
}

type badHTTP struct {
	Text string
	Cuts []int
}

type leakCase struct {
	Spec       camSpec
	Commands   []string
	User, Pass string
}

type aliveCase struct {
	Spec    camSpec
	Traffic string   // none, datagrams, frames, commands
	Slow    bool     // answers to keep-alives are withheld for a while
	Other   int      // protocol of the session that must not send any
	First   []string // commands carried out before the keep-alives are counted
	Beats   int      // keep-alives to wait for
	Demand  int      // the keep-alive, counted from 1, that is challenged; 0: none
}

// demand challenges one of the keep-alives, whether or not the handshake was challenged.
func (c *aliveCase) demand(t *rapid.T, n int) {
	c.Spec.NoUser = false
	if !c.Spec.Auth.On {
		c.Spec.Auth = genAuth(t, 3)
		c.Spec.Auth.On, c.Spec.Auth.Rotate = false, nil
	}
	c.Demand = rapid.IntRange(1, n).Draw(t, "challenged")
}

// udpSession runs the handshake and sends the datagrams.
func udpSession(c udpCase) error {
	x, err := startRun(c.Spec)
	if err != nil {
		return err
	}
	defer x.close()
	defer stopUDP(x)
	if err := x.handshake(); err != nil {
		return err
	}
	peer := x.cam.out.RemoteAddr().(*net.TCPAddr).IP
	ports := make([]int, 0, 2*len(c.Spec.Streams))
	refused := false
	for i := range x.offers {
		if c.Spec.Streams[i].Refuse != 0 {
			refused = true
			ports = append(ports, 0, 0)
			continue
		}
		a, b := x.clientPorts(i)
		ports = append(ports, a, b)
	}
	from, err := net.ListenUDP("udp", &net.UDPAddr{IP: x.cam.ln.Addr().(*net.TCPAddr).IP})
	if err != nil {
		return harnessBug{err}
	}
	defer from.Close()
	wantBy := map[int][][]byte{} // by port index
	gotBy := map[int][][]byte{}
	chOf := map[int]int{} // by port index
	outstanding, inFlight := 0, 0
	collect := func() error {
		inFlight = 0
		for ; outstanding > 0; outstanding-- {
			p, err := x.cl.packet()
			if err != nil {
				return fmt.Errorf("%d datagrams missing: %w", outstanding, err)
			}
			// Find the port it belongs to: its payload is the next one expected on some port.
			ch := int(p.Channel)
			found := -1
			for i, w := range wantBy {
				n := len(gotBy[i])
				if n < len(w) && bytes.Equal(w[n], p.Payload) {
					if k, ok := chOf[i]; ok && k != ch {
						continue
					}
					if found < 0 || (i%2 == ch%2 && found%2 != ch%2) || i == ch {
						found = i
					}
				}
			}
			if found < 0 {
				return fmt.Errorf("%d bytes on channel %d are not the next datagram of any port: %q", len(p.Payload), ch, truncate(string(p.Payload), 60))
			}
			gotBy[found] = append(gotBy[found], p.Payload)
			chOf[found] = ch
		}
		return nil
	}
	for n := 0; n < len(c.Grams)*(1+c.Times); n++ {
		for _, cmd := range c.Cmds {
			if cmd.At == n {
				if err := x.command(cmd.Verb); err != nil {
					return err
				}
			}
		}
		g := c.Grams[n%len(c.Grams)]
		i := g.Port % len(ports)
		if ports[i] == 0 {
			continue
		}
		b := g.Data.make()
		if len(b) >= 4 { // tell datagrams apart
			copy(b, []byte{byte(i), byte(n >> 16), byte(n >> 8), byte(n)})
		}
		wantBy[i] = append(wantBy[i], b)
		if _, err := from.WriteToUDP(b, &net.UDPAddr{IP: peer, Port: ports[i]}); err != nil {
			return harnessBug{err}
		}
		inFlight += len(b) + 1000 // what the system keeps of them is limited
		if outstanding++; outstanding >= 20 || inFlight > 60000 {
			if err := collect(); err != nil {
				return err
			}
		}
	}
	if err := collect(); err != nil {
		return err
	}
	select {
	case p := <-x.cl.packets:
		return fmt.Errorf("%d more bytes on channel %d, that were not sent", len(p.Payload), p.Channel)
	case <-time.After(3 * time.Millisecond):
	}
	chUsed := map[int]int{}
	for i, ch := range chOf {
		if ch%2 != i%2 {
			return fmt.Errorf("port %d (%d of stream %d) is on channel %d", ports[i], i%2, i/2, ch)
		}
		if o, ok := chOf[i^1]; ok && o != ch^1 {
			return fmt.Errorf("the ports of stream %d are on channels %d and %d", i/2, ch, o)
		}
		if !refused && ch != i {
			return fmt.Errorf("port %d (%d of stream %d) is on channel %d instead of %d", ports[i], i%2, i/2, ch, i)
		}
		if o, dup := chUsed[ch]; dup {
			return fmt.Errorf("channel %d is used for ports %d and %d", ch, ports[o], ports[i])
		}
		chUsed[ch] = i
		for j := range gotBy[i] {
			if !bytes.Equal(gotBy[i][j], wantBy[i][j]) {
				return fmt.Errorf("datagram %d of port %d has changed after delivery", j, ports[i])
			}
		}
	}
	// Stopping releases the ports.
	done := make(chan error, 1)
	go func() {
		done <- guard(func() error {
			for i := 0; i <= c.Stops; i++ {
				x.cl.s.Stop()
			}
			return nil
		})
	}()
	select {
	case err := <-done:
		if err != nil {
			return err
		}
	case <-time.After(wait()):
		return latef("Stop does not return")
	}
	for _, p := range ports {
		if p == 0 {
			continue
		}
		end := time.Now().Add(wait())
		for {
			l, err := net.ListenUDP("udp", &net.UDPAddr{IP: peer, Port: p})
			if err == nil {
				l.Close()
				break
			}
			if time.Now().After(end) {
				return latef("port %d is still in use after Stop: %v", p, err)
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	return nil
}

// releaseOwnPorts takes the client's fixed ports from sessions of this process that have not released them, so that one
// case that failed does not keep the next ones from running.
func releaseOwnPorts() {
	null := -1
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, e := range fds {
		fd, err := strconv.Atoi(e.Name())
		if err != nil {
			continue
		}
		typ, err := syscall.GetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_TYPE)
		if err != nil || typ != syscall.SOCK_DGRAM {
			continue
		}
		port := 0
		switch a, _ := syscall.Getsockname(fd); a := a.(type) {
		case *syscall.SockaddrInet4:
			port = a.Port
		case *syscall.SockaddrInet6:
			port = a.Port
		}
		if port < 50000 || port >= 50200 {
			continue
		}
		if null < 0 {
			if null, err = syscall.Open(os.DevNull, syscall.O_RDWR|syscall.O_CLOEXEC, 0); err != nil {
				return
			}
			defer syscall.Close(null)
		}
		syscall.Dup3(null, fd, syscall.O_CLOEXEC) // closing it would hand the number to somebody else
	}
}

// aloneOnPorts waits until the client's fixed ports are free.
func aloneOnPorts(n int) error {
	end := time.Now().Add(30 * time.Second)
	for i := 0; i < 4*n; i++ {
		for {
			l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4zero, Port: 50000 + i/2 - i%2*30000})
			if err == nil {
				l.Close()
				break
			}
			if time.Now().After(end) {
				return inconclusivef("UDP port %d is in use by someone else", 50000+i/2-i%2*30000)
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	return nil
}

// wireText returns all that the client sent, per connection, with what base64 hid of it.
func (c *camera) wireText() [][]byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	var out [][]byte
	for i, r := range c.raw {
		b := r.bytes()
		out = append(out, b)
		for _, h := range c.heads {
			if h.conn == i && h.method == "POST" {
				if j := bytes.Index(b, []byte("\r\n\r\n")); j >= 0 {
					var dec []byte
					q := bytes.Map(func(r rune) rune {
						if r == '\r' || r == '\n' {
							return -1
						}
						return r
					}, b[j+4:])
					for len(q) >= 4 {
						d, err := base64.StdEncoding.DecodeString(string(q[:4]))
						if err != nil {
							break
						}
						dec = append(dec, d...)
						q = q[4:]
					}
					out[len(out)-1] = b[:j+4]
					out = append(out, dec)
				}
			}
		}
	}
	return out
}

var userInfo = regexp.MustCompile(`(?i)(rtsp|http)://[^/?#\s"]*@`)

// leaks looks for the credentials in what a client has sent.
func leaks(texts [][]byte, ch *challenge, basicToo bool, user, pass string) error {
	basic := base64.StdEncoding.EncodeToString([]byte(user + ":" + pass))
	secrets := map[string]string{"user name": user, "password": pass, "escaped user name": url.PathEscape(user), "escaped password": url.PathEscape(pass), "query-escaped password": url.QueryEscape(pass), "Basic credentials": basic,
		"base64 of the password": strings.TrimRight(base64.StdEncoding.EncodeToString([]byte(pass)), "=")}
	if ch != nil && !ch.Basic {
		secrets["digest of the credentials"] = md5s(user, ch.Realm, pass)
	}
	for _, b := range texts {
		for _, line := range strings.Split(string(b), "\n") {
			line = strings.TrimRight(line, "\r")
			rest := line
			if strings.HasPrefix(strings.ToLower(line), "authorization:") {
				if ch == nil {
					return fmt.Errorf("Authorization though nobody asked: %q", line)
				}
				v := strings.TrimSpace(line[len("authorization:"):])
				if ch.Basic || basicToo && v == "Basic "+basic {
					if v != "Basic "+basic {
						return fmt.Errorf("Basic challenge answered by %q", line)
					}
					continue
				}
				if len(v) < 7 || !strings.EqualFold(v[:7], "digest ") {
					return fmt.Errorf("Digest challenge answered by %q", line)
				}
				d, err := parseDirectives(v[7:])
				if err != nil {
					return err
				}
				delete(d, "username") // this is what it is for
				for _, k := range []string{"realm", "nonce", "opaque"} {
					delete(d, k) // chosen by the server
				}
				rest = fmt.Sprint(d)
			}
			if userInfo.MatchString(rest) {
				return fmt.Errorf("user information in %q", line)
			}
			for what, s := range secrets {
				if s != "" && strings.Contains(strings.ToLower(rest), strings.ToLower(s)) {
					return fmt.Errorf("%s %q in %q", what, s, line)
				}
			}
		}
	}
	return nil
}

func init() {
	mixLabels := func(c mixCase) (l []string) {
		l = append(l, protoName(c.Spec.Proto))
		for _, it := range c.Items {
			switch {
			case it.Answer:
				l = append(l, "answer")
			case it.Data.Len == 0:
				l = append(l, "empty packet")
			case it.Data.Len > 2044:
				l = append(l, "packet over 2K")
			default:
				l = append(l, "packet")
			}
		}
		return
	}
	register(Spec[mixCase]{
		Prop: "C23", Name: "mixtures", Quick: 2500, Thorough: 30000,
		Rule: "streams mixing 1-25 packets of 0-65535 bytes on any channel with answers to outstanding commands, in arbitrary pieces, over TCP and HTTP, also between the answers of the handshake; packets and stages must come out in order and unaltered, also after the whole stream; non-trivial: an answer between packets or a packet over 2 KB",
		Gen:  genMix, Labels: mixLabels,
		Nontrivial: func(c mixCase) bool {
			for _, it := range c.Items {
				if it.Answer || it.Data.Len > 2048 {
					return true
				}
			}
			return false
		},
		Run: func(c mixCase) error {
			return withRun(c.Spec, func(x *run) error {
				data, _, want, err := x.mixStream(c)
				if err != nil {
					return err
				}
				x.cam.cuts = c.Cuts
				if err := x.cam.send(data); err != nil {
					return err
				}
				if err := x.drain(); err != nil {
					return err
				}
				for i, w := range want {
					st, err := x.cl.state()
					if err != nil {
						return fmt.Errorf("stage %s: %w", stageNames[w], err)
					}
					if st != w {
						return fmt.Errorf("stage %d is %s instead of %s", i, stageNames[st], stageNames[w])
					}
				}
				x.cam.cuts = c.Spec.Cuts
				if err := x.settled(); err != nil {
					return err
				}
				for i, p := range x.got {
					if err := samePacket(p, x.want[i]); err != nil {
						return fmt.Errorf("packet %d, later: %v", i, err)
					}
				}
				return nil
			})
		},
	})
	register(Spec[mixCase]{
		Prop: "C23", Name: "stalls", Quick: 480, Thorough: 4000,
		Rule: "as above, but the stream stalls at a random position beyond the client's read time-out (set to 100 ms), mostly inside a message: the packets and stages delivered must be a prefix of those sent, and all of them unless the stall was inside an answer; non-trivial: the stall is inside a message",
		Gen: func(t *rapid.T) mixCase {
			c := genMix(t)
			if rapid.IntRange(0, 2).Draw(t, "small") > 0 {
				for i := range c.Items {
					c.Items[i].Data.Len %= 3000
				}
			}
			c.Cuts = nil
			c.Spec.Lag = 0
			c.Stall = rapid.IntRange(-3, 999).Draw(t, "stall")
			return c
		},
		Nontrivial: func(c mixCase) bool { return c.Stall >= 0 }, Labels: func(c mixCase) []string { return []string{fmt.Sprintf("inside: %v", c.Stall >= 0)} },
		Run: func(c mixCase) error {
			return withRun(c.Spec, func(x *run) error {
				data, bounds, want, err := x.mixStream(c)
				if err != nil {
					return err
				}
				return x.stalled(c, data, bounds, want)
			})
		},
	})
	register(Spec[behindCase]{
		Prop: "C23", Name: "behind", Quick: 160, Thorough: 4000,
		Rule: "the user of the session takes up to 300 ms before looking for packets, while the server sends 40-3000 packets of 0-200 bytes (some of them larger) and answers to outstanding commands in one go: nothing may be lost, out of order or altered; non-trivial: all",
		Gen: func(t *rapid.T) behindCase {
			c := behindCase{Spec: genSpec(t, rapid.SampledFrom([]int{rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoHTTP}).Draw(t, "proto"), 1)}
			c.Spec.Lag = rapid.SampledFrom([]int{1, 5, 20}).Draw(t, "lag")
			c.N = rapid.SampledFrom([]int{40, 120, 250, 520, 1100, 2100, 3000}).Draw(t, "packets") - rapid.IntRange(0, 20).Draw(t, "fewer")
			c.Len = rapid.IntRange(0, 200).Draw(t, "size")
			for i := rapid.IntRange(0, 3).Draw(t, "commands"); i > 0; i-- {
				c.Commands = append(c.Commands, rapid.SampledFrom([]string{"PLAY", "PAUSE"}).Draw(t, "command"))
			}
			return c
		},
		Labels: func(c behindCase) []string {
			return []string{protoName(c.Spec.Proto), fmt.Sprintf("over 256 packets: %v", c.N > 256)}
		},
		Run: func(c behindCase) error {
			return withRun(c.Spec, func(x *run) error {
				m := mixCase{Spec: c.Spec, Commands: c.Commands}
				for i := 0; i < c.N; i++ {
					if len(c.Commands) > 0 && i%(c.N/4) == c.N/5 && i/(c.N/4) < len(c.Commands) {
						m.Items = append(m.Items, mixItem{Answer: true})
					}
					n := (c.Len + i*7) % 201
					if i%97 == 50 {
						n = 3000 + i
					}
					m.Items = append(m.Items, mixItem{Ch: byte(i % 4), Data: bytesSpec{Seed: uint64(i), Len: n, Kind: i % 2}})
				}
				data, _, want, err := x.mixStream(m)
				if err != nil {
					return err
				}
				x.cam.cuts = nil
				sent := make(chan error, 1)
				go func() { sent <- x.cam.send(data) }()
				if err := x.drain(); err != nil {
					return err
				}
				if err := <-sent; err != nil {
					return err
				}
				for i, w := range want {
					st, err := x.cl.state()
					if err != nil {
						return fmt.Errorf("stage %s: %w", stageNames[w], err)
					}
					if st != w {
						return fmt.Errorf("stage %d is %s instead of %s", i, stageNames[st], stageNames[w])
					}
				}
				return x.settled()
			})
		},
	})
	register(Spec[udpCase]{
		Prop: "C28", Name: "datagrams", Quick: 2400, Thorough: 20000,
		Rule: "UDP sessions with 1-4 streams (some refused) and 1-60 (sometimes some thousand) datagrams of 0-65507 bytes to any of their ports, with PLAY and PAUSE in between; each must come out once, in order per port, on the port's channel, and after Stop (called up to three times) the ports are free, also for a second session; non-trivial: more than one stream",
		Gen: func(t *rapid.T) udpCase {
			c := udpCase{Spec: genSpec(t, rtsp.ProtoUnicast, 4), Again: rapid.IntRange(0, 4).Draw(t, "again") == 0}
			for i := range c.Spec.Streams {
				if rapid.IntRange(0, 5).Draw(t, "refuse") == 0 {
					c.Spec.Streams[i].Refuse = 461
				}
			}
			for i := rapid.IntRange(1, 60).Draw(t, "datagrams"); i > 0; i-- {
				g := udpGram{Port: rapid.IntRange(0, 7).Draw(t, "port"), Data: genBytesSpec(t, "datagram", 1472)}
				if rapid.IntRange(0, 19).Draw(t, "large") == 0 {
					g.Data.Len = rapid.OneOf(rapid.IntRange(1473, 9000), rapid.IntRange(1473, 65507)).Draw(t, "length")
				}
				c.Grams = append(c.Grams, g)
			}
			if rapid.IntRange(0, 39).Draw(t, "long") == 0 {
				c.Times = rapid.IntRange(500, 5000).Draw(t, "packets") / len(c.Grams)
			}
			for i := rapid.IntRange(0, 3).Draw(t, "commands"); i > 0; i-- {
				c.Cmds = append(c.Cmds, udpCommand{rapid.IntRange(0, len(c.Grams)-1).Draw(t, "before"), rapid.SampledFrom([]string{"PLAY", "PLAY", "PAUSE"}).Draw(t, "command")})
			}
			c.Stops = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "further stops")
			return c
		},
		Nontrivial: func(c udpCase) bool { return len(c.Spec.Streams) > 1 },
		Labels:     func(c udpCase) []string { return []string{fmt.Sprintf("%d streams", len(c.Spec.Streams))} },
		Run: func(c udpCase) error {
			return settle(func() error {
				unlock, err := lockUDP()
				if err != nil {
					return err
				}
				defer unlock()
				if err := aloneOnPorts(len(c.Spec.Streams)); err != nil {
					return err
				}
				if err := udpSession(c); err != nil || !c.Again {
					return err
				}
				if err := udpSession(c); err != nil {
					return fmt.Errorf("second session: %w", err)
				}
				return nil
			})
		},
	})
	register(Spec[mixCase]{
		Prop: "C29", Name: "tunnels", Quick: 2500, Thorough: 15000,
		Rule: "sessions in HTTP mode with commands, credentials and interleaved packets; the GET and POST heads, the base64 text on POST and silence on GET are verified; non-trivial: more than one stream or any command",
		Gen: func(t *rapid.T) mixCase {
			c := genMix(t)
			c.Spec.Proto = rtsp.ProtoHTTP
			c.Spec.Tunnel = rapid.IntRange(0, len(tunnelAnswers)-1).Draw(t, "tunnel answer")
			if rapid.IntRange(0, 2).Draw(t, "glued") == 0 {
				for i := rapid.IntRange(1, 4).Draw(t, "packets"); i > 0; i-- {
					c.Spec.Glued = append(c.Spec.Glued, genItem(t))
				}
			}
			if rapid.Bool().Draw(t, "auth") {
				c.Spec.NoUser = false
				c.Spec.Auth = genAuth(t, 2+len(c.Spec.Streams)+len(c.Commands))
			}
			return c
		},
		Nontrivial: func(c mixCase) bool { return len(c.Spec.Streams) > 1 || len(c.Commands) > 0 },
		Run: func(c mixCase) error {
			return withRun(c.Spec, func(x *run) error {
				data, _, want, err := x.mixStream(c)
				if err != nil {
					return err
				}
				x.cam.cuts = c.Cuts
				if err := x.cam.send(data); err != nil {
					return err
				}
				if err := x.drain(); err != nil {
					return err
				}
				for i, w := range want {
					st, err := x.cl.state()
					if err != nil {
						return fmt.Errorf("stage %s: %w", stageNames[w], err)
					}
					if st != w {
						return fmt.Errorf("stage %d is %s instead of %s", i, stageNames[st], stageNames[w])
					}
				}
				if err := x.settled(); err != nil {
					return err
				}
				x.cam.mu.Lock()
				defer x.cam.mu.Unlock()
				if len(x.cam.heads) != 2 || len(x.cam.raw) != 2 {
					return fmt.Errorf("%d connections, %d HTTP requests", len(x.cam.raw), len(x.cam.heads))
				}
				get, post := x.cam.heads[0], x.cam.heads[1]
				if get.method != "GET" || post.method != "POST" {
					return fmt.Errorf("%s and %s instead of GET and POST", get.method, post.method)
				}
				for _, h := range []*httpHead{get, post} {
					if h.proto != "HTTP/1.0" && h.proto != "HTTP/1.1" {
						return fmt.Errorf("%s is %s", h.method, h.proto)
					}
					if c := h.header["x-sessioncookie"]; c == "" || c != get.header["x-sessioncookie"] {
						return fmt.Errorf("cookies %q and %q", get.header["x-sessioncookie"], c)
					}
					if h.header["accept"] != "application/x-rtsp-tunnelled" && h.header["content-type"] != "application/x-rtsp-tunnelled" {
						return fmt.Errorf("%s is not marked as tunnel: %v", h.method, h.header)
					}
					if h.header["pragma"] != "no-cache" || h.header["cache-control"] != "no-store" {
						return fmt.Errorf("%s may be cached: %v", h.method, h.header)
					}
					if h.uri != get.uri || !strings.HasSuffix(h.uri, x.spec.Path) {
						return fmt.Errorf("%s of %q, want the stream's path", h.method, h.uri)
					}
				}
				if n := get.header["content-length"]; n != "" && n != "0" {
					return fmt.Errorf("GET announces a body of %s bytes", n)
				}
				if n, err := strconv.Atoi(post.header["content-length"]); err != nil || n < 1 {
					return fmt.Errorf("content length %q of POST", post.header["content-length"])
				}
				return nil
			})
		},
	})
	register(Spec[badHTTP]{
		Prop: "C29", Name: "refusals", Quick: 900, Thorough: 6000,
		Rule: "HTTP answers that refuse the tunnel or are malformed or cut short: opening must fail and no RTSP request may be sent; non-trivial: all",
		Gen: func(t *rapid.T) badHTTP {
			good := "Server: camera\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n"
			c := badHTTP{Cuts: genCuts.Draw(t, "cuts")}
			switch rapid.IntRange(0, 3).Draw(t, "kind") {
			case 0:
				c.Text = fmt.Sprintf("HTTP/1.0 %d %s\r\n", rapid.SampledFrom([]int{400, 401, 403, 404, 405, 500, 501, 503, 302, 301, 100, 204, 999}).Draw(t, "status"), "No") + good
			case 1:
				c.Text = rapid.SampledFrom([]string{"HTTP/1.0", "RTSP/1.0 200 OK", "garbage", "", "HTTP/1.0 20 OK", "HTTP/1.0 abc OK", "HTTP/1.0 2000 OK", "HTTP/1.0 ", "200 OK", "ICY 200 OK", "HTTP/1.0 -20 OK"}).Draw(t, "status line") + "\r\n" + good
			case 2:
				c.Text = "HTTP/1.0 200 OK\r\n" + rapid.SampledFrom([]string{"", "Server: camera\r\n"}).Draw(t, "before") + rapid.SampledFrom([]string{"garbage", "x", "Server camera", "RTSP/1.0 200 OK"}).Draw(t, "header line") + "\r\n" + good
			case 3:
				c.Text = "HTTP/1.0 200 OK\r\n" + good
				c.Text = c.Text[:rapid.IntRange(0, len(c.Text)-1).Draw(t, "cut short")]
			}
			return c
		},
		Run: func(c badHTTP) error {
			return settle(func() error {
				ln, err := listenLocal()
				if err != nil {
					return harnessBug{err}
				}
				defer ln.Close()
				var mu sync.Mutex
				conns := 0
				go func() {
					for {
						conn, err := ln.Accept()
						if err != nil {
							return
						}
						mu.Lock()
						conns++
						first := conns == 1
						mu.Unlock()
						if first {
							go func() {
								writeCut(conn, []byte(c.Text), c.Cuts)
								conn.(*net.TCPConn).CloseWrite()
								time.Sleep(100 * time.Millisecond)
								conn.Close()
							}()
						}
						defer conn.Close()
					}
				}()
				cl := openClient("rtsp://u:p@"+ln.Addr().String()+"/live", rtsp.ProtoHTTP, 0)
				defer close(cl.quit)
				select {
				case err := <-cl.opened:
					if err == nil {
						return fmt.Errorf("a session was opened though the camera answered %q", c.Text)
					}
					if strings.Contains(err.Error(), "panic") {
						return err
					}
					return nil
				case <-time.After(wait()):
					return latef("Open does not return after %q", c.Text)
				}
			})
		},
	})
	register(Spec[leakCase]{
		Prop: "C30", Name: "wire", Quick: 3200, Thorough: 20000,
		Rule: "sessions over TCP, UDP and HTTP with distinctive credentials, with no challenge, Basic or Digest, from any request on; every byte the client sent is searched for the credentials in plain, escaped, base64 and digested form; non-trivial: challenged",
		Gen: func(t *rapid.T) leakCase {
			c := leakCase{Spec: genSpec(t, rapid.SampledFrom([]int{rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoHTTP, rtsp.ProtoUnicast}).Draw(t, "proto"), 3), Commands: genCommands(t)}
			c.Spec.NoUser = false
			c.Spec.User = "Quux" + rapid.StringOfN(rapid.SampledFrom([]rune("XYZ#%& é")), 0, 4, -1).Draw(t, "user") + "zorg"
			c.Spec.Pass = "Sesam" + rapid.StringOfN(rapid.SampledFrom([]rune("XYZ@:/?#%& é")), 0, 6, -1).Draw(t, "pass") + "0ffne"
			if c.Spec.NoPass = rapid.IntRange(0, 5).Draw(t, "no password") == 0; c.Spec.NoPass {
				c.Spec.Pass = ""
			} else if rapid.IntRange(0, 7).Draw(t, "no name") == 0 {
				c.Spec.User = ""
			}
			n := 2 + len(c.Spec.Streams)
			if c.Spec.Proto != rtsp.ProtoUnicast {
				n += len(c.Commands)
			}
			if rapid.IntRange(0, 3).Draw(t, "challenged") > 0 {
				c.Spec.Auth = genAuth(t, n)
			}
			return c
		},
		Nontrivial: func(c leakCase) bool { return c.Spec.Auth.On },
		Labels: func(c leakCase) (l []string) {
			l = append(l, protoName(c.Spec.Proto))
			if c.Spec.Auth.On {
				l = append(l, c.Spec.Auth.Ch.labels()...)
			} else {
				l = append(l, "not challenged")
			}
			return
		},
		Run: func(c leakCase) error {
			return withRun(c.Spec, func(x *run) error {
				err := func() error {
					if err := x.handshake(); err != nil {
						return err
					}
					for _, cmd := range c.Commands {
						if err := x.command(cmd); err != nil {
							return err
						}
					}
					return x.settled()
				}()
				var ch *challenge
				if x.verifier != nil {
					ch = &c.Spec.Auth.Ch
				}
				if lerr := leaks(x.cam.wireText(), ch, c.Spec.Auth.Either > 0, c.Spec.User, c.Spec.Pass); lerr != nil {
					return lerr
				}
				// Whether the session itself works is for other properties to say; here it only must get somewhere.
				if err != nil && x.k == 0 {
					return err
				}
				return nil
			})
		},
	})
	register(Spec[aliveCase]{
		Prop: "C31", Name: "sessions", Quick: 48, Thorough: 320,
		Rule: "a UDP session followed for three keep-alives with no traffic, datagrams, interleaved packets or commands, with and without credentials, with a keep-alive challenged or not, in any stage, then torn down and watched for 4.5 s; meanwhile a TCP or HTTP session and a UDP session that is still being set up, which must send none; non-trivial: all",
		Gen: func(t *rapid.T) aliveCase {
			c := aliveCase{Beats: 3, Spec: genSpec(t, rtsp.ProtoUnicast, 2), Traffic: rapid.SampledFrom([]string{"none", "datagrams", "frames", "commands"}).Draw(t, "traffic"), Slow: rapid.Bool().Draw(t, "slow"),
				Other: rapid.SampledFrom([]int{rtsp.ProtoTCP, rtsp.ProtoHTTP}).Draw(t, "other"),
				First: rapid.SampledFrom([][]string{nil, {"PLAY"}, {"PAUSE"}, {"PLAY", "PAUSE"}, {"PLAY", "PAUSE", "PLAY"}}).Draw(t, "first")}
			c.Spec.Cuts, c.Spec.Lag = nil, 0
			if rapid.Bool().Draw(t, "auth") {
				c.Spec.NoUser = false
				c.Spec.Auth = genAuth(t, 3)
				c.Spec.Auth.Rotate = nil
			}
			if c.Traffic != "commands" && rapid.IntRange(0, 2).Draw(t, "demand") == 0 {
				c.demand(t, 3)
			}
			return c
		},
		Labels: func(c aliveCase) []string {
			return []string{c.Traffic, protoName(c.Other), fmt.Sprintf("auth: %v", c.Spec.Auth.On), fmt.Sprintf("keep-alive challenged: %v", c.Demand > 0)}
		},
		Run: runAlive,
	})
	register(Spec[aliveCase]{
		Prop: "C31", Name: "lasting", Quick: 4, Thorough: 64,
		Rule: "as sessions, but followed for 14 to 20 keep-alives; non-trivial: all",
		Gen: func(t *rapid.T) aliveCase {
			c := aliveCase{Beats: rapid.IntRange(14, 20).Draw(t, "beats"), Spec: genSpec(t, rtsp.ProtoUnicast, 2), Traffic: rapid.SampledFrom([]string{"none", "datagrams", "frames"}).Draw(t, "traffic"), Other: rtsp.ProtoTCP}
			c.Spec.Cuts, c.Spec.Lag = nil, 0
			if rapid.Bool().Draw(t, "demand") {
				c.demand(t, 14)
			}
			return c
		},
		Run: runAlive,
	})
}

// stalled sends data with a pause beyond the client's read time-out and checks what is delivered.
func (x *run) stalled(c mixCase, data []byte, bounds, want []int) error {
	if err := x.drainTo(len(x.want) - countPackets(c)); err != nil {
		return err
	}
	x.cam.cuts = nil
	at := len(data) * c.Stall / 1000
	if c.Stall < 0 {
		at = bounds[(-c.Stall*7)%len(bounds)]
	}
	whole := true // no answer is interrupted
	for _, a := range x.spans {
		whole = whole && (at <= a[0] || at >= a[1])
	}
	x.cl.s.Timeout = 100 * time.Millisecond
	if err := x.cam.send(data[:at]); err != nil {
		return err
	}
	time.Sleep(350 * time.Millisecond)
	x.cl.s.Timeout = 10 * time.Second
	if err := x.cam.send(data[at:]); err != nil && whole {
		return err
	}
	var states []int
	quiet := 250 * time.Millisecond
	if whole {
		quiet = wait()
	}
	for len(x.got) < len(x.want) || len(states) < len(want) {
		select {
		case p := <-x.cl.packets:
			if len(x.got) == len(x.want) {
				return fmt.Errorf("a packet of %d bytes that was never sent", len(p.Payload))
			}
			if err := samePacket(p, x.want[len(x.got)]); err != nil {
				return fmt.Errorf("packet %d, stall at %d of %d: %v", len(x.got), at, len(data), err)
			}
			x.got = append(x.got, p)
		case st := <-x.cl.states:
			if len(states) == len(want) || want[len(states)] != st {
				return fmt.Errorf("stage %s (%d of %v), stall at %d of %d", stageNames[st], len(states), want, at, len(data))
			}
			states = append(states, st)
		case <-time.After(quiet):
			if whole {
				return latef("%d of %d packets and %d of %d stages after a stall outside answers", len(x.got), len(x.want), len(states), len(want))
			}
			return nil
		}
	}
	select {
	case p := <-x.cl.packets:
		return fmt.Errorf("a packet of %d bytes that was never sent", len(p.Payload))
	case <-time.After(2 * time.Millisecond):
	}
	return nil
}

func countPackets(c mixCase) (n int) {
	for _, it := range c.Items {
		if !it.Answer {
			n++
		}
	}
	return
}

// drainTo is drain for the first n packets.
func (x *run) drainTo(n int) error {
	all := x.want
	x.want = all[:n]
	err := x.drain()
	x.want = all
	return err
}

func runAlive(c aliveCase) error {
	return settle(func() error {
		unlock, err := lockUDP()
		if err != nil {
			return err
		}
		defer unlock()
		if err := aloneOnPorts(len(c.Spec.Streams)); err != nil {
			return err
		}
		stop := make(chan struct{})
		errs := make(chan error, 2)
		var wg sync.WaitGroup
		defer wg.Wait()
		defer close(stop)
		// A session that must not send any.
		wg.Add(2)
		go func() {
			defer wg.Done()
			errs <- guard(func() error { return quietOther(c, stop) })
		}()
		go func() {
			defer wg.Done()
			errs <- guard(func() error { return quietSetup(c, stop) })
		}()
		x, err := startRun(c.Spec)
		if err != nil {
			return err
		}
		defer x.close()
		defer stopUDP(x)
		if err := x.handshake(); err != nil {
			return err
		}
		if err := x.aliveTraffic(c); err != nil {
			return err
		}
		if err := x.command("TEARDOWN"); err != nil {
			return err
		}
		// Keep-alives sent before the answer was handled may still be under way.
		time.Sleep(200 * time.Millisecond)
		for more := true; more; {
			select {
			case r := <-x.cam.reqs:
				if r.err != nil && r.err != errHangup {
					return r.err
				}
			default:
				more = false
			}
		}
		end := time.After(4500 * time.Millisecond)
		for {
			select {
			case r := <-x.cam.reqs:
				if r.err == errHangup {
					return nil
				}
				if r.err != nil {
					return r.err
				}
				return fmt.Errorf("sent after the session was torn down: %q", r.m.Raw)
			case err := <-errs:
				return err
			case <-end:
				return nil
			}
		}
	})
}

// aliveTraffic follows the session until three keep-alives have come.
func (x *run) aliveTraffic(c aliveCase) error {
	halt := make(chan struct{})
	var wg sync.WaitGroup
	defer wg.Wait()
	defer close(halt)
	switch c.Traffic {
	case "datagrams", "frames":
		peer := x.cam.out.RemoteAddr().(*net.TCPAddr).IP
		from, err := net.ListenUDP("udp", &net.UDPAddr{IP: x.cam.ln.Addr().(*net.TCPAddr).IP})
		if err != nil {
			return harnessBug{err}
		}
		port, _ := x.clientPorts(0)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer from.Close()
			for {
				select {
				case <-halt:
					return
				case <-x.cl.packets:
				case <-time.After(30 * time.Millisecond):
				}
				if c.Traffic == "datagrams" {
					from.WriteToUDP([]byte("datagram"), &net.UDPAddr{IP: peer, Port: port})
				} else if x.cam.send(frame(100, []byte("frame"))) != nil {
					return
				}
				time.Sleep(30 * time.Millisecond)
			}
		}()
	}
	var next <-chan time.Time
	if c.Traffic == "commands" {
		tick := time.NewTicker(700 * time.Millisecond)
		defer tick.Stop()
		next = tick.C
	}
	issued, reported := 0, 0
	for _, cmd := range c.First {
		if err := x.issue(cmd); err != nil {
			return err
		}
		for done := false; !done; {
			select {
			case r := <-x.cam.reqs:
				if err := x.aliveRequest(c, r); err != nil {
					return err
				}
			case st := <-x.cl.states:
				if st != stageOf[cmd] {
					return fmt.Errorf("stage %s after %s", stageNames[st], cmd)
				}
				done = true
			case <-time.After(wait()):
				return latef("no stage for %s", cmd)
			}
		}
	}
	before := len(x.alive)
	goal := before + c.Beats
	deadline := time.Now().Add(wait() + time.Duration(10+4*c.Beats)*time.Second)
	for len(x.alive) < goal || reported < issued {
		if time.Now().After(deadline) {
			return latef("%d keep-alives in %v, %d stages for %d commands", len(x.alive), time.Since(x.readyFrom), reported, issued)
		}
		var r camReq
		select {
		case r = <-x.cam.reqs:
		case <-x.cl.states:
			reported++
			continue
		case <-next:
			if len(x.alive) < goal {
				if err := x.issue([]string{"PLAY", "PAUSE"}[issued%2]); err != nil {
					return err
				}
				issued++
			}
			continue
		case <-time.After(time.Second):
			continue
		}
		if r.err == nil && r.m.Method == "OPTIONS" && c.Demand > 0 && len(x.alive)-before == c.Demand-1 && x.challenged[r.m.cseq()] == nil {
			if x.verifier != nil {
				if err := x.verifier.verify(r.m.get("Authorization"), r.m.Method, nil); err != nil {
					return err
				}
			}
			if err := x.demand(r.m, true); err != nil {
				return err
			}
			continue
		}
		if err := x.aliveRequest(c, r); err != nil {
			return err
		}
	}
	return nil
}

// aliveRequest checks and answers a keep-alive or a command.
func (x *run) aliveRequest(c aliveCase, r camReq) error {
	if r.err != nil {
		return r.err
	}
	if x.verifier != nil {
		if err := x.verifier.verify(r.m.get("Authorization"), r.m.Method, nil); err != nil {
			return err
		}
	}
	if d := x.challenged[r.m.cseq()]; d != nil {
		delete(x.challenged, r.m.cseq())
		if err := sameRequest(r.m, d.m); err != nil {
			return err
		}
	}
	x.lastCseq = r.m.cseq()
	if r.m.Method != "OPTIONS" {
		if err := x.checkCommand(r.m, r.m.Method); err != nil {
			return err
		}
		return x.send(r.m, answer{Code: 200})
	}
	if c.Slow {
		time.Sleep(100 * time.Millisecond)
	}
	return x.keepAlive(r.m)
}

// quietOther keeps a ready TCP or HTTP session idle.
func quietOther(c aliveCase, stop chan struct{}) error {
	spec := c.Spec
	spec.Proto = c.Other
	spec.Auth = authPlan{}
	x, err := startRun(spec)
	if err != nil {
		return err
	}
	defer x.close()
	if err := x.handshake(); err != nil {
		return err
	}
	if err := x.command("PLAY"); err != nil {
		return err
	}
	for {
		select {
		case r := <-x.cam.reqs:
			if r.err != nil {
				return r.err
			}
			return fmt.Errorf("sent by an idle %s session: %q", protoName(c.Other), r.m.Raw)
		case <-stop:
			return nil
		case <-time.After(300 * time.Millisecond):
			x.cam.send(frame(0, []byte("frame")))
		}
	}
}

// quietSetup never answers the SETUP of a UDP session.
func quietSetup(c aliveCase, stop chan struct{}) error {
	spec := c.Spec
	spec.Auth = authPlan{}
	x, err := startRun(spec)
	if err != nil {
		return err
	}
	defer x.close()
	for i := 0; i < 2+len(spec.Streams); i++ {
		m, err := x.accept()
		if err != nil {
			return err
		}
		a := answer{Code: 200}
		switch m.Method {
		case "DESCRIBE":
			a.Body = x.sdp()
		case "SETUP":
			continue
		}
		if err := x.send(m, a); err != nil {
			return err
		}
	}
	select {
	case r := <-x.cam.reqs:
		if r.err != nil {
			return r.err
		}
		return fmt.Errorf("sent by a session that is still being set up: %q", r.m.Raw)
	case <-stop:
		return nil
	}
}
