package main

// C38: video from the camera to the user, through all layers.

import (
	"bytes"
	"fmt"
	"net"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/rtcp"
	"github.com/aboukirev/ouro/net/rtp"
	"github.com/aboukirev/ouro/net/rtsp"
	"pgregory.net/rapid"
)

// vidStream is what a camera sends of one stream.
type vidStream struct {
	Head     rtpCase // the header of every packet but its number, time and marker
	PadEvery int     // every so many packets are padded
	Payloads []payload
	Sets     *vidSets // sent in front of the payload of that number
	SetsAt   int
	Reports  []rtcpCase
}

// vidSets are parameter sets sent as NAL units.
type vidSets struct {
	S   spsCase
	P   ppsCase
	Agg bool // in one packet
}

type vidCase struct {
	Spec    camSpec
	Streams []vidStream
	Order   []int // which stream sends next; what is left is sent in turns
	Report  []int // after how many packets a report is sent
	Pause   int   // after so many packets the user pauses and resumes; 0: not
	Cuts    []int
}

// vidWant is what a packet must turn into.
type vidWant struct {
	wire  []byte
	head  rtpCase
	units []unitWant
	sets  *vidSets
	rtcp  *rtcpCase
}

func genVideo(t *rapid.T) vidCase {
	c := vidCase{Spec: genSpec(t, rapid.SampledFrom([]int{rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoHTTP, rtsp.ProtoUnicast, rtsp.ProtoUnicast}).Draw(t, "proto"), 3), Cuts: genCuts.Draw(t, "stream cuts")}
	for i := range c.Spec.Streams {
		c.Spec.Streams[i].Codec = rapid.IntRange(0, 1).Draw(t, "codec")
		h := genRTP(20, 0)(t)
		h.PL, h.Pad = nil, 0
		v := vidStream{Head: h, PadEvery: rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "padded")}
		if rapid.IntRange(0, 2).Draw(t, "near the end of the numbers") == 0 {
			v.Head.SN = 0xffff - uint16(rapid.IntRange(0, 6).Draw(t, "back"))
		}
		kinds := rapid.SampledFrom([][]int{{kSingle}, {kSingle, kStapA, kSeries}, {kSingle, kStapA, kSeries}, {kStapB, kMtap16, kMtap24, kSeries}, {kAnnexB}, {kSingle, kStapA, kStapB, kMtap16, kMtap24, kAnnexB, kSeries}}).Draw(t, "packetization")
		ts := v.Head.TS
		for k := rapid.IntRange(0, 8).Draw(t, "payloads"); k > 0; k-- {
			max := 300
			p := genPayload(kinds, max).Draw(t, "payload")
			if (p.Kind == kSingle || p.Kind == kSeries) && rapid.IntRange(0, 5).Draw(t, "large") == 0 {
				b := bytesSpec{Seed: rapid.Uint64().Draw(t, "seed"), Len: rapid.IntRange(300, 20000).Draw(t, "length")}.make()
				b[len(b)-1] |= 1
				p.Items[0].NAL.Raw = b
			}
			if p.Kind == kSeries && rapid.IntRange(0, 11).Draw(t, "many fragments") == 0 {
				p.Cuts = rapid.SliceOfN(rapid.IntRange(1, 40), 1, 3).Draw(t, "sizes")
				for n := rapid.IntRange(100, 1500).Draw(t, "fragments"); len(p.Cuts) < n; {
					p.Cuts = append(p.Cuts, p.Cuts[len(p.Cuts)%3%len(p.Cuts)])
				}
				if b := p.Items[0].NAL.Raw; len(b) < 5000 {
					b = bytesSpec{Seed: rapid.Uint64().Draw(t, "seed"), Len: 5000 + 20*len(p.Cuts)}.make()
					b[len(b)-1] |= 1
					p.Items[0].NAL.Raw = b
				}
			}
			p.TS = ts
			if rapid.IntRange(0, 2).Draw(t, "next picture") > 0 {
				ts += rapid.SampledFrom([]uint32{3000, 3600, 1, 90000}).Draw(t, "duration")
			}
			v.Payloads = append(v.Payloads, p)
		}
		if rapid.Bool().Draw(t, "sets") {
			s := genSPS(t)
			v.Sets = &vidSets{S: s, P: genPPS(t, s.ID, int(s.Chroma)), Agg: rapid.Bool().Draw(t, "together")}
			v.SetsAt = rapid.IntRange(0, len(v.Payloads)).Draw(t, "sets at")
		}
		for k := rapid.IntRange(0, 3).Draw(t, "reports"); k > 0; k-- {
			r := rtcpCase{Version: 2, C: rapid.ByteRange(0, 2).Draw(t, "blocks"), PT: rapid.SampledFrom([]byte{200, 200, 201, 202, 203}).Draw(t, "type"), SSRC: h.SSRC,
				NTP: rapid.Uint64().Draw(t, "NTP"), RTP: rapid.Uint32().Draw(t, "RTP"), PC: rapid.Uint32().Draw(t, "PC"), OC: rapid.Uint32().Draw(t, "OC"), Cut: -1}
			r.Blocks = int(r.C)
			if r.PT != 200 {
				r.Rest = anyBytes(4, 40).Draw(t, "rest")
				r.Rest = r.Rest[:len(r.Rest)/4*4]
			}
			r.LN = uint16(len(r.wire())/4 - 1)
			v.Reports = append(v.Reports, r)
		}
		c.Streams = append(c.Streams, v)
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, len(c.Streams)-1), 0, 20).Draw(t, "order")
	c.Report = rapid.SliceOfN(rapid.IntRange(0, 4), 1, 3).Draw(t, "reports after")
	if rapid.IntRange(0, 3).Draw(t, "pauses") == 0 {
		c.Pause = rapid.IntRange(1, 10).Draw(t, "pause after")
	}
	return c
}

// packets lists what the camera sends of a stream on its two channels.
func (v vidStream) packets() (data, control []vidWant) {
	h := v.Head
	add := func(ts uint32, last bool, pl []byte, units []unitWant, sets *vidSets) {
		c := h
		c.TS, c.M, c.PL = ts, last, pl
		if v.PadEvery > 0 && len(data)%v.PadEvery == 0 {
			c.Pad = 1 + (len(data)*37+3)%255
		}
		h.SN++
		data = append(data, vidWant{wire: c.wire(), head: c, units: units, sets: sets})
	}
	sets := func(ts uint32) {
		if v.Sets == nil {
			return
		}
		var items []item
		s, _ := v.Sets.S.write()
		p, _ := v.Sets.P.write()
		items = append(items, item{NAL: nal{Hdr: v.Sets.S.NRI<<5 | 7, Raw: s}}, item{NAL: nal{Hdr: v.Sets.P.NRI<<5 | 8, Raw: p}})
		ps := []payload{{Kind: kSingle, TS: ts, Items: items[:1]}, {Kind: kSingle, TS: ts, Items: items[1:]}}
		if v.Sets.Agg {
			ps = []payload{{Kind: kStapA, NRI: 3, TS: ts, Items: items}}
		}
		for i, p := range ps {
			pkts, want := p.packets()
			var after *vidSets
			if i == len(ps)-1 {
				after = v.Sets
			}
			add(ts, false, pkts[0], want[0], after)
		}
	}
	ts := v.Head.TS
	for i, p := range v.Payloads {
		if i == v.SetsAt {
			sets(p.TS)
		}
		ts = p.TS
		pkts, want := p.packets()
		for j := range pkts {
			add(p.TS, j == len(pkts)-1, pkts[j], want[j], nil)
		}
	}
	if v.SetsAt >= len(v.Payloads) {
		sets(ts)
	}
	for i := range v.Reports {
		control = append(control, vidWant{wire: v.Reports[i].wire(), rtcp: &v.Reports[i]})
	}
	return
}

// viewer is the user's side of a stream.
type viewer struct {
	data, control []vidWant // yet to come
	sink          *h264.NALSink
	sets          *h264.ParameterSets
	units         []h264.NALUnit
	want          []unitWant
	seen          bool // the sets have come
}

func (w *viewer) take(p rtsp.RawPacket, control bool) error {
	queue := &w.data
	if control {
		queue = &w.control
	}
	if len(*queue) == 0 {
		return fmt.Errorf("a packet that was not sent: %q", truncate(string(p.Payload), 60))
	}
	want := (*queue)[0]
	*queue = (*queue)[1:]
	if control {
		r, err := rtcp.Unpack(p.Payload)
		if err != nil {
			return fmt.Errorf("report: %v", err)
		}
		return compareRTCP(r, *want.rtcp)
	}
	r, err := rtp.Unpack(p.Payload)
	if err != nil {
		return err
	}
	if err := compareRTP(r, want.head); err != nil {
		return err
	}
	if err := w.sink.Push(r.PL, r.TS); err != nil {
		return fmt.Errorf("packet %d: %v", r.SN, err)
	}
	if err := checkUnits(w.sink.Units, want.units); err != nil {
		return fmt.Errorf("packet %d: %v", r.SN, err)
	}
	for i, u := range w.sink.Units {
		if x := want.units[i]; u.TS != x.TS || x.HasDON && u.Don != x.DON {
			return fmt.Errorf("packet %d: unit %d has time %d and number %d instead of %d and %d", r.SN, i, u.TS, u.Don, x.TS, x.DON)
		}
		if s := want.sets; s != nil || !w.seen { // other units of these types are no sets
			switch u.Type() {
			case 7:
				w.sets.ParseSPS(u.Data)
			case 8:
				w.sets.ParsePPS(u.Data)
			}
		}
	}
	w.units = append(w.units, w.sink.Units...)
	w.want = append(w.want, want.units...)
	if s := want.sets; s != nil {
		w.seen = true
		got, ok := w.sets.GetSPS(s.S.ID)
		if !ok {
			return fmt.Errorf("packet %d: sequence parameter set %d is not there", r.SN, s.S.ID)
		}
		if err := compareSPS(got, s.S); err != nil {
			return fmt.Errorf("packet %d: sequence parameter set: %v", r.SN, err)
		}
		pps, ok := w.sets.GetPPS(s.P.ID)
		if !ok {
			return fmt.Errorf("packet %d: picture parameter set %d is not there", r.SN, s.P.ID)
		}
		if err := comparePPS(pps, s.P); err != nil {
			return fmt.Errorf("packet %d: picture parameter set: %v", r.SN, err)
		}
	}
	return nil
}

// file writes the units of a stream into a byte stream and reads them back.
func (w *viewer) file() error {
	if err := checkUnits(w.units, w.want); err != nil {
		return fmt.Errorf("after the session, of the units kept: %v", err)
	}
	if len(w.units) == 0 {
		return nil
	}
	var b []byte
	for i, u := range w.units {
		b = append(append(b, make([]byte, 2+i%2)...), 1, u.Header)
		b = append(b, h264.RBSPToEncapsulated(u.Data)...)
		if n := len(b); b[n-1] == 0 {
			b = append(b, 3)
		}
	}
	got := h264.SplitAnnexB(b)
	if len(got) != len(w.want) {
		return fmt.Errorf("written to a byte stream, %d units become %d", len(w.want), len(got))
	}
	for i, x := range w.want {
		if want := append([]byte{x.NAL.Hdr}, x.NAL.Raw...); !bytes.Equal(got[i], want) {
			return fmt.Errorf("unit %d comes back from a byte stream different: %s", i, diffBytes(got[i], want))
		}
	}
	return nil
}

func runVideo(c vidCase) error {
	udp := c.Spec.Proto == rtsp.ProtoUnicast
	return withRun(c.Spec, func(x *run) error {
		if udp {
			if err := aloneOnPorts(len(c.Streams)); err != nil {
				return err
			}
		}
		if err := x.handshake(); err != nil {
			return err
		}
		x.cam.cuts = c.Cuts
		type feed struct {
			viewer
			dataPort, ctrlPort int // or channels
			toSend, toReport   []vidWant
		}
		var feeds []*feed
		byChannel := map[byte]*feed{}
		for i, v := range c.Streams {
			f := &feed{viewer: viewer{sink: h264.NewNALSink(), sets: h264.NewParameterSets()}}
			f.toSend, f.toReport = v.packets()
			feeds = append(feeds, f)
			ch := 2 * i
			if udp {
				f.dataPort, f.ctrlPort = x.clientPorts(i)
			} else {
				_, ps, _ := splitTransport(x.offers[i])
				s := ps["interleaved"]
				if c.Spec.Moved {
					s = movePair(s, 100)
				}
				f.dataPort, f.ctrlPort, _ = refPair(s, 255)
				ch = f.dataPort
			}
			byChannel[byte(ch)] = f
			byChannel[byte(ch+1)] = f
		}
		if err := x.command("PLAY"); err != nil {
			return err
		}
		var from *net.UDPConn
		var peer net.IP
		if udp {
			peer = x.cam.out.RemoteAddr().(*net.TCPAddr).IP
			var err error
			if from, err = net.ListenUDP("udp", &net.UDPAddr{IP: x.cam.ln.Addr().(*net.TCPAddr).IP}); err != nil {
				return harnessBug{err}
			}
			defer from.Close()
		}
		var stream []byte
		outstanding, inFlight := 0, 0
		flush := func() error {
			if len(stream) > 0 {
				if err := x.cam.send(stream); err != nil {
					return err
				}
				stream = nil
			}
			inFlight = 0
			for ; outstanding > 0; outstanding-- {
				p, err := x.cl.packet()
				if err != nil {
					return fmt.Errorf("%d packets missing: %w", outstanding, err)
				}
				f := byChannel[p.Channel]
				if f == nil {
					return fmt.Errorf("%d bytes on channel %d, which is no stream's", len(p.Payload), p.Channel)
				}
				if err := f.take(p, p.Channel%2 == 1); err != nil {
					return fmt.Errorf("channel %d: %v", p.Channel, err)
				}
			}
			return nil
		}
		send := func(f *feed, w vidWant, control bool) error {
			port := f.dataPort
			if control {
				port = f.ctrlPort
				f.control = append(f.control, w)
			} else {
				f.data = append(f.data, w)
			}
			if !udp {
				stream = append(stream, frame(byte(port), w.wire)...)
				outstanding++
				return nil
			}
			if outstanding >= 20 || inFlight+len(w.wire) > 60000 {
				if err := flush(); err != nil {
					return err
				}
			}
			if _, err := from.WriteToUDP(w.wire, &net.UDPAddr{IP: peer, Port: port}); err != nil {
				return harnessBug{err}
			}
			inFlight += len(w.wire) + 1000
			outstanding++
			return nil
		}
		for n, turn := 0, 0; ; n++ {
			left := 0
			for _, f := range feeds {
				left += len(f.toSend) + len(f.toReport)
			}
			if left == 0 {
				break
			}
			i := turn % len(feeds)
			if n < len(c.Order) {
				i = c.Order[n] % len(feeds)
			} else {
				turn++
			}
			f := feeds[i]
			if len(f.toSend) > 0 {
				w := f.toSend[0]
				f.toSend = f.toSend[1:]
				if err := send(f, w, false); err != nil {
					return err
				}
			}
			if len(f.toReport) > 0 && (len(f.toSend) == 0 || n%5 == c.Report[n%len(c.Report)]) {
				w := f.toReport[0]
				f.toReport = f.toReport[1:]
				if err := send(f, w, true); err != nil {
					return err
				}
			}
			if n+1 == c.Pause {
				if err := flush(); err != nil {
					return err
				}
				for _, cmd := range []string{"PAUSE", "PLAY"} {
					if err := x.command(cmd); err != nil {
						return err
					}
				}
			}
		}
		if err := flush(); err != nil {
			return err
		}
		for i, f := range feeds {
			if err := f.file(); err != nil {
				return fmt.Errorf("stream %d: %v", i, err)
			}
		}
		return x.settled()
	})
}

func init() {
	register(Spec[vidCase]{
		Prop: "C38", Name: "video", Quick: 4000, Thorough: 40000,
		Rule: "sessions over TCP, HTTP and UDP with 1-3 streams of up to 8 payloads each, in any packetization, as RTP packets with any header, padding and extension, wrapping sequence numbers, parameter sets among them, sender reports on the control channels, and a pause; the user unpacks, reassembles, parses and writes to a byte stream what comes; non-trivial: five packets or more",
		Gen:  genVideo,
		Nontrivial: func(c vidCase) bool {
			n := 0
			for _, v := range c.Streams {
				d, r := v.packets()
				n += len(d) + len(r)
			}
			return n >= 5
		},
		Labels: func(c vidCase) (l []string) {
			l = append(l, protoName(c.Spec.Proto), fmt.Sprintf("%d streams", len(c.Streams)))
			for _, v := range c.Streams {
				if v.Sets != nil {
					l = append(l, "parameter sets")
					break
				}
			}
			if c.Pause > 0 {
				l = append(l, "pause")
			}
			return
		},
		Run: runVideo,
	})
}
