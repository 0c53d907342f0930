package main

// C01: hostile bytes.

import (
	"fmt"
	"net"
	"runtime"
	"strings"
	"time"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/rtcp"
	"github.com/aboukirev/ouro/net/rtp"
	"github.com/aboukirev/ouro/net/rtsp"
	"github.com/aboukirev/ouro/net/sdp"
	"pgregory.net/rapid"
)

// hostile is a history of inputs for one parser.
type hostile struct {
	Parser string
	Bufs   [][]byte
	Cuts   []int `json:",omitempty"` // how a stream is cut into segments
}

func (h hostile) size() (n int) {
	for _, b := range h.Bufs {
		n += len(b)
	}
	return
}

// allocLimit is what parsing n bytes may allocate in total.  The parsers take 2 MB and 100 bytes per byte at the very most.
func allocLimit(n int) uint64 { return 16<<20 + 2000*uint64(n) }

// bounded runs f and compares what was allocated meanwhile to what the size of the input explains.
func bounded(n int, f func()) error {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	if d := b.TotalAlloc - a.TotalAlloc; d > allocLimit(n) {
		return fmt.Errorf("parsing %d bytes allocated %d", n, d)
	}
	return nil
}

var parsers = map[string]func(bufs [][]byte){
	"rtp": func(bufs [][]byte) {
		for _, b := range bufs {
			if p, err := rtp.Unpack(b); err == nil {
				p.Pack()
			}
		}
	},
	"rtcp": func(bufs [][]byte) {
		for _, b := range bufs {
			rtcp.Unpack(b)
		}
	},
	"payload": func(bufs [][]byte) {
		s := h264.NewNALSink()
		for i, b := range bufs {
			s.Push(b, uint32(i/3))
			for _, u := range s.Units {
				u.Type()
				u.RefIdc()
				u.ZeroBit()
			}
		}
	},
	"sets": func(bufs [][]byte) {
		s := h264.NewParameterSets()
		for i, b := range bufs {
			switch i % 3 {
			case 0:
				s.ParseSprop(b)
			case 1:
				s.ParseSPS(b)
			case 2:
				s.ParsePPS(b)
			}
			s.GetSPS(0)
			s.GetPPS(0)
		}
		for _, b := range bufs {
			s.ParseSPS(b)
			s.ParsePPS(b)
		}
	},
	"annexb": func(bufs [][]byte) {
		for _, b := range bufs {
			h264.SplitAnnexB(append([]byte{}, b...))
			h264.EBSPToRaw(append([]byte{}, b...))
			h264.RBSPToEncapsulated(append([]byte{}, b...))
		}
	},
	"bits": func(bufs [][]byte) {
		lists := [2][]int32{make([]int32, 16), make([]int32, 64)}
		for k, b := range bufs {
			r := h264.NewBitReader(b)
			for i := 0; i < len(b)*8+8; i++ {
				switch (i + k) % 7 {
				case 0:
					r.ReadUnsignedGolomb()
				case 1:
					r.ReadSignedGolomb()
				case 2:
					r.SkipGolomb()
				case 3:
					r.ReadBits(uint(i % 37))
				case 4:
					r.ReadPayloadParam()
				case 5:
					r.SkipTrailingBits()
				case 6:
					r.ReadScalingList(lists[i/7%2])
				}
			}
		}
	},
	"sdp": func(bufs [][]byte) {
		for _, b := range bufs {
			sdp.Parse(b)
			rtsp.ParseFeeds(rtsp.ProtoTCP, b)
		}
	},
	"transport": func(bufs [][]byte) {
		t := rtsp.NewTransport(rtsp.ProtoTCP, 0)
		for _, b := range bufs {
			if t.Parse(string(b)) == nil {
				_ = t.String()
			}
			rtsp.ParsePair(string(b))
		}
	},
	"challenge": func(bufs [][]byte) {
		for _, b := range bufs {
			if d, err := rtsp.NewDigest("rtsp://10.0.0.1/x", string(b)); err == nil {
				f := d.Authenticate("user", "password")
				f("PLAY", nil)
				f("PAUSE", []byte("x"))
			}
		}
	},
}

var words = map[string][]string{
	"sdp": {"m=video 0 RTP/AVP 96\r\n", "m=video\r\n", "m=", "m=video 0\n", "a=rtpmap:96 H264/90000\r\n", "a=rtpmap:", "a=rtpmap:96\n", "a=rtpmap: 96 /\n", "a=fmtp:96 ", "a=fmtp:", "a=fmtp:96\n", ";", "=", ":", " ", "\r", "\n",
		"sprop-parameter-sets=", "sprop-parameter-sets=Z0IAHpWoKA9k,aM48gA==", ",", "Zw==", "====", "config=", "config=0", "sizelength=99999999999999999999", "indexlength=-1", "a=control:", "a=control:*\r\n", "a", "a=", "a=x", "\x00", "\xff", "v=0\r\n", "m=audio 0 RTP/AVP 0\r\n"},
	"transport": {"RTP/AVP", "RTP/AVP/TCP", "/", ";", "=", "-", ",", " ", "interleaved=", "interleaved=0-1", "client_port=", "client_port=1-", "port=-", "port=-1--2", "server_port=99999999999999999999", "ttl=", "ttl=-1", "layers=x", "ssrc=", "mode=\"", "mode=", "\"", "destination", "destination=", "source=", "append", "unicast", "multicast", "\x00", "\xff", "RTP", "rtp/avp/udp;"},
	"challenge": {"Digest ", "Basic ", "digest", "Bearer x", "realm=", "realm=\"a\"", "nonce=\"b\"", "nonce=", "qop=\"auth\"", "qop=auth-int", "qop=\"auth,auth-int\"", "qop=\"", "qop=\",\"", "qop=", "algorithm=MD5", "algorithm=\"MD5-sess\"", "algorithm=", "opaque=", "opaque=\"\"", "stale=true", "\"", ",", "=", " ", "\t", "\\\"", "domain=\"x, y\"", "x", ",,", "==", "\x00", "\xff"},
	"response": {"RTSP/1.0 ", "200 OK", "RTSP/1.0 200 OK\r\n", "RTSP/1.0 401 Unauthorized\r\n", "RTSP/2.0 200 OK\r\n", "\r\n", "\r\n\r\n", "\n", "\r", ":", " ", "CSeq: 1\r\n", "CSeq: -1\r\n", "CSeq: 99999999999999999999\r\n", "CSeq:\r\n", "Content-Length: 0\r\n", "Content-Length: 4\r\n", "Content-Length: -1\r\n",
		"Content-Length: 9223372036854775807\r\n", "Content-Length: 9223372036854775808\r\n", "Content-Length: 4294967296\r\n", "Content-Length: 2147483648\r\n", "Content-Length: 1000000000000\r\n", "Content-Length: 3000000000\r\n", "Content-Length: x\r\n", "content-length:5\r\n", "Session:\r\n", "Session: ;\r\n", "Transport: ;\r\n", "$\x00\xff\xff", "$", "abc", "\x00", "\xff", ": x\r\n", "x\r\n", "RTSP/1.0 -20 x\r\n", "RTSP/1.0 \r\n", "RTSP/1.0\r\n", "HTTP/1.0 200 OK\r\n"},
}

func init() { words["http"] = words["response"] }

// soup draws a sequence of a parser's words and other bytes.
func soup(ws []string) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		var b []byte
		for i := rapid.IntRange(0, 25).Draw(t, "words"); i > 0; i-- {
			if rapid.IntRange(0, 11).Draw(t, "other") == 0 {
				b = append(b, anyBytes(0, 20).Draw(t, "bytes")...)
			} else {
				b = append(b, rapid.SampledFrom(ws).Draw(t, "word")...)
			}
		}
		return b
	})
}

// mutate damages b in a few places.
func mutate(t *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	for i := rapid.IntRange(0, 5).Draw(t, "mutations"); i > 0; i-- {
		p := rapid.IntRange(0, len(b)).Draw(t, "at")
		switch rapid.IntRange(0, 7).Draw(t, "mutation") {
		case 0:
			b = b[:p]
		case 1:
			q := p + rapid.IntRange(0, len(b)-p).Draw(t, "length")
			b = append(b[:p:p], b[q:]...)
		case 2:
			q := p + rapid.IntRange(0, len(b)-p).Draw(t, "length")
			b = append(b[:q:q], b[p:]...)
		case 3:
			if p < len(b) {
				b[p] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			}
		case 4:
			if p < len(b) {
				b[p] = rapid.SampledFrom([]byte{0, 1, 3, 0x7f, 0x80, 0xff, ' ', '"', '=', ',', ';', ':', '-', '\n'}).Draw(t, "byte")
			}
		case 5:
			if p+1 < len(b) {
				be.PutUint16(b[p:], rapid.SampledFrom([]uint16{0, 1, 2, 0x7fff, 0x8000, 0xfffe, 0xffff, uint16(len(b)), uint16(len(b) - p), uint16(len(b) - p - 2)}).Draw(t, "size"))
			}
		case 6:
			b = append(b[:p:p], append(anyBytes(0, 12).Draw(t, "insert"), b[p:]...)...)
		case 7:
			b = append(b, anyBytes(0, 40).Draw(t, "append")...)
		}
	}
	return b
}

// bitSoup draws codes as parameter sets are made of, with extreme values among them.
func bitSoup(t *rapid.T) []byte {
	var w bitWriter
	ue := rapid.OneOf(rapid.Uint64Range(0, 8), rapid.Uint64Range(0, 300), rapid.SampledFrom([]uint64{255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<33 - 2}))
	switch rapid.IntRange(0, 3).Draw(t, "start") {
	case 0: // as a sequence parameter set
		w.u(uint64(rapid.SampledFrom([]byte{66, 77, 100, 110, 244, 44, 183}).Draw(t, "profile")), 8)
		w.u(0, 8)
		w.u(30, 8)
		w.ue(rapid.Uint64Range(0, 1).Draw(t, "id"))
	case 1: // as a picture parameter set
		w.ue(rapid.Uint64Range(0, 1).Draw(t, "id"))
		w.ue(rapid.Uint64Range(0, 1).Draw(t, "sps"))
		w.u(rapid.Uint64Range(0, 3).Draw(t, "flags"), 2)
		w.ue(rapid.OneOf(rapid.Uint64Range(0, 9), ue).Draw(t, "groups"))
		w.ue(rapid.Uint64Range(0, 8).Draw(t, "type"))
		w.ue(ue.Draw(t, "size"))
	}
	for i := rapid.IntRange(0, 60).Draw(t, "codes"); i > 0; i-- {
		switch rapid.IntRange(0, 4).Draw(t, "code") {
		case 0:
			w.u(rapid.Uint64Range(0, 1).Draw(t, "flag"), 1)
		case 1:
			w.u(0, rapid.IntRange(1, 70).Draw(t, "zeros"))
		case 2:
			w.u(1<<uint(rapid.IntRange(1, 60).Draw(t, "ones"))-1, 60)
		default:
			w.ue(ue.Draw(t, "value"))
		}
	}
	b := w.bytes()
	if rapid.Bool().Draw(t, "sprop") {
		b = append([]byte{rapid.SampledFrom([]byte{0x67, 0x68, 0x27, 0x28}).Draw(t, "header")}, b...)
	}
	return b
}

// hostileBuf draws one input for a parser.
func hostileBuf(t *rapid.T, parser string) []byte {
	max := 300
	if rapid.IntRange(0, 40).Draw(t, "long") == 0 {
		max = 65536
	}
	if rapid.IntRange(0, 3).Draw(t, "any") == 0 {
		return anyBytes(0, max).Draw(t, "bytes")
	}
	var b []byte
	switch parser {
	case "rtp":
		b = genRTP(20, max)(t).wire()
		if rapid.IntRange(0, 3).Draw(t, "count") == 0 && len(b) > 13 {
			b[0] = 0x80 | rapid.ByteRange(0, 63).Draw(t, "flags")
		}
	case "rtcp":
		c := rtcpCase{Version: 2, PT: rapid.ByteRange(199, 205).Draw(t, "pt"), C: rapid.ByteRange(0, 31).Draw(t, "count"), P: rapid.Bool().Draw(t, "P"), Cut: rapid.IntRange(-1, 60).Draw(t, "cut"),
			LN: rapid.OneOf(rapid.Uint16Range(0, 20), rapid.Uint16()).Draw(t, "length"), Blocks: rapid.IntRange(0, 31).Draw(t, "blocks"), Rest: anyBytes(0, 60).Draw(t, "rest")}
		b = c.wire()
	case "payload":
		pkts, _ := genPayload([]int{kSingle, kStapA, kStapB, kMtap16, kMtap24, kAnnexB, kSeries}, max).Draw(t, "payload").packets()
		b = rapid.SampledFrom(pkts).Draw(t, "packet")
		if rapid.IntRange(0, 4).Draw(t, "type") == 0 && len(b) > 0 {
			b[0] = b[0]&0xe0 | rapid.ByteRange(0, 31).Draw(t, "nal type")
		}
	case "sets", "bits":
		switch rapid.IntRange(0, 3).Draw(t, "set") {
		case 0:
			b, _ = genSPS(t).write()
		case 1:
			b, _ = genPPS(t, 0, rapid.IntRange(0, 3).Draw(t, "chroma")).write()
		default:
			return bitSoup(t)
		}
	case "annexb":
		b = zeroRich(max)(t).B
	case "sdp":
		if rapid.Bool().Draw(t, "soup") {
			return soup(words["sdp"]).Draw(t, "soup")
		}
		for i := rapid.IntRange(0, 5).Draw(t, "attributes"); i >= 0; i-- {
			b = append(b, rapid.SampledFrom([]string{"v=0\r\n", "m=video 0 RTP/AVP 96\r\n", "a=control:trackID=1\r\n", "a=rtpmap:96 H264/90000\r\n",
				"a=fmtp:96 packetization-mode=1;profile-level-id=42001E;sprop-parameter-sets=Z0IAHpWoKA9k,aM48gA==\r\n", "a=fmtp:97 streamtype=5;mode=AAC-hbr;config=1408;sizelength=13;indexlength=3\r\n"}).Draw(t, "attribute")...)
		}
	case "transport":
		if rapid.Bool().Draw(t, "soup") {
			return soup(words["transport"]).Draw(t, "soup")
		}
		b = []byte(genTrText(t).Text)
	case "challenge":
		if rapid.Bool().Draw(t, "soup") {
			return soup(words["challenge"]).Draw(t, "soup")
		}
		b = []byte(genSpelled(t).Text)
	case "response":
		if rapid.Bool().Draw(t, "soup") {
			return soup(words["response"]).Draw(t, "soup")
		}
		m := genRespMsg(t)
		if m.Body.Len > 2000 {
			m.Body.Len = 2000
		}
		b = m.wire()
	case "http":
		if rapid.Bool().Draw(t, "soup") {
			return append([]byte("HTTP/1.0 "), soup(words["http"]).Draw(t, "soup")...)
		}
		b = []byte("HTTP/1.0 200 OK\r\nServer: x\r\nContent-Length: 99999999999\r\n\r\nRTSP/1.0 200 OK\r\nCSeq: 1\r\n\r\n")
	}
	return mutate(t, b)
}

func genHostile(parser string) func(t *rapid.T) hostile {
	return func(t *rapid.T) hostile {
		h := hostile{Parser: parser}
		for i := rapid.IntRange(1, 6).Draw(t, "inputs"); i > 0; i-- {
			h.Bufs = append(h.Bufs, hostileBuf(t, parser))
		}
		return h
	}
}

// runResponse lets the client read a stream from a socket.
func runResponse(h hostile) error {
	var data []byte
	for _, b := range h.Bufs {
		data = append(data, b...)
	}
	return bounded(len(data)+100000, func() {
		ln, err := listenLocal()
		if err != nil {
			return
		}
		defer ln.Close()
		proto := rtsp.ProtoTCP
		if h.Parser == "http" {
			proto = rtsp.ProtoHTTP
		}
		go func() {
			for {
				conn, err := ln.Accept()
				if err != nil {
					return
				}
				conn.SetDeadline(time.Now().Add(wait()))
				writeCut(conn, data, h.Cuts)
				conn.(*net.TCPConn).CloseWrite()
				defer conn.Close()
			}
		}()
		c, err := rtsp.Dial("rtsp://"+ln.Addr().String()+"/live", proto)
		if err != nil {
			return
		}
		for i := 0; i < 10000; i++ {
			r, err := rtsp.Unpack(c)
			if r != nil {
				r.Pack()
			}
			if err == nil {
				continue
			}
			if _, err = c.Peek(1); err != nil {
				break
			}
		}
		tick()
	})
}

// hostileSession is a camera that answers with damaged messages.
type hostileSession struct {
	Proto   int
	Answers [][]byte // %d stands for the CSeq of the request
}

func genHostileSession(t *rapid.T) hostileSession {
	c := hostileSession{Proto: rapid.SampledFrom([]int{rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoHTTP}).Draw(t, "proto")}
	text := func(parser string) string {
		s := string(hostileBuf(t, parser))
		return strings.NewReplacer("\r", "", "\n", "", "%", "").Replace(s)
	}
	hurt := rapid.IntRange(0, 6).Draw(t, "hurt")
	for i := 0; i < 7; i++ {
		code := "200 OK"
		if rapid.IntRange(0, 5).Draw(t, "status") == 0 {
			code = rapid.SampledFrom([]string{"401 Unauthorized", "404 Not Found", "100 Continue", "301 Moved"}).Draw(t, "code")
		}
		a := "RTSP/1.0 " + code + "\r\nCSeq: %d\r\n"
		if code[0] == '4' || rapid.IntRange(0, 9).Draw(t, "challenge") == 0 {
			a += "WWW-Authenticate: " + text("challenge") + "\r\n"
		}
		body := ""
		switch {
		case i == 1:
			body = "v=0\r\nm=video 0 RTP/AVP 96\r\na=control:1\r\nm=video 0 RTP/AVP 96\r\na=control:2\r\na=fmtp:96 sprop-parameter-sets=Z0IAHpWoKA9k,aM48gA==\r\n"
			if hurt == 1 {
				body = strings.ReplaceAll(string(hostileBuf(t, "sdp")), "%", "")
			}
		case i >= 2 && i < 4:
			tr := fmt.Sprintf("RTP/AVP/TCP;interleaved=%d-%d", i, i+1)
			if hurt == i {
				tr = text("transport")
			}
			a += "Transport: " + tr + "\r\nSession: " + rapid.SampledFrom([]string{"1", "", ";", "1;timeout=", "\x00"}).Draw(t, "session") + "\r\n"
		}
		if body != "" {
			a += fmt.Sprintf("Content-Length: %d\r\n", len(body)+rapid.SampledFrom([]int{0, 0, 0, -1, 1, 1 << 40}).Draw(t, "wrong by"))
		}
		b := []byte(a + "\r\n" + body)
		if rapid.IntRange(0, 5).Draw(t, "damage") == 0 {
			b = mutate(t, b)
		}
		if rapid.IntRange(0, 3).Draw(t, "frame") == 0 {
			n := rapid.IntRange(0, 65535).Draw(t, "frame length")
			b = append(b, frame(rapid.Byte().Draw(t, "channel"), make([]byte, n))...)
			if rapid.Bool().Draw(t, "cut frame") {
				b = b[:len(b)-n/2]
			}
		}
		c.Answers = append(c.Answers, b)
	}
	return c
}

func (c hostileSession) run() error {
	spec := camSpec{Proto: c.Proto, Path: "/live", User: "u", Pass: "p"}
	x, err := startRun(spec)
	if err != nil {
		return err
	}
	defer x.close()
	for _, a := range c.Answers {
		var m *message
		select {
		case r := <-x.cam.reqs:
			if r.err != nil {
				return nil
			}
			m = r.m
		case <-time.After(25 * time.Millisecond): // it has given up
			return nil
		}
		b := []byte(strings.ReplaceAll(string(a), "%d", m.get("CSeq")))
		select {
		case <-x.cam.ready:
			x.cam.out.SetWriteDeadline(time.Now().Add(time.Second))
			x.cam.out.Write(b)
		case <-time.After(time.Second):
			return nil
		}
		for more := true; more; {
			select {
			case st := <-x.cl.states:
				if st == rtsp.StageReady {
					x.cl.s.Play()
					x.cl.s.Pause()
				}
			default:
				more = false
			}
		}
	}
	return nil
}

func init() {
	nontrivial := func(h hostile) bool { return h.size() > 0 }
	label := func(h hostile) []string {
		switch n := h.size(); {
		case n < 16:
			return []string{"under 16 bytes"}
		case n < 1000:
			return []string{"16-999 bytes"}
		default:
			return []string{"1000 bytes and more"}
		}
	}
	for _, p := range []struct {
		parser string
		n      int
	}{{"rtp", 20000}, {"rtcp", 20000}, {"payload", 20000}, {"sets", 20000}, {"annexb", 8000}, {"bits", 8000}, {"sdp", 12000}, {"transport", 12000}, {"challenge", 12000}} {
		parser, n := p.parser, p.n
		register(Spec[hostile]{
			Prop: "C01", Name: parser, Quick: n, Pure: true, Alone: true,
			Rule: "histories of 1-6 inputs of 0-65536 bytes for the " + parser + " parser (any bytes, its vocabulary in any order, well-formed inputs damaged in 0-5 places, extreme sizes and counts): returns without panic and without allocating more than 16 MB and 2000 times the input; non-trivial: not empty",
			Gen:  genHostile(parser), Nontrivial: nontrivial, Labels: label,
			Run: func(h hostile) error { return bounded(h.size(), func() { parsers[h.Parser](h.Bufs) }) },
		})
	}
	register(Spec[hostile]{
		Prop: "C01", Name: "tiny", Pure: true, Alone: true,
		Rule: "every parser with every input of up to two bytes, all first bytes followed by 1-48 equal bytes, and (thorough) every input of three bytes of an alphabet of 40",
		Enum: func(thorough bool, yield func(hostile) bool) {
			names := []string{"rtp", "rtcp", "payload", "sets", "annexb", "bits", "sdp", "transport", "challenge"}
			for _, n := range names {
				if !yield(hostile{Parser: n, Bufs: [][]byte{{}}}) || !yield(hostile{Parser: n, Bufs: [][]byte{nil}}) {
					return
				}
				for a := 0; a < 256; a++ {
					// Every second byte in one history, for speed.
					var bufs [][]byte
					for b := 0; b < 256; b++ {
						bufs = append(bufs, []byte{byte(a), byte(b)})
					}
					bufs = append(bufs, []byte{byte(a)})
					for _, f := range []byte{0, 1, 3, 0x80, 0xff} {
						for l := 1; l <= 48; l++ {
							b := []byte{byte(a)}
							for len(b) <= l {
								b = append(b, f)
							}
							bufs = append(bufs, b)
						}
					}
					if !yield(hostile{Parser: n, Bufs: bufs}) {
						return
					}
				}
				if !thorough {
					continue
				}
				alpha := []byte{0, 1, 2, 3, 4, 7, 8, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x1e, 0x40, 0x41, 0x61, 0x67, 0x68, 0x78, 0x7c, 0x7f, 0x80, 0x81, 0x90, 0xa0, 0xb0, 0xc0, 0xc8, 0xfe, 0xff, '\r', '\n', ' ', '"', ',', ';', '=', ':', '-'}
				for _, a := range alpha {
					for _, b := range alpha {
						var bufs [][]byte
						for _, c := range alpha {
							bufs = append(bufs, []byte{a, b, c})
						}
						if !yield(hostile{Parser: n, Bufs: bufs}) {
							return
						}
					}
				}
			}
		},
		Nontrivial: nontrivial,
		Run: func(h hostile) error {
			return bounded(h.size(), func() { parsers[h.Parser](h.Bufs) })
		},
	})
	for _, parser := range []string{"response", "http"} {
		register(Spec[hostile]{
			Prop: "C01", Name: parser, Quick: 3000,
			Rule: "streams of damaged " + parser + " messages read from a socket until the server hangs up, among them Content-Length values up to 2^63; same limits; non-trivial: not empty",
			Gen: func(t *rapid.T) hostile {
				h := genHostile(parser)(t)
				h.Cuts = genSmallCuts.Draw(t, "cuts")
				return h
			},
			Nontrivial: nontrivial, Labels: label,
			Run: runResponse,
		})
	}
	register(Spec[hostileSession]{
		Prop: "C01", Name: "session", Quick: 1600,
		Rule: "whole sessions with a camera whose answers, bodies, headers and frames are damaged: the client's process survives",
		Gen:  genHostileSession,
		Run:  func(c hostileSession) error { return c.run() },
		Labels: func(c hostileSession) []string {
			return []string{fmt.Sprintf("proto %d", c.Proto)}
		},
	})
}
