package main

// Uses of other objects between obtaining a result and looking at it.  What they return is of no interest here; a result
// must not depend on what is done with another packet, sink, store, description, playlist, challenge or request.

import (
	"bytes"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/hls"
	"github.com/aboukirev/ouro/net/rtcp"
	"github.com/aboukirev/ouro/net/rtp"
	"github.com/aboukirev/ouro/net/rtsp"
	"github.com/aboukirev/ouro/net/sdp"
)

var (
	otherRTP = rtpCase{M: true, PT: 111, SN: 0xabcd, TS: 0x12345678, SSRC: 0xdeadbeef, CSRC: []uint32{91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105},
		X: true, XH: 0x7777, XD: bytes.Repeat([]byte{0x5a, 0xa5, 0xc3, 0x3c}, 20), PL: bytes.Repeat([]byte("other payload"), 60), Pad: 9}.wire()
	otherPlain = rtpCase{PT: 33, SN: 7, TS: 8, SSRC: 9, PL: []byte("small")}.wire()
	otherSR    = rtcpCase{Version: 2, P: true, C: 2, PT: 200, LN: 18, SSRC: 0xcafe, NTP: 0xfedcba9876543210, RTP: 77, PC: 78, OC: 79, Cut: -1, Blocks: 2}.wire()
)

func disturbRTP() {
	for _, b := range [][]byte{otherRTP, otherPlain, otherRTP[:40]} {
		if p, err := rtp.Unpack(append([]byte{}, b...)); err == nil {
			p.Pack()
		}
	}
	rtcp.Unpack(append([]byte{}, otherSR...))
	rtcp.Unpack([]byte{0x81, 203, 0, 1, 1, 2, 3, 4})
	rtcp.Unpack(otherSR[:20])
}

var otherPayloads = [][]byte{
	{0x7c, 0x85, 0xee, 0, 0, 3, 1, 0xee},                                             // a series is begun
	{0x7c, 0x05, 0xe1, 0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea},         // goes on
	{0x7c, 0x45, 0xeb, 0, 0},                                                         // and ends
	{0x78, 0, 4, 0x67, 0xd1, 0xd2, 0xd3, 0, 3, 0x68, 0xd4, 0xd5},                     // STAP-A
	{0x79, 0x33, 0x44, 0, 4, 0x67, 0xd1, 0xd2, 0xd3, 0, 3, 0x68, 0xd4, 0xd5},         // STAP-B
	{0x7a, 0x33, 0x44, 0, 3, 9, 0, 5, 0x67, 0xd1, 0xd2, 0, 2, 10, 0, 6, 0x68, 0xd4},  // MTAP16
	{0, 0, 0, 1, 0x67, 0xc1, 0, 0, 3, 1, 0, 0, 1, 0x68, 0xc2, 0xc3, 0xc4, 0, 0, 3},   // Annex B
	append([]byte{0x65}, bytes.Repeat([]byte{0xb1, 0, 0, 3, 1}, 500)...),             // a long single unit
	append([]byte{0x7d, 0x85, 0x12, 0x34}, bytes.Repeat([]byte{0xa0, 0, 0}, 700)...), // a series left open
}

func disturbH264() {
	sink := h264.NewNALSink()
	for i, p := range otherPayloads {
		sink.Push(append([]byte{}, p...), uint32(4000+i))
	}
	h264.SplitAnnexB(append([]byte{}, otherPayloads[6]...))
	h264.EBSPToRaw([]byte{9, 0, 0, 3, 0, 0, 3, 1, 9, 9, 9, 9})
	h264.RBSPToEncapsulated([]byte{8, 0, 0, 0, 0, 0, 1, 8, 8, 8, 8})
}

func disturbBits() {
	r := h264.NewBitReader([]byte{0xff, 0x00, 0xaa, 0x10, 0x00, 0x00, 0x20, 0x11, 0x80})
	r.ReadBits(11)
	r.ReadUnsignedGolomb()
	r.SkipGolomb()
	r.ReadFlag()
	r.SkipBits(2)
	r.ReadBits(40)
}

var otherSPS, otherPPS = func() ([]byte, []byte) {
	// Baseline 176x144 with id 31 and a picture parameter set with id 31 that refers to it.
	var s, p bitWriter
	s.u(66, 8)
	s.u(0, 8)
	s.u(30, 8)
	for _, v := range []uint64{31, 3, 0, 5, 4} {
		s.ue(v)
	}
	s.u(0, 1)
	s.ue(10)
	s.ue(8)
	s.u(1, 1) // frames only
	s.u(1, 1)
	s.u(0, 1)
	s.u(0, 1)
	s.u(1, 1)
	p.ue(31)
	p.ue(31)
	p.u(0, 2)
	p.ue(0)
	p.ue(6)
	p.ue(7)
	p.u(1, 1)
	p.u(2, 2)
	p.se(-3)
	p.se(4)
	p.se(-5)
	p.u(7, 3)
	p.u(1, 1)
	return s.bytes(), p.bytes()
}()

func disturbSets() {
	ps := h264.NewParameterSets()
	ps.ParseSPS(append([]byte{}, otherSPS...))
	ps.ParsePPS(append([]byte{}, otherPPS...))
	ps.ParseSprop(append([]byte{0x67}, otherSPS...))
	ps.ParseSPS(otherSPS[:3])
	ps.GetSPS(31)
	ps.GetPPS(31)
	disturbBits()
}

func disturbSDP() {
	sdp.Parse([]byte("v=0\r\ns=other\r\na=control:*\r\nm=video 0 RTP/AVP 111\r\na=rtpmap:111 OTHER/12345\r\na=control:other\r\n" +
		"a=fmtp:111 packetization-mode=1;config=deadbeef;sizelength=77;indexlength=66;sprop-parameter-sets=Z0IACpZUCg8Ih/KfI4A=,aM4BqDXIAAAB\r\nm=audio 0 RTP/AVP 0\r\na=control:sound\r\nm=video 0 RTP/AVP 112\r\na=control:second\r\n"))
}

func disturbHLS() {
	pl, err := hls.NewPlaylist("http://other.example:99/o/p?q=r", "/x/other name.ts", 3, 9)
	if err != nil {
		return
	}
	for i := 0; i < 5; i++ {
		pl.AddSegment(float64(i)+0.125, int64(1000+i))
	}
	_ = pl.String()
}

func disturbAuth() {
	for _, ch := range []string{`Digest realm="other", nonce="othernonce", qop="auth,auth-int", algorithm=MD5-sess, opaque="o"`, `Basic realm="other"`, `Digest realm="third", nonce="n3"`} {
		d, err := rtsp.NewDigest("rtsp://other/uri", ch)
		if err != nil {
			continue
		}
		auth := d.Authenticate("someone", "else")
		auth("SETUP", []byte("body"))
		auth("GET_PARAMETER", nil)
	}
}

func disturbTransport() {
	t := rtsp.Transport{Source: "10.9.8.7"}
	t.Parse("RTP/AVP/UDP;multicast;port=60000-60001;ttl=99;layers=7;destination=239.9.9.9;ssrc=DEADBEEF;mode=\"RECORD\";append")
	_ = t.String()
	rtsp.ParseFeeds(rtsp.ProtoUnicast, []byte("v=0\r\nm=video 0 RTP/AVP 96\r\na=control:x\r\nm=video 0 RTP/AVP 97\r\na=control:y\r\n"))
}

func disturbRequest() {
	r := rtsp.Request{Verb: "GET_PARAMETER", URI: "rtsp://other/uri", Auth: "Basic b3RoZXI6b3RoZXI=", Session: "othersession", Cseq: 4242, Header: rtsp.MessageHeader{}}
	r.Header.Set("X-Other", "other value")
	r.Header.Set("Transport", "RTP/AVP;unicast;client_port=60000-60001")
	r.Pack()
}
