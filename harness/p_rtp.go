package main

// C02, C03, C04: RTP and RTCP packets.

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/aboukirev/ouro/net/rtcp"
	"github.com/aboukirev/ouro/net/rtp"
	"pgregory.net/rapid"
)

var be = binary.BigEndian

// anyBytes draws byte strings of minLen..maxLen bytes, mixing uniform bytes with runs of the values protocols treat specially.
func anyBytes(minLen, maxLen int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		n := rapid.IntRange(minLen, maxLen).Draw(t, "len")
		kind := rapid.IntRange(0, 3).Draw(t, "bytes kind")
		switch kind {
		case 0:
			return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "bytes")
		case 1:
			return rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 0, 1, 2, 3, 4, 0xff, '$', '\r', '\n', 0x80}), n, n).Draw(t, "bytes")
		default:
			// Cheap for long strings: a short drawn pattern repeated with an increment.
			pat := rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "pattern")
			inc := rapid.Byte().Draw(t, "inc")
			b := make([]byte, n)
			for i := range b {
				b[i] = pat[i%len(pat)] + inc*byte(i/len(pat))
			}
			return b
		}
	})
}

// payloadLen draws lengths that favour small values and the usual boundaries.
func lengths(max int) *rapid.Generator[int] {
	var bounds []int
	for _, b := range []int{0, 1, 2, 3, 4, 255, 256, 1400, 2047, 2048, 2049, 4095, 4096, 65535} {
		if b <= max {
			bounds = append(bounds, b)
		}
	}
	m := max
	if m > 64 {
		m = 64
	}
	return rapid.OneOf(rapid.IntRange(0, m), rapid.IntRange(0, m), rapid.SampledFrom(bounds), rapid.IntRange(0, max))
}

type rtpCase struct {
	M    bool
	PT   byte
	SN   uint16
	TS   uint32
	SSRC uint32
	CSRC []uint32
	X    bool
	XH   uint16
	XD   []byte // multiple of 4
	PL   []byte
	Pad  int // 0: none; otherwise the padding count
}

func genRTP(maxX, maxPL int) func(t *rapid.T) rtpCase {
	return func(t *rapid.T) rtpCase {
		c := rtpCase{
			M: rapid.Bool().Draw(t, "M"), PT: rapid.ByteRange(0, 127).Draw(t, "PT"), SN: rapid.Uint16().Draw(t, "SN"),
			TS: rapid.Uint32().Draw(t, "TS"), SSRC: rapid.Uint32().Draw(t, "SSRC"),
			CSRC: rapid.SliceOfN(rapid.Uint32(), 0, 15).Draw(t, "CSRC"), X: rapid.Bool().Draw(t, "X"),
		}
		if c.X {
			c.XH = rapid.Uint16().Draw(t, "XH")
			n := rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, maxX)).Draw(t, "words") * 4
			c.XD = anyBytes(n, n).Draw(t, "XD")
		}
		n := lengths(maxPL).Draw(t, "n")
		c.PL = anyBytes(n, n).Draw(t, "PL")
		if rapid.IntRange(0, 2).Draw(t, "padded") == 0 {
			c.Pad = rapid.IntRange(1, 255).Draw(t, "pad")
		}
		return c
	}
}

func (c rtpCase) header() []byte {
	b := []byte{2<<6 | byte(len(c.CSRC)), c.PT, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	if c.Pad > 0 {
		b[0] |= 0x20
	}
	if c.X {
		b[0] |= 0x10
	}
	if c.M {
		b[1] |= 0x80
	}
	be.PutUint16(b[2:], c.SN)
	be.PutUint32(b[4:], c.TS)
	be.PutUint32(b[8:], c.SSRC)
	for _, s := range c.CSRC {
		b = be.AppendUint32(b, s)
	}
	if c.X {
		b = be.AppendUint16(b, c.XH)
		b = be.AppendUint16(b, uint16(len(c.XD)/4))
		b = append(b, c.XD...)
	}
	return b
}

func (c rtpCase) wire() []byte {
	b := append(c.header(), c.PL...)
	if c.Pad > 0 {
		b = append(b, make([]byte, c.Pad-1)...)
		b = append(b, byte(c.Pad))
	}
	return b
}

func (c rtpCase) labels() (l []string) {
	if c.Pad > 0 {
		l = append(l, "padded")
	}
	if c.X {
		l = append(l, "extension")
		if len(c.XD) > 256 {
			l = append(l, "long extension")
		}
	}
	if len(c.CSRC) > 0 {
		l = append(l, "csrc")
	}
	if len(c.PL) == 0 {
		l = append(l, "empty payload")
	}
	return
}

// compareRTP compares an unpacked packet with the description it was encoded from.
func compareRTP(p *rtp.Packet, c rtpCase) error {
	if p == nil {
		return fmt.Errorf("no packet and no error")
	}
	if p.P() != (c.Pad > 0) || p.X() != c.X || p.M() != c.M || p.PT() != c.PT || int(p.CC()) != len(c.CSRC) {
		return fmt.Errorf("flags: P=%v X=%v M=%v PT=%d CC=%d", p.P(), p.X(), p.M(), p.PT(), p.CC())
	}
	if p.SN != c.SN || p.TS != c.TS || p.SSRC != c.SSRC {
		return fmt.Errorf("SN=%d TS=%d SSRC=%d, want %d %d %d", p.SN, p.TS, p.SSRC, c.SN, c.TS, c.SSRC)
	}
	if len(p.CSRC) != len(c.CSRC) {
		return fmt.Errorf("%d CSRCs, want %d", len(p.CSRC), len(c.CSRC))
	}
	for i := range c.CSRC {
		if p.CSRC[i] != c.CSRC[i] {
			return fmt.Errorf("CSRC %d is %d, want %d", i, p.CSRC[i], c.CSRC[i])
		}
	}
	if c.X && (p.XH != c.XH || int(p.XL) != len(c.XD)/4) {
		return fmt.Errorf("extension header %d length %d, want %d %d", p.XH, p.XL, c.XH, len(c.XD)/4)
	}
	if !bytes.Equal(p.XD, c.XD) {
		return fmt.Errorf("extension data %x, want %x", p.XD, c.XD)
	}
	if !bytes.Equal(p.PL, c.PL) {
		return fmt.Errorf("payload of %d bytes, want %d: %s", len(p.PL), len(c.PL), diffBytes(p.PL, c.PL))
	}
	return nil
}

func diffBytes(got, want []byte) string {
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	g, w := got[n:], want[n:]
	if len(g) > 24 {
		g = g[:24]
	}
	if len(w) > 24 {
		w = w[:24]
	}
	return fmt.Sprintf("lengths %d and %d, first difference at %d: got %x want %x", len(got), len(want), n, g, w)
}

// rtpAcceptable is the rejection rule of C02, applied to arbitrary bytes.
func rtpAcceptable(b []byte) bool {
	if len(b) < 12 || b[0]>>6 != 2 {
		return false
	}
	off := 12 + 4*int(b[0]&15)
	if len(b) < off {
		return false
	}
	if b[0]&0x10 != 0 {
		if len(b) < off+4 {
			return false
		}
		off += 4 + 4*int(be.Uint16(b[off+2:]))
		if len(b) < off {
			return false
		}
	}
	if b[0]&0x20 != 0 {
		if len(b) == off {
			return false
		}
		n := int(b[len(b)-1])
		if n == 0 || off+n > len(b) {
			return false
		}
	}
	return true
}

type mangledRTP struct {
	Base    rtpCase
	Version byte // 0..3
	Cut     int  // bytes kept, -1: all
	LastSet bool // overwrite the last byte (the padding count)
	Last    byte
}

func (m mangledRTP) wire() []byte {
	b := m.Base.wire()
	b[0] = b[0]&0x3f | m.Version<<6
	if m.Cut >= 0 && m.Cut < len(b) {
		b = b[:m.Cut]
	}
	if m.LastSet && len(b) > 12 {
		b[len(b)-1] = m.Last
	}
	return b
}

type rtcpCase struct {
	Version byte
	P       bool
	C       byte
	PT      byte
	LN      uint16
	SSRC    uint32
	NTP     uint64
	RTP     uint32
	PC, OC  uint32
	Rest    []byte
	Cut     int // -1: all
	Blocks  int // report blocks actually present
}

func (c rtcpCase) wire() []byte {
	b := []byte{c.Version<<6 | c.C, c.PT}
	if c.P {
		b[0] |= 0x20
	}
	b = be.AppendUint16(b, c.LN)
	if c.PT == 200 {
		b = be.AppendUint32(b, c.SSRC)
		b = be.AppendUint64(b, c.NTP)
		b = be.AppendUint32(b, c.RTP)
		b = be.AppendUint32(b, c.PC)
		b = be.AppendUint32(b, c.OC)
		for i := 0; i < 24*c.Blocks; i++ {
			b = append(b, byte(i*7+c.Blocks))
		}
	}
	b = append(b, c.Rest...)
	if c.Cut >= 0 && c.Cut < len(b) {
		b = b[:c.Cut]
	}
	return b
}

func runUnpack(c rtpCase) error {
	w := c.wire()
	orig := append([]byte{}, w...)
	p, err := rtp.Unpack(w)
	if err != nil {
		return fmt.Errorf("well-formed packet rejected: %v", err)
	}
	if !bytes.Equal(orig, w) {
		return fmt.Errorf("unpacking changed the input")
	}
	disturbRTP()
	return compareRTP(p, c)
}

func runPackUnpack(c rtpCase) error {
	p := &rtp.Packet{VPXCC: c.header()[0], MPT: c.header()[1], SN: c.SN, TS: c.TS, SSRC: c.SSRC, CSRC: c.CSRC, XH: c.XH, XL: uint16(len(c.XD) / 4), XD: c.XD, PL: c.PL}
	w := p.Pack()
	disturbRTP()
	q, err := rtp.Unpack(w)
	if err != nil {
		return fmt.Errorf("packed packet rejected: %v", err)
	}
	disturbRTP()
	if err := compareRTP(p, c); err != nil {
		return fmt.Errorf("packing changed the packet: %v", err)
	}
	return compareRTP(q, c)
}

func runUnpackPack(c rtpCase) error {
	p, err := rtp.Unpack(c.wire())
	if err != nil {
		return fmt.Errorf("well-formed packet rejected: %v", err)
	}
	disturbRTP()
	w := p.Pack()
	disturbRTP()
	if c.Pad == 0 {
		if !bytes.Equal(w, c.wire()) {
			return fmt.Errorf("repacked differently: %s", diffBytes(w, c.wire()))
		}
		return nil
	}
	q, err := rtp.Unpack(w)
	if err != nil {
		return fmt.Errorf("repacked padded packet rejected: %v", err)
	}
	return compareRTP(q, c)
}

// checkRTPRule applies the rejection rule of C02.
func checkRTPRule(w []byte) error {
	p, err := rtp.Unpack(w)
	if ok := rtpAcceptable(w); ok != (err == nil) {
		return fmt.Errorf("acceptable=%v but error=%v", ok, err)
	}
	if err == nil && p == nil {
		return fmt.Errorf("neither packet nor error")
	}
	return nil
}

func init() {
	register(Spec[rtpCase]{
		Prop: "C02", Name: "wellformed", Quick: 40000, Pure: true,
		Rule:       "RTP v2 packets encoded field by field by a reference encoder: all flags, 0-15 CSRCs, 0-300 extension words, payloads 0-4096, padding 1-255; non-trivial: has CSRCs, an extension or padding",
		Gen:        genRTP(300, 4096),
		Nontrivial: func(c rtpCase) bool { return len(c.CSRC) > 0 || c.X || c.Pad > 0 },
		Labels:     rtpCase.labels,
		Run:        runUnpack,
	})
	register(Spec[mangledRTP]{
		Prop: "C02", Name: "malformed", Quick: 40000, Pure: true,
		Rule: "the same packets with another version, truncated at any point, or with another last byte; an independent length rule says which must be rejected; non-trivial: must be rejected",
		Gen: func(t *rapid.T) mangledRTP {
			m := mangledRTP{Base: genRTP(8, 12)(t), Version: 2, Cut: -1}
			switch rapid.IntRange(0, 3).Draw(t, "damage") {
			case 0:
				m.Version = rapid.ByteRange(0, 3).Draw(t, "version")
			case 1:
				m.Cut = rapid.IntRange(0, len(m.Base.wire())).Draw(t, "cut")
			case 2:
				m.Base.Pad = rapid.IntRange(1, 40).Draw(t, "pad")
				m.LastSet, m.Last = true, rapid.Byte().Draw(t, "last")
			default:
				// Around the end of the headers.
				m.Cut = len(m.Base.header()) + rapid.IntRange(-5, 5).Draw(t, "cut")
				if m.Cut < 0 {
					m.Cut = 0
				}
			}
			return m
		},
		Nontrivial: func(m mangledRTP) bool { return !rtpAcceptable(m.wire()) },
		Labels: func(m mangledRTP) []string {
			if rtpAcceptable(m.wire()) {
				return []string{"acceptable"}
			}
			return []string{"must be rejected"}
		},
		Run: func(m mangledRTP) error { return checkRTPRule(m.wire()) },
	})
	register(Spec[rtpCase]{
		Prop: "C03", Name: "value-roundtrip", Quick: 30000, Pure: true,
		Rule: "packet values with consistent flags and no padding: Unpack(Pack(p)) equals p; non-trivial: has CSRCs, an extension or a payload",
		Gen: func(t *rapid.T) rtpCase {
			c := genRTP(3000, 3000)(t)
			c.Pad = 0
			return c
		},
		Nontrivial: func(c rtpCase) bool { return len(c.CSRC) > 0 || c.X || len(c.PL) > 0 },
		Labels:     rtpCase.labels,
		Run:        runPackUnpack,
	})
	register(Spec[rtpCase]{
		Prop: "C03", Name: "huge-extension", Quick: 40, Thorough: 400, Pure: true,
		Rule: "as value-roundtrip with extensions of up to 65535 words (262140 bytes); non-trivial: over 16000 words",
		Gen: func(t *rapid.T) rtpCase {
			c := genRTP(1, 100)(t)
			c.Pad, c.X = 0, true
			n := 4 * rapid.SampledFrom([]int{16000, 16379, 16380, 16381, 16383, 16384, 32768, 65534, 65535}).Draw(t, "words")
			c.XD = make([]byte, n)
			inc := rapid.Byte().Draw(t, "fill")
			for i := range c.XD {
				c.XD[i] = byte(i>>2)*3 + inc
			}
			return c
		},
		Nontrivial: func(c rtpCase) bool { return len(c.XD) > 64000 },
		Run: func(c rtpCase) error {
			p := &rtp.Packet{VPXCC: c.header()[0], MPT: c.header()[1], SN: c.SN, TS: c.TS, SSRC: c.SSRC, CSRC: c.CSRC, XH: c.XH, XL: uint16(len(c.XD) / 4), XD: c.XD, PL: c.PL}
			q, err := rtp.Unpack(p.Pack())
			if err != nil {
				return fmt.Errorf("packed packet rejected: %v", err)
			}
			return compareRTP(q, c)
		},
	})
	register(Spec[rtpCase]{
		Prop: "C03", Name: "wire-roundtrip", Quick: 30000, Pure: true,
		Rule:       "wire packets from the reference encoder: unpadded ones come back byte for byte, padded ones keep every field and the payload; non-trivial: has CSRCs, an extension or padding",
		Gen:        genRTP(300, 3000),
		Nontrivial: func(c rtpCase) bool { return len(c.CSRC) > 0 || c.X || c.Pad > 0 },
		Labels:     rtpCase.labels,
		Run:        runUnpackPack,
	})
	register(Spec[rtcpCase]{
		Prop: "C04", Name: "packets", Quick: 60000, Pure: true,
		Rule: "RTCP packets of every type, version and count, sender reports with fewer, as many and more report blocks than counted, truncated anywhere; an independent length rule says which must be rejected; non-trivial: a sender report, or must be rejected",
		Gen: func(t *rapid.T) rtcpCase {
			c := rtcpCase{
				Version: rapid.SampledFrom([]byte{2, 2, 2, 2, 2, 2, 0, 1, 3}).Draw(t, "V"), P: rapid.Bool().Draw(t, "P"), C: rapid.ByteRange(0, 31).Draw(t, "C"),
				PT: rapid.OneOf(rapid.Just(byte(200)), rapid.Just(byte(200)), rapid.ByteRange(199, 205), rapid.Byte()).Draw(t, "PT"), LN: rapid.Uint16().Draw(t, "LN"),
				SSRC: rapid.Uint32().Draw(t, "SSRC"), NTP: rapid.Uint64().Draw(t, "NTP"), RTP: rapid.Uint32().Draw(t, "RTP"),
				PC: rapid.Uint32().Draw(t, "PC"), OC: rapid.Uint32().Draw(t, "OC"), Cut: -1,
			}
			c.Blocks = int(c.C)
			switch rapid.IntRange(0, 3).Draw(t, "shape") {
			case 0:
				c.Cut = rapid.IntRange(0, len(c.wire())).Draw(t, "cut")
			case 1:
				c.Blocks = rapid.IntRange(0, 32).Draw(t, "blocks")
			case 2:
				c.Cut = len(c.wire()) - rapid.IntRange(0, 4).Draw(t, "short by")
			}
			c.Rest = anyBytes(0, 20).Draw(t, "rest")
			if rapid.Bool().Draw(t, "no rest") {
				c.Rest = nil
			}
			return c
		},
		Nontrivial: func(c rtcpCase) bool { return c.PT == 200 || !rtcpAcceptable(c.wire()) },
		Labels: func(c rtcpCase) []string {
			l := []string{"other type"}
			if c.PT == 200 {
				l = []string{"sender report"}
			}
			if rtcpAcceptable(c.wire()) {
				return append(l, "acceptable")
			}
			return append(l, "must be rejected")
		},
		Run: func(c rtcpCase) error {
			w := c.wire()
			p, err := rtcp.Unpack(w)
			if ok := rtcpAcceptable(w); ok != (err == nil) {
				return fmt.Errorf("acceptable=%v but error=%v (%d bytes)", ok, err, len(w))
			}
			if err != nil {
				return nil
			}
			disturbRTP()
			return compareRTCP(p, c)
		},
	})
}

func compareRTCP(p *rtcp.Packet, c rtcpCase) error {
	if p == nil {
		return fmt.Errorf("neither packet nor error")
	}
	if p.P() != c.P || p.C() != c.C || p.PT != c.PT || p.LN != c.LN {
		return fmt.Errorf("header P=%v C=%d PT=%d LN=%d", p.P(), p.C(), p.PT, p.LN)
	}
	if c.PT == 200 {
		d := p.DSR
		if d == nil {
			return fmt.Errorf("sender report without sender data")
		}
		if d.SSRC != c.SSRC || d.NTPTS != c.NTP || d.RTPTS != c.RTP || d.PC != c.PC || d.OC != c.OC {
			return fmt.Errorf("sender info %+v", *d)
		}
	}
	return nil
}

// rtcpAcceptable is the rejection rule of C04.
func rtcpAcceptable(b []byte) bool {
	if len(b) < 4 || b[0]>>6 != 2 {
		return false
	}
	return b[1] != 200 || len(b) >= 28+24*int(b[0]&31)
}
