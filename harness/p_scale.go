package main

// The properties of the parsers and formatters on inputs and histories far larger than those of the other sub-checks:
// sizes around the limits of 8, 16 and 32 bit lengths, many elements, long lines, long histories.  Few cases, so that the
// small ones, which shrink better and are far more numerous, stay fast.

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// bigLen draws lengths up to max, mostly around powers of two.
func bigLen(max int) *rapid.Generator[int] {
	var near []int
	for p := 128; p <= 2*max; p *= 2 {
		for d := -2; d <= 2; d++ {
			if n := p + d; n <= max {
				near = append(near, n)
			}
		}
	}
	near = append(near, max)
	return rapid.OneOf(rapid.SampledFrom(near), rapid.SampledFrom(near[len(near)/2:]), rapid.IntRange(0, max))
}

// bigBytes draws a byte string from a seed; kind 2 is dense in zeros.
func bigBytes(t *rapid.T, n int) []byte {
	b := bytesSpec{Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), Len: n}.make()
	if rapid.IntRange(0, 2).Draw(t, "zeros") == 0 {
		for i := range b {
			if b[i] < 160 {
				b[i] &= 3
				if b[i] > 1 && i%3 == 0 {
					b[i] = 0
				}
			}
		}
	}
	return b
}

// bigNAL draws a unit whose encapsulated form has at most max bytes.
func bigNAL(t *rapid.T, max int) nal {
	n := nal{Hdr: rapid.ByteRange(0, 3).Draw(t, "nri")<<5 | rapid.ByteRange(1, 23).Draw(t, "type")}
	n.Raw = bigBytes(t, bigLen(max-1).Draw(t, "n"))
	for over := len(n.wire()) - max; over > 0; over = len(n.wire()) - max {
		n.Raw = n.Raw[:len(n.Raw)-over]
	}
	if k := len(n.Raw); k > 0 && n.Raw[k-1] == 0 {
		n.Raw[k-1] = 0x80
	}
	for over := len(n.wire()) - max; over > 0; over = len(n.wire()) - max {
		n.Raw = append(n.Raw[:len(n.Raw)-over-1], 0x80)
	}
	return n
}

type largeRTP struct {
	Base rtpCase
	Cut  int // bytes taken off the end, which must then be refused
}

func init() {
	genLargeRTP := func(t *rapid.T) rtpCase {
		c := genRTP(1, 10)(t)
		c.X = rapid.IntRange(0, 3).Draw(t, "extension") > 0
		if c.X {
			c.XD = bigBytes(t, 4*bigLen(65535).Draw(t, "words"))
		} else {
			c.XD, c.XH = nil, 0
		}
		c.PL = bigBytes(t, bigLen(140000).Draw(t, "payload"))
		return c
	}
	register(Spec[largeRTP]{
		Prop: "C02", Name: "large", Quick: 800, Thorough: 8000, Pure: true, Alone: true,
		Rule: "as wellformed with extensions of up to 65535 words and payloads of up to 140000 bytes, and the same cut off within the extension, which must be rejected; non-trivial: all",
		Gen: func(t *rapid.T) largeRTP {
			c := largeRTP{Base: genLargeRTP(t)}
			if c.Base.X && rapid.IntRange(0, 2).Draw(t, "cut") == 0 {
				c.Base.PL, c.Base.Pad = nil, 0
				c.Cut = rapid.IntRange(1, len(c.Base.XD)+3).Draw(t, "cut")
			}
			return c
		},
		Run: func(c largeRTP) error {
			if c.Cut == 0 {
				return runUnpack(c.Base)
			}
			return checkRTPRule(c.Base.wire()[:len(c.Base.wire())-c.Cut])
		},
	})
	register(Spec[rtpCase]{
		Prop: "C03", Name: "large", Quick: 800, Thorough: 8000, Pure: true, Alone: true,
		Rule: "both round trips with extensions of up to 65535 words and payloads of up to 140000 bytes; non-trivial: all",
		Gen:  genLargeRTP,
		Run: func(c rtpCase) error {
			if err := runUnpackPack(c); err != nil {
				return err
			}
			c.Pad = 0
			return runPackUnpack(c)
		},
	})

	genLargePayload := func(t *rapid.T, kinds []int) payload {
		p := payload{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), TS: rapid.OneOf(rapid.Uint32(), rapid.Just(uint32(0xfffffff0))).Draw(t, "ts"), NRI: rapid.ByteRange(0, 3).Draw(t, "nri"),
			DON: rapid.OneOf(rapid.Uint16(), rapid.Uint16Range(65200, 65535)).Draw(t, "don")}
		lim := uint32(0xffff)
		if p.Kind == kMtap24 {
			lim = 0xffffff
		}
		it := func(n nal) item {
			return item{NAL: n, DOND: rapid.Byte().Draw(t, "dond"), TSOff: rapid.Uint32Range(0, lim).Draw(t, "tsoff"), SC: rapid.IntRange(2, 5).Draw(t, "sc")}
		}
		switch {
		case p.Kind == kSingle || p.Kind == kSeries:
			p.Items = []item{it(bigNAL(t, 300000))}
		case rapid.Bool().Draw(t, "many"):
			n := rapid.SampledFrom([]int{19, 20, 21, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 600, 1023, 1026, 2050, 5000}).Draw(t, "units")
			for i := 0; i < n; i++ {
				p.Items = append(p.Items, it(nal{byte(i%4<<5 | 1 + i%23), bytesSpec{Seed: uint64(p.DON) + uint64(i), Len: i % 9}.make()}))
				if r := p.Items[i].NAL.Raw; len(r) > 0 {
					r[len(r)-1] |= 1
				}
			}
		default:
			for n := rapid.IntRange(1, 4).Draw(t, "units"); n > 0; n-- {
				p.Items = append(p.Items, it(bigNAL(t, 65535)))
			}
		}
		if p.Kind == kSeries {
			p.FUB = rapid.Bool().Draw(t, "fub")
			size := len(p.Items[0].NAL.wire())
			n := rapid.SampledFrom([]int{1, 2, 18, 19, 20, 21, 63, 64, 65, 127, 128, 255, 256, 257, 500, 1100}).Draw(t, "cuts")
			for i := 0; i < n; i++ {
				p.Cuts = append(p.Cuts, size/(n+1)+i%3)
			}
		}
		return p
	}
	genLargeSession := func(kinds ...int) func(t *rapid.T) nalSession {
		return func(t *rapid.T) nalSession {
			var s nalSession
			for n := rapid.IntRange(1, 3).Draw(t, "payloads"); n > 0; n-- {
				p := genLargePayload(t, kinds)
				if p.Kind == kSeries && rapid.IntRange(0, 3).Draw(t, "loss") == 0 {
					if rapid.Bool().Draw(t, "start") {
						p.LoseStart = 1
					} else {
						p.LoseEnd = 1
					}
				}
				p.TS += uint32(n) << 8 // another timestamp for each
				s.Payloads = append(s.Payloads, p)
			}
			return s
		}
	}
	register(Spec[nalSession]{
		Prop: "C05", Name: "large", Quick: 800, Thorough: 8000, Pure: true, Alone: true,
		Rule: "as payloads with single units of up to 300000 bytes, aggregates of up to 5000 units, and units of up to 65535 bytes in aggregates; non-trivial: all",
		Gen:  genLargeSession(kSingle, kStapA, kStapB, kMtap16, kMtap24, kAnnexB), Labels: nalSession.labels,
		Run: func(s nalSession) error { return s.run(false, false) },
	})
	register(Spec[nalSession]{
		Prop: "C06", Name: "large", Quick: 800, Thorough: 8000, Pure: true, Alone: true,
		Rule: "as series with units of up to 300000 bytes in up to 1101 fragments; non-trivial: all",
		Gen:  genLargeSession(kSeries, kSeries, kSeries, kSingle, kStapA), Labels: nalSession.labels,
		Run: func(s nalSession) error { return s.run(false, false) },
	})
	register(Spec[nalSession]{
		Prop: "C07", Name: "large", Quick: 480, Thorough: 4000, Pure: true, Alone: true,
		Rule: "as interleaved with aggregates of up to 5000 units and series of up to 1101 fragments; non-trivial: all",
		Gen: func(t *rapid.T) nalSession {
			s := genLargeSession(kStapB, kMtap16, kMtap24, kSeries)(t)
			for i := range s.Payloads {
				s.Payloads[i].FUB = s.Payloads[i].Kind == kSeries
			}
			return s
		},
		Labels: nalSession.labels,
		Run:    func(s nalSession) error { return s.run(true, false) },
	})
	type largeBytes struct {
		Spec  bytesSpec
		Zeros int // length of a run of zeros
		At    int // and where it is
	}
	register(Spec[largeBytes]{
		Prop: "C08", Name: "large", Quick: 480, Thorough: 4000, Pure: true, Alone: true,
		Rule: "strings of up to 600000 bytes, with a run of up to 70000 zeros: as encapsulate and to-raw; non-trivial: all",
		Gen: func(t *rapid.T) largeBytes {
			c := largeBytes{Spec: bytesSpec{Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), Len: bigLen(600000).Draw(t, "n"), Kind: rapid.IntRange(0, 1).Draw(t, "kind")}}
			c.Zeros = rapid.OneOf(rapid.IntRange(0, 300), rapid.IntRange(0, 70000)).Draw(t, "zeros")
			c.At = rapid.IntRange(0, c.Spec.Len).Draw(t, "at")
			return c
		},
		Run: func(c largeBytes) error {
			b := c.Spec.make()
			b = append(append(append([]byte{}, b[:c.At]...), make([]byte, c.Zeros)...), b[c.At:]...)
			if err := runEncap(bytesCase{b}); err != nil {
				return err
			}
			return runRaw(bytesCase{b})
		},
	})
	register(Spec[annexB]{
		Prop: "C09", Name: "large", Quick: 480, Thorough: 4000, Pure: true, Alone: true,
		Rule: "as split with up to 600 units, units of up to 300000 bytes and up to 300 zeros in start codes; non-trivial: all",
		Gen: func(t *rapid.T) annexB {
			var c annexB
			if rapid.Bool().Draw(t, "many") {
				n := rapid.SampledFrom([]int{19, 20, 21, 64, 127, 128, 129, 255, 256, 257, 600}).Draw(t, "units")
				base := rapid.IntRange(1, 1000).Draw(t, "base")
				for i := 0; i < n; i++ {
					u := nal{byte(i%4<<5 | 1 + i%23), bytesSpec{Seed: uint64(base + i), Len: i % 9}.make()}
					if len(u.Raw) > 0 {
						u.Raw[len(u.Raw)-1] |= 1
					}
					c.Units = append(c.Units, u)
					c.Zeros = append(c.Zeros, 2+(i*base)%3)
				}
			} else {
				for n := rapid.IntRange(1, 4).Draw(t, "units"); n > 0; n-- {
					c.Units = append(c.Units, bigNAL(t, 300000))
					c.Zeros = append(c.Zeros, rapid.OneOf(rapid.IntRange(2, 4), rapid.IntRange(2, 300)).Draw(t, "zeros"))
				}
			}
			if rapid.Bool().Draw(t, "first") {
				c.Zeros[0] = 0
			}
			return c
		},
		Run: runAnnexB,
	})
	type longBits struct {
		B   bytesSpec
		Ops []bitOp
		N   int
	}
	register(Spec[longBits]{
		Prop: "C10", Name: "large", Quick: 160, Thorough: 2000, Pure: true, Alone: true,
		Rule: "buffers of up to 140000 bytes read to the end with a repeated pattern of operations, also SEI parameters over many bytes of 255; non-trivial: all",
		Gen: func(t *rapid.T) longBits {
			c := longBits{B: bytesSpec{Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), Len: bigLen(140000).Draw(t, "n")}}
			for n := rapid.IntRange(1, 5).Draw(t, "ops"); n > 0; n-- {
				c.Ops = append(c.Ops, bitOp{Op: rapid.SampledFrom([]string{"bits", "bits", "skip", "byte", "flag"}).Draw(t, "op"), N: uint(rapid.IntRange(0, 8).Draw(t, "n"))})
			}
			c.Ops = append(c.Ops, bitOp{Op: "bits", N: uint(rapid.IntRange(20, 32).Draw(t, "n"))}, bitOp{Op: "skip", N: uint(rapid.IntRange(20, 32).Draw(t, "n"))})
			return c
		},
		Run: func(c longBits) error {
			bc := bitCase{B: c.B.make()}
			for bits := 0; bits < 8*len(bc.B)+100; {
				for _, op := range c.Ops {
					bc.Ops = append(bc.Ops, op)
					bits += int(op.N)
				}
			}
			if err := runBits(bc); err != nil {
				return err
			}
			for i := range bc.B {
				bc.B[i] = 255
			}
			bc.B = append(bc.B, 7, 9)
			bc.Ops = []bitOp{{Op: "param"}, {Op: "bits", N: 8}}
			return runBits(bc)
		},
	})
	type longGolomb struct {
		Seed uint64
		N    int
	}
	register(Spec[longGolomb]{
		Prop: "C11", Name: "large", Quick: 160, Thorough: 2000, Pure: true, Alone: true,
		Rule: "sequences of up to 20000 codes in one buffer; non-trivial: all",
		Gen: func(t *rapid.T) longGolomb {
			return longGolomb{uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), rapid.IntRange(20, 20000).Draw(t, "n")}
		},
		Run: func(c longGolomb) error {
			b := bytesSpec{Seed: c.Seed, Len: 8 * c.N}.make()
			var g golombCase
			for i := 0; i < c.N; i++ {
				x := be.Uint64(b[8*i:])
				v := golombVal{Signed: x&1 != 0, Skip: x&6 == 0, V: int64(x>>32) >> (x >> 3 & 31), Pre: int(x>>8) & 31, PreV: uint32(x >> 16)}
				if v.Signed {
					v.V >>= 1
					if x&(1<<14) != 0 {
						v.V = -v.V
					}
				} else if v.V > 1<<32-2 {
					v.V = 1<<32 - 2
				}
				if x&(1<<15) != 0 {
					v.Pre = 0
				}
				g.Vals = append(g.Vals, v)
			}
			return runGolomb(g)
		},
	})
	register(Spec[ppsUse]{
		Prop: "C13", Name: "large", Quick: 800, Thorough: 4000, Pure: true, Alone: true,
		Rule: "as pps with explicit slice group maps of up to 139264 macroblocks; non-trivial: all",
		Gen: func(t *rapid.T) ppsUse {
			s := genSPS(t)
			c := ppsUse{&s, genPPS(t, s.ID, int(s.Chroma)), rapid.Bool().Draw(t, "sprop")}
			p := &c.P
			p.Groups, p.MapType, p.Runs, p.TL, p.BR = rapid.Uint32Range(1, 7).Draw(t, "groups"), 6, nil, nil, nil
			p.ChangeDir, p.ChangeRate = false, 0
			b := bytesSpec{Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), Len: rapid.OneOf(rapid.IntRange(1, 3000), rapid.SampledFrom([]int{255, 256, 257, 1620, 3600, 8160, 8192, 32767, 32768, 36864, 65535, 65536, 65537, 139264})).Draw(t, "map units")}.make()
			for i := range b {
				b[i] %= byte(p.Groups + 1)
			}
			p.GroupIDs = b
			return c
		},
		Run: runPPS,
	})
	type manySets struct {
		N    int
		Seed int
		S    spsCase
		P    ppsCase
	}
	register(Spec[manySets]{
		Prop: "C14", Name: "many", Quick: 480, Thorough: 3000, Pure: true, Alone: true,
		Rule: "histories of up to 600 parses of sets under all ids (0-31 and 0-255), with truncated ones and other NAL units in between; every id is looked up at the end and now and then; non-trivial: all",
		Gen: func(t *rapid.T) manySets {
			c := manySets{N: rapid.IntRange(1, 600).Draw(t, "n"), Seed: rapid.IntRange(1, 1<<20).Draw(t, "seed"), S: genSPS(t)}
			c.P = genPPS(t, 0, -1)
			c.P.Ext = false
			return c
		},
		Run: func(c manySets) error {
			b := bytesSpec{Seed: uint64(c.Seed), Len: 8 * c.N}.make()
			var sc storeCase
			for i := 0; i < c.N; i++ {
				x := be.Uint64(b[8*i:])
				op := storeOp{Sprop: x&1 != 0, Keep: -1}
				switch x >> 1 & 7 {
				case 0, 1, 2:
					s := c.S
					s.ID, s.Level, s.W = uint32(x>>8)&31, byte(x>>16), uint32(x>>24)&63
					s.Crop, s.L, s.R, s.T, s.B = false, 0, 0, 0, 0
					op.Kind, op.S = "sps", &s
					if x>>4&7 == 0 {
						_, need := s.write()
						op.Keep = int(x>>40) % ((need-1)/8 + 1)
					}
				case 7:
					op.Kind, op.Type, op.Junk = "other", byte(x>>8)&0x60|byte(x>>16)%7, []byte{byte(x >> 24), byte(x >> 32), 0x80}
				default:
					p := c.P
					p.ID, p.SpsID, p.L0 = uint32(x>>8)&255, uint32(x>>16)&31, uint32(x>>24)&31
					p.Ext, p.T8x8, p.Matrix, p.Lists, p.Second = false, false, false, nil, 0
					op.Kind, op.P = "pps", &p
					if x>>4&7 == 0 {
						_, need := p.write()
						op.Keep = int(x>>40) % ((need-1)/8 + 1)
					}
				}
				sc.Ops = append(sc.Ops, op)
			}
			sc.Sparse = true
			return runStore(sc)
		},
	})
	register(Spec[sdpCase]{
		Prop: "C15", Name: "large", Quick: 800, Thorough: 6000, Pure: true, Alone: true,
		Rule: "as descriptions with up to 300 media, parameter sets and other lines of up to 200000 bytes; non-trivial: all",
		Gen: func(t *rapid.T) sdpCase {
			c := sdpCase{CRLF: rapid.Bool().Draw(t, "crlf"), FinalNL: rapid.Bool().Draw(t, "final nl")}
			if rapid.Bool().Draw(t, "many") {
				n := rapid.SampledFrom([]int{9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 128, 129, 300}).Draw(t, "media")
				few := rapid.SliceOfN(genMedia(0), 1, 4).Draw(t, "media")
				for i := 0; i < n; i++ {
					m := few[i%len(few)]
					m.PT, m.Control = i%128, fmt.Sprintf("track%d", i)
					c.Media = append(c.Media, m)
				}
				return c
			}
			long := func() int { return bigLen(130000).Draw(t, "length") }
			for i := rapid.IntRange(1, 3).Draw(t, "media"); i > 0; i-- {
				m := genMedia(i).Draw(t, "medium")
				switch rapid.IntRange(0, 4).Draw(t, "long") {
				case 0:
					m.Sprop = append(m.Sprop, bigBytes(t, 1+long()))
				case 1:
					m.Config = bigBytes(t, 1+long())
				case 2:
					m.Control = "track/" + strings.Repeat("x", long())
				case 3:
					m.Attrs = append([]sdpAttr{{Kind: "other", Text: "a=x-long:" + strings.Repeat("a/b;c=d ", long()/8) + "."}}, m.Attrs...)
				case 4:
					c.Session = append(c.Session, "i="+strings.Repeat("long ", long()/5)+".")
				}
				c.Media = append(c.Media, m)
			}
			return c
		},
		Labels: func(c sdpCase) []string {
			if len(c.Media) > 8 {
				return []string{"many media"}
			}
			return []string{"long lines"}
		},
		Run: runSDP,
	})
	type longPlaylist struct {
		Cap, N int
		Seed   uint64
		At     int
	}
	register(Spec[longPlaylist]{
		Prop: "C16", Name: "large", Quick: 480, Thorough: 3000, Pure: true, Alone: true,
		Rule: "as window with capacities of up to 3000 and up to 70000 segments; non-trivial: all",
		Gen: func(t *rapid.T) longPlaylist {
			c := longPlaylist{Cap: rapid.OneOf(rapid.IntRange(1, 10), bigLen(3000)).Draw(t, "cap"), N: rapid.OneOf(bigLen(6000), bigLen(6000), bigLen(70000)).Draw(t, "n"), Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed"))}
			if c.Cap == 0 {
				c.Cap = 1
			}
			c.At = rapid.IntRange(0, c.N).Draw(t, "at")
			return c
		},
		Run: func(c longPlaylist) error {
			h := hlsCase{URI: "https://example.com/media", Name: "/var/video.ts", Cap: c.Cap, RenderAt: c.At}
			b := bytesSpec{Seed: c.Seed, Len: 8 * c.N}.make()
			for i := 0; i < c.N; i++ {
				x := be.Uint64(b[8*i:])
				h.Segs = append(h.Segs, segment{float64(x>>40) / 1000, int64(x & 0xffffff)})
			}
			return runHLS(h)
		},
	})
	type longAuth struct {
		Ch         challenge
		User, Pass string
		Method     string
		N          int
	}
	register(Spec[longAuth]{
		Prop: "C18", Name: "long", Quick: 16, Thorough: 160, Pure: true, Alone: true,
		Rule: "as sequences with up to 70000 requests for one challenge, and challenges and credentials of up to 70000 bytes; non-trivial: all",
		Gen: func(t *rapid.T) longAuth {
			c := longAuth{Ch: genChallenge(t), Method: genMethod.Draw(t, "method"), N: 3}
			c.User, c.Pass = genCreds(t)
			switch rapid.IntRange(0, 3).Draw(t, "long") {
			case 0:
				c.Ch.Basic, c.Ch.QOP, c.N = false, []string{"auth"}, rapid.SampledFrom([]int{4097, 65537, 70000}).Draw(t, "requests")
				if c.Ch.Nonce == "" {
					c.Ch.Nonce = "n"
				}
			case 1:
				c.Pass += strings.Repeat("p", bigLen(70000).Draw(t, "n"))
			case 2:
				c.User += strings.Repeat("u", bigLen(70000).Draw(t, "n"))
			case 3:
				c.Ch.Realm += strings.Repeat("r", bigLen(70000).Draw(t, "n"))
				if !c.Ch.Basic {
					c.Ch.Nonce += strings.Repeat("f", bigLen(70000).Draw(t, "n"))
				}
			}
			return c
		},
		Run: func(c longAuth) error {
			a := authCase{Ch: c.Ch, User: c.User, Pass: c.Pass, URI: "rtsp://10.0.0.1:554/live"}
			for i := 0; i < c.N; i++ {
				a.Reqs = append(a.Reqs, authReq{Method: c.Method})
			}
			return runAuth(a)
		},
	})
	register(Spec[reqCase]{
		Prop: "C21", Name: "large", Quick: 800, Thorough: 6000, Pure: true, Alone: true,
		Rule: "as requests with up to 300 headers and values, URIs, sessions and credentials of up to 140000 bytes; non-trivial: all",
		Gen: func(t *rapid.T) reqCase {
			c := reqCase{Verb: genMethod.Draw(t, "verb"), URI: "rtsp://10.0.0.1:554/live", Cseq: rapid.SampledFrom([]int{0, 9, 10, 255, 256, 65535, 65536, 1<<31 - 2}).Draw(t, "cseq")}
			if c.Verb == "OPTIONS" || c.Verb == "SETUP" {
				c.Verb = "PLAY"
			}
			long := func() string { return strings.Repeat("v", bigLen(140000).Draw(t, "n")) + "." }
			switch rapid.IntRange(0, 4).Draw(t, "long") {
			case 0:
				c.URI += "/" + long()
			case 1:
				c.Session = long()
			case 2:
				c.Auth = `Digest username="u", response="` + long() + `"`
			case 3:
				c.Header = [][2]string{{"Range", "npt=0-"}, {"X-Long", long()}, {"Require", "x"}}
			case 4:
				for i := rapid.IntRange(9, 300).Draw(t, "headers"); i > 0; i-- {
					c.Header = append(c.Header, [2]string{fmt.Sprintf("X-H%d", i), fmt.Sprintf("v%d", i)})
				}
			}
			return c
		},
		Run: runRequest,
	})
	register(Spec[respCase]{
		Prop: "C22", Name: "large", Quick: 120, Thorough: 3000,
		Rule: "as streams with one of: up to 300 responses, up to 300 headers, header lines of up to 200000 bytes, bodies of up to 20 MB; non-trivial: all",
		Gen: func(t *rapid.T) respCase {
			c := respCase{Cuts: genCuts.Draw(t, "cuts"), Tail: genBytesSpec(t, "tail", 2000)}
			for _, n := range c.Cuts {
				if n < 100 {
					c.Cuts = nil // would take too long
					break
				}
			}
			for n := rapid.IntRange(1, 3).Draw(t, "responses"); n > 0; n-- {
				m := genRespMsg(t)
				if m.Body.Len > 5000 {
					m.Body.Len = 5000
				}
				c.Msgs = append(c.Msgs, m)
			}
			m := &c.Msgs[rapid.IntRange(0, len(c.Msgs)-1).Draw(t, "which")]
			switch rapid.IntRange(0, 3).Draw(t, "large") {
			case 0:
				m := *m
				for i := rapid.IntRange(6, 300).Draw(t, "responses"); i > 0; i-- {
					m.CSeq++
					c.Msgs = append(c.Msgs, m)
				}
			case 1:
				for i := rapid.IntRange(9, 300).Draw(t, "headers"); i > 0; i-- {
					m.Header = append(m.Header, [2]string{fmt.Sprintf("X-H%d", i), fmt.Sprintf(" v%d", i)})
				}
			case 2:
				m.Header = append(m.Header, [2]string{"X-Long", " " + strings.Repeat("v:", bigLen(100000).Draw(t, "length")) + "."})
			case 3:
				m.LenHdr, m.Body.Seed, m.Body.Len = "Content-Length", 7, bigLen(rapid.SampledFrom([]int{3000000, 3000000, 3000000, 20000000}).Draw(t, "max")).Draw(t, "body")
			}
			return c
		},
		Run: runResponses,
	})
}
