package main

// C05, C06, C07: RTP payloads of H.264 (RFC 6184).

import (
	"bytes"
	"fmt"

	"github.com/aboukirev/ouro/net/h264"
	"pgregory.net/rapid"
)

// encap is the reference encapsulation (H.264 7.4.1): an escape before any byte of at most 3 that follows two zeros,
// and after a final zero.
func encap(raw []byte) []byte {
	var out []byte
	zeros := 0
	for _, b := range raw {
		if zeros >= 2 && b <= 3 {
			out = append(out, 3)
			zeros = 0
		}
		out = append(out, b)
		if b == 0 {
			zeros++
		} else {
			zeros = 0
		}
	}
	if zeros > 0 {
		out = append(out, 3)
	}
	return out
}

type nal struct {
	Hdr byte
	Raw []byte // content without emulation prevention, as a decoder wants it
}

func (n nal) wire() []byte { return append([]byte{n.Hdr}, encap(n.Raw)...) }

// rbsp draws the content of a NAL unit: it ends in a non-zero byte, possibly followed by cabac_zero_words.
func rbsp(max int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		n := lengths(max).Draw(t, "n")
		b := append([]byte{}, anyBytes(n, n).Draw(t, "rbsp")...)
		if n > 0 && b[n-1] == 0 {
			b[n-1] = 0x80
		}
		if n > 0 && rapid.IntRange(0, 5).Draw(t, "cabac") == 0 {
			b = append(b, make([]byte, 2*rapid.IntRange(1, 3).Draw(t, "words"))...)
		}
		return b
	})
}

func genNAL(max int) *rapid.Generator[nal] {
	return rapid.Custom(func(t *rapid.T) nal {
		return nal{Hdr: rapid.ByteRange(0, 3).Draw(t, "nri")<<5 | rapid.ByteRange(1, 23).Draw(t, "type"), Raw: rbsp(max).Draw(t, "content")}
	})
}

const (
	kSingle = iota
	kStapA
	kStapB
	kMtap16
	kMtap24
	kAnnexB
	kSeries // a fragmentation unit series
)

var kindNames = []string{"single", "STAP-A", "STAP-B", "MTAP16", "MTAP24", "Annex B", "fragments"}

type item struct {
	NAL   nal
	DOND  byte
	TSOff uint32
	SC    int // Annex B: number of zeros before the 01 of the start code
}

type payload struct {
	Kind  int
	TS    uint32
	NRI   byte
	DON   uint16
	Items []item
	// kSeries
	FUB       bool
	Cuts      []int // sizes of the fragments but the last
	LoseStart int   // fragments lost at the beginning
	LoseEnd   int   // and at the end
}

type unitWant struct {
	NAL    nal
	TS     uint32
	DON    uint16
	HasDON bool // the payload determines the DON
}

// packets encodes the payload; want gives the units due after each packet.
func (p payload) packets() (pkts [][]byte, want [][]unitWant) {
	hdr := p.NRI << 5
	var b []byte
	var units []unitWant
	switch p.Kind {
	case kSingle:
		b = p.Items[0].NAL.wire()
		units = []unitWant{{NAL: p.Items[0].NAL, TS: p.TS}}
	case kStapA, kStapB:
		b = []byte{hdr | byte(24+p.Kind-kStapA)}
		if p.Kind == kStapB {
			b = be.AppendUint16(b, p.DON)
		}
		for i, it := range p.Items {
			w := it.NAL.wire()
			b = be.AppendUint16(b, uint16(len(w)))
			b = append(b, w...)
			units = append(units, unitWant{NAL: it.NAL, TS: p.TS, DON: p.DON + uint16(i), HasDON: p.Kind == kStapB})
		}
	case kMtap16, kMtap24:
		b = []byte{hdr | byte(26+p.Kind-kMtap16)}
		b = be.AppendUint16(b, p.DON)
		for _, it := range p.Items {
			w := it.NAL.wire()
			b = be.AppendUint16(b, uint16(len(w)))
			b = append(b, it.DOND)
			if p.Kind == kMtap24 {
				b = append(b, byte(it.TSOff>>16))
			}
			b = append(b, byte(it.TSOff>>8), byte(it.TSOff))
			b = append(b, w...)
			units = append(units, unitWant{NAL: it.NAL, TS: p.TS + it.TSOff, DON: p.DON + uint16(it.DOND), HasDON: true})
		}
	case kAnnexB:
		for _, it := range p.Items {
			b = append(b, make([]byte, it.SC)...)
			b = append(b, 1)
			b = append(b, it.NAL.wire()...)
			units = append(units, unitWant{NAL: it.NAL, TS: p.TS})
		}
	case kSeries:
		n := p.Items[0].NAL
		rest := n.wire()[1:]
		var frags [][]byte
		for _, c := range p.Cuts {
			if c > len(rest) {
				c = len(rest)
			}
			frags = append(frags, rest[:c])
			rest = rest[c:]
		}
		frags = append(frags, rest)
		if len(frags) == 1 {
			frags = append(frags, nil)
		}
		for i, f := range frags {
			typ, fu := byte(28), n.Hdr&0x1f
			var don []byte
			if i == 0 {
				fu |= 0x80
				if p.FUB {
					typ = 29
					don = be.AppendUint16(nil, p.DON)
				}
			}
			if i == len(frags)-1 {
				fu |= 0x40
			}
			if i < p.LoseStart || i >= len(frags)-p.LoseEnd {
				continue
			}
			pkt := append([]byte{n.Hdr&0x60 | typ, fu}, don...)
			pkts = append(pkts, append(pkt, f...))
			var u []unitWant
			if i == len(frags)-1 && p.LoseStart == 0 {
				u = []unitWant{{NAL: n, TS: p.TS, DON: p.DON, HasDON: p.FUB}}
			}
			want = append(want, u)
		}
		return
	}
	return [][]byte{b}, [][]unitWant{units}
}

func genPayload(kinds []int, max int) *rapid.Generator[payload] {
	return rapid.Custom(func(t *rapid.T) payload {
		p := payload{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), TS: rapid.OneOf(rapid.Uint32(), rapid.SampledFrom([]uint32{0, 0xffffffff, 0xfffff000})).Draw(t, "ts"),
			NRI: rapid.ByteRange(0, 3).Draw(t, "nri"), DON: rapid.OneOf(rapid.Uint16(), rapid.SampledFrom([]uint16{0, 1, 0xffff, 0xfffe})).Draw(t, "don")}
		n := 1
		if p.Kind != kSingle && p.Kind != kSeries {
			n = rapid.IntRange(1, 5).Draw(t, "units")
		}
		for i := 0; i < n; i++ {
			p.Items = append(p.Items, item{NAL: genNAL(max).Draw(t, "nal")})
			it := &p.Items[i]
			it.DOND = rapid.Byte().Draw(t, "dond")
			lim := uint32(0xffff)
			if p.Kind == kMtap24 {
				lim = 0xffffff
			}
			it.TSOff = rapid.OneOf(rapid.Uint32Range(0, lim), rapid.SampledFrom([]uint32{0, lim, lim / 2})).Draw(t, "tsoff")
			it.SC = rapid.SampledFrom([]int{2, 3, 2, 3, 4, 5}).Draw(t, "sc")
		}
		if p.Kind == kSeries {
			p.FUB = rapid.Bool().Draw(t, "fub")
			size := len(p.Items[0].NAL.wire())
			p.Cuts = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, size)), 1, 6).Draw(t, "cuts")
		}
		return p
	})
}

type nalSession struct {
	Payloads []payload
}

func (s nalSession) labels() (l []string) {
	for _, p := range s.Payloads {
		l = append(l, kindNames[p.Kind])
		if p.Kind == kSeries && p.LoseStart > 0 {
			l = append(l, "start lost")
		}
		if p.Kind == kSeries && p.LoseEnd > 0 {
			l = append(l, "end lost")
		}
		for _, it := range p.Items {
			if len(it.NAL.wire()) != len(it.NAL.Raw)+1 {
				l = append(l, "escaped content")
				break
			}
		}
	}
	return
}

func checkUnits(got []h264.NALUnit, want []unitWant) error {
	for i := range want {
		if i >= len(got) {
			break
		}
		if got[i].Header != want[i].NAL.Hdr {
			return fmt.Errorf("unit %d has header %#x, want %#x", i, got[i].Header, want[i].NAL.Hdr)
		}
		if h := want[i].NAL.Hdr; got[i].Type() != h&31 || got[i].RefIdc() != h>>5&3 {
			return fmt.Errorf("unit %d with header %#x reports type %d and importance %d", i, h, got[i].Type(), got[i].RefIdc())
		}
		if !bytes.Equal(got[i].Data, want[i].NAL.Raw) {
			return fmt.Errorf("unit %d: %s", i, diffBytes(got[i].Data, want[i].NAL.Raw))
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d units, want %d", len(got), len(want))
	}
	return nil
}

func (s nalSession) run(numbers, consecutive bool) error {
	sink := h264.NewNALSink()
	var lastDON uint16
	first := true
	var kept []h264.NALUnit // the units are the receiver's: they stay what they were
	var keptWant []unitWant
	for i, p := range s.Payloads {
		pkts, want := p.packets()
		for j, pkt := range pkts {
			// Dropping a fragment of an incomplete series may or may not be reported as an error.
			if err := sink.Push(append([]byte{}, pkt...), p.TS); err != nil && len(want[j]) > 0 {
				return fmt.Errorf("payload %d (%s) packet %d: rejected: %v", i, kindNames[p.Kind], j, err)
			}
			if err := checkUnits(sink.Units, want[j]); err != nil {
				return fmt.Errorf("payload %d (%s) packet %d: %v", i, kindNames[p.Kind], j, err)
			}
			kept = append(kept, sink.Units...)
			keptWant = append(keptWant, want[j]...)
			if j == 0 && i%2 == 0 {
				disturbH264()
			}
			if !numbers {
				continue
			}
			for k, u := range sink.Units {
				w := want[j][k]
				if u.TS != w.TS {
					return fmt.Errorf("payload %d (%s) packet %d unit %d: timestamp %d, want %d (packet %d)", i, kindNames[p.Kind], j, k, u.TS, w.TS, p.TS)
				}
				if w.HasDON && u.Don != w.DON {
					return fmt.Errorf("payload %d (%s) packet %d unit %d: DON %d, want %d", i, kindNames[p.Kind], j, k, u.Don, w.DON)
				}
				if consecutive {
					if !first && u.Don != lastDON+1 {
						return fmt.Errorf("payload %d (%s) packet %d unit %d: DON %d after %d", i, kindNames[p.Kind], j, k, u.Don, lastDON)
					}
					first, lastDON = false, u.Don
				}
			}
		}
	}
	if err := checkUnits(kept, keptWant); err != nil {
		return fmt.Errorf("after the session, of the units kept: %v", err)
	}
	return nil
}

type cutAggregate struct {
	P    payload
	Cut  int  // bytes removed from the end, if Zero is not set
	Zero bool // a further unit of size zero at the end
	Huge int  // if not 0, the size declared by the last unit, far beyond the end
}

func (c cutAggregate) wire() []byte {
	pkts, _ := c.P.packets()
	b := pkts[0]
	if c.Huge != 0 {
		last := len(c.P.Items[len(c.P.Items)-1].NAL.wire())
		off := 2
		switch c.P.Kind {
		case kMtap16:
			off = 5
		case kMtap24:
			off = 6
		}
		be.PutUint16(b[len(b)-last-off:], uint16(c.Huge))
		return b
	}
	if c.Zero {
		b = append(b, 0, 0)
		switch c.P.Kind {
		case kMtap16:
			b = append(b, 5, 0, 7)
		case kMtap24:
			b = append(b, 5, 0, 0, 7)
		}
		return b
	}
	return b[:len(b)-c.Cut]
}

// seriesGen draws histories of fragment series with losses, mixed with complete packets between the series.
func seriesGen(max int) func(t *rapid.T) nalSession {
	return func(t *rapid.T) nalSession {
		var s nalSession
		n := rapid.IntRange(1, 7).Draw(t, "payloads")
		ts := rapid.Uint32().Draw(t, "base ts")
		var pending []byte // headers of the unfinished series of this timestamp
		for i := 0; i < n; i++ {
			p := genPayload([]int{kSeries, kSeries, kSeries, kSingle, kStapA}, max).Draw(t, "p")
			sameTS := rapid.IntRange(0, 2).Draw(t, "same ts") == 0
			if p.Kind == kSeries {
				pkts, _ := p.packets()
				switch rapid.IntRange(0, 5).Draw(t, "loss") {
				case 0:
					p.LoseStart = rapid.IntRange(1, len(pkts)-1).Draw(t, "lost")
				case 1:
					p.LoseEnd = rapid.IntRange(1, len(pkts)-1).Draw(t, "lost")
				case 2:
					p.LoseStart = 1
					if len(pkts) > 2 {
						p.LoseEnd = 1
					}
				}
				hdr := &p.Items[0].NAL.Hdr
				if p.LoseStart > 0 && len(pending) > 0 && sameTS {
					switch rapid.IntRange(0, 3).Draw(t, "unlike the unfinished one") {
					case 0: // in its type
						*hdr = pending[len(pending)-1]&0x60 | *hdr&0x1f
					case 1: // in its importance
						*hdr = *hdr&0x60 | pending[len(pending)-1]&0x1f
					}
					if bytes.IndexByte(pending, *hdr) >= 0 {
						sameTS = false // with the same timestamp, importance and type the two could not be told apart
					}
				}
				if !sameTS {
					pending = nil
				}
				if p.LoseEnd > 0 && p.LoseStart == 0 {
					pending = append(pending, *hdr)
				}
			}
			if !sameTS {
				if p.Kind != kSeries {
					pending = nil
				}
				ts += rapid.Uint32Range(1, 10000).Draw(t, "dts")
			}
			p.TS = ts
			s.Payloads = append(s.Payloads, p)
		}
		return s
	}
}

func init() {
	hasEscape := func(s nalSession) bool {
		for _, p := range s.Payloads {
			if p.Kind != kSingle {
				return true
			}
			for _, it := range p.Items {
				if len(it.NAL.wire()) != len(it.NAL.Raw)+1 {
					return true
				}
			}
		}
		return false
	}
	register(Spec[nalSession]{
		Prop: "C05", Name: "payloads", Quick: 24000, Pure: true,
		Rule: "1-4 payloads pushed into one sink, each a single unit, STAP-A/B, MTAP16/24 or Annex B sequence of 1-5 units of 0-2049 bytes built by a reference packetiser, contents rich in zero bytes; non-trivial: an aggregate or escaped content",
		Gen: func(t *rapid.T) nalSession {
			return nalSession{rapid.SliceOfN(genPayload([]int{kSingle, kStapA, kStapB, kMtap16, kMtap24, kAnnexB}, 2049), 1, 4).Draw(t, "payloads")}
		},
		Labels: nalSession.labels, Nontrivial: hasEscape,
		Run: func(s nalSession) error { return s.run(false, false) },
	})
	register(Spec[cutAggregate]{
		Prop: "C05", Name: "damaged", Quick: 24000, Pure: true,
		Rule: "aggregates whose last unit is cut short by at least a byte (down to one byte of its size field), declares a size far beyond the end, or has size zero: must be rejected, and a later payload must not be affected",
		Gen: func(t *rapid.T) cutAggregate {
			c := cutAggregate{P: genPayload([]int{kStapA, kStapB, kMtap16, kMtap24}, 300).Draw(t, "p")}
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				c.Zero = true
			case 1:
				c.Huge = rapid.OneOf(rapid.IntRange(3000, 65535), rapid.IntRange(65520, 65535)).Draw(t, "size")
			default:
				last := c.P.Items[len(c.P.Items)-1].NAL.wire()
				over := map[int]int{kStapA: 2, kStapB: 2, kMtap16: 5, kMtap24: 6}[c.P.Kind]
				c.Cut = rapid.IntRange(1, len(last)+over-1).Draw(t, "cut")
			}
			return c
		},
		Labels: func(c cutAggregate) []string { return []string{kindNames[c.P.Kind]} },
		Run: func(c cutAggregate) error {
			sink := h264.NewNALSink()
			if err := sink.Push(c.wire(), c.P.TS); err == nil {
				return fmt.Errorf("%s accepted with %d units", kindNames[c.P.Kind], len(sink.Units))
			}
			if err := sink.Push([]byte{0x65, 1, 2, 3}, c.P.TS); err != nil {
				return fmt.Errorf("the next payload was rejected: %v", err)
			}
			return checkUnits(sink.Units, []unitWant{{NAL: nal{0x65, []byte{1, 2, 3}}}})
		},
	})
	register(Spec[nalSession]{
		Prop: "C06", Name: "series", Quick: 24000, Pure: true,
		Rule: "histories of 1-7 fragmented units (FU-A, or FU-B then FU-A; 2-7 fragments, also empty ones and cuts inside an escape) and whole packets, with the beginning or end of a series lost; neighbours that could be taken for one series differ in timestamp, importance or type; non-trivial: something is lost or there are several payloads",
		Gen:  seriesGen(1500), Labels: nalSession.labels,
		Nontrivial: func(s nalSession) bool {
			return len(s.Payloads) > 1 || s.Payloads[0].LoseEnd+s.Payloads[0].LoseStart > 0
		},
		Run: func(s nalSession) error { return s.run(false, false) },
	})
	register(Spec[nalSession]{
		Prop: "C07", Name: "interleaved", Quick: 20000, Pure: true,
		Rule: "sessions of STAP-B, MTAP16, MTAP24 and FU-B series: DON and timestamp of every unit against RFC 6184, with DON and timestamp near wrap-around; non-trivial: all",
		Gen: func(t *rapid.T) nalSession {
			s := nalSession{rapid.SliceOfN(genPayload([]int{kStapB, kMtap16, kMtap24, kSeries}, 40), 1, 5).Draw(t, "payloads")}
			for i := range s.Payloads {
				if s.Payloads[i].Kind == kSeries {
					s.Payloads[i].FUB = true
				}
			}
			return s
		},
		Labels: nalSession.labels,
		Run:    func(s nalSession) error { return s.run(true, false) },
	})
	register(Spec[nalSession]{
		Prop: "C07", Name: "non-interleaved", Quick: 20000, Pure: true,
		Rule: "sessions of single units, STAP-A and FU-A series with losses: consecutive DONs over all completed units, timestamps of the packets; non-trivial: more than one payload",
		Gen: func(t *rapid.T) nalSession {
			s := seriesGen(40)(t)
			for i := range s.Payloads {
				s.Payloads[i].FUB = false
			}
			return s
		},
		Labels: nalSession.labels, Nontrivial: func(s nalSession) bool { return len(s.Payloads) > 1 },
		Run: func(s nalSession) error { return s.run(true, true) },
	})
	type wrapCase struct{ N, At int }
	register(Spec[wrapCase]{
		Prop: "C07", Name: "long-session", Quick: 4, Thorough: 16, Pure: true, Alone: true,
		Rule: "a non-interleaved session of over 65536 units, so that the DON wraps around, mixing single units, STAP-A and FU-A",
		Gen: func(t *rapid.T) wrapCase {
			return wrapCase{66000 + rapid.IntRange(0, 3000).Draw(t, "n"), rapid.IntRange(2, 9).Draw(t, "mix")}
		},
		Run: func(c wrapCase) error {
			disturbH264()
			sink := h264.NewNALSink()
			last, seen := uint16(0), 0
			push := func(b []byte) error {
				if err := sink.Push(b, uint32(seen)); err != nil {
					return err
				}
				for _, u := range sink.Units {
					if seen > 0 && u.Don != last+1 {
						return fmt.Errorf("DON %d after %d (unit %d)", u.Don, last, seen)
					}
					last = u.Don
					seen++
				}
				return nil
			}
			for i := 0; seen < c.N; i++ {
				var err error
				switch i % c.At {
				case 0:
					err = push([]byte{0x78, 0, 2, 0x41, 1, 0, 2, 0x41, 2})
				case 1:
					if err = push([]byte{0x7c, 0x81, 9}); err == nil {
						err = push([]byte{0x7c, 0x41, 9})
					}
				default:
					err = push([]byte{0x41, 7})
				}
				if err != nil {
					return err
				}
				if i > 2*c.N {
					return fmt.Errorf("only %d units from %d payloads", seen, i)
				}
			}
			return nil
		},
	})
	type donPair struct{ A, B uint16 }
	register(Spec[donPair]{
		Prop: "C07", Name: "don-diff", Pure: true,
		Rule: "the DON difference for all pairs with a first DON among 0-1024 steps of 64 and boundary values and every second DON (thorough: every 8th first DON), against RFC 6184 section 5.5",
		Enum: func(thorough bool, yield func(donPair) bool) {
			// One case stands for a whole row: B is a starting offset the row adds to every difference.
			step := 64
			if thorough {
				step = 8
			}
			for a := 0; a < 65536; a += step {
				for _, d := range []int{0, 1, step - 1} {
					if !yield(donPair{A: uint16(a + d)}) {
						return
					}
				}
			}
		},
		Run: func(c donPair) error {
			for b := 0; b < 65536; b++ {
				m, n := int(c.A), b
				var want int
				switch {
				case m == n:
					want = 0
				case m < n && n-m < 32768:
					want = n - m
				case m > n && m-n >= 32768:
					want = 65536 - m + n
				case m < n && n-m >= 32768:
					want = -(m + 65536 - n)
				default:
					want = -(m - n)
				}
				if got := h264.DonDiff(c.A, uint16(b)); got != want {
					return fmt.Errorf("don_diff(%d, %d) = %d, want %d", m, n, got, want)
				}
			}
			return nil
		},
	})
}
