package main

// C37: feeds, which bind the description of a stream to its transport and its parameter sets.

import (
	"bytes"
	"fmt"

	"github.com/aboukirev/ouro/net/h264"
	"github.com/aboukirev/ouro/net/rtsp"
	"pgregory.net/rapid"
)

// setList is what the sprop-parameter-sets of a stream hold.
type setList struct {
	S    []spsCase
	P    []ppsCase
	Cut  int  // bytes cut off the last set
	Drop bool // the stream has none
}

type feedOp struct {
	Feed int
	Text string
	Bad  bool // Text is malformed
	Pair int  // the first of the channels or ports that a plain answer states; 0: not plain
}

type feedCase struct {
	Proto int
	Desc  sdpCase // the sprop values are those of Sets
	Sets  []setList
	Ops   []feedOp
}

func (l setList) values() (v [][]byte) {
	for _, s := range l.S {
		raw, _ := s.write()
		v = append(v, sprop(s.NRI, 7, raw))
	}
	for _, p := range l.P {
		raw, _ := p.write()
		v = append(v, sprop(p.NRI, 8, raw))
	}
	return v
}

func genFeeds(t *rapid.T) feedCase {
	c := feedCase{Proto: rapid.SampledFrom([]int{rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoUnicast, rtsp.ProtoHTTP}).Draw(t, "proto")}
	c.Desc.CRLF, c.Desc.FinalNL = rapid.Bool().Draw(t, "crlf"), true
	n := rapid.IntRange(1, 6).Draw(t, "media")
	videos := 0
	for i := 0; i < n; i++ {
		m := genMedia(i).Draw(t, "media")
		l := setList{Drop: rapid.IntRange(0, 4).Draw(t, "no sets") == 0}
		chroma := map[uint32]int{}
		var ids []uint32
		few, sids, pids := rapid.IntRange(1, 2), rapid.SampledFrom([]uint32{0, 0, 1, 31}), rapid.SampledFrom([]uint32{0, 0, 1, 255})
		if rapid.IntRange(0, 39).Draw(t, "many sets") == 0 {
			few, sids, pids = rapid.IntRange(3, 32), rapid.Uint32Range(0, 31), rapid.Uint32Range(0, 255)
		}
		for j := few.Draw(t, "sps"); j > 0; j-- {
			s := genSPS(t)
			s.ID = sids.Draw(t, "id")
			chroma[s.ID] = int(s.Chroma)
			ids = append(ids, s.ID)
			l.S = append(l.S, s)
		}
		for j := few.Draw(t, "pps") - rapid.IntRange(0, 1).Draw(t, "fewer"); j > 0; j-- {
			sid := rapid.SampledFrom(ids).Draw(t, "refers to")
			p := genPPS(t, sid, chroma[sid])
			p.ID = pids.Draw(t, "id")
			l.P = append(l.P, p)
		}
		m.Sprop = l.values()
		if rapid.IntRange(0, 9).Draw(t, "damaged") == 0 {
			// The last set ends before its last mandatory bit.
			need := 0
			if k := len(l.P); k > 0 {
				_, need = l.P[k-1].write()
			} else {
				_, need = l.S[len(l.S)-1].write()
			}
			k := len(m.Sprop) - 1
			cut := rapid.IntRange(0, (need-1)/8).Draw(t, "keep")
			var raw []byte
			if j := len(l.P); j > 0 {
				raw, _ = l.P[j-1].write()
				m.Sprop[k] = sprop(l.P[j-1].NRI, 8, raw[:cut])
			} else {
				raw, _ = l.S[len(l.S)-1].write()
				m.Sprop[k] = sprop(l.S[len(l.S)-1].NRI, 7, raw[:cut])
			}
			l.Cut = len(raw) - cut
		}
		has := false
		for _, a := range m.Attrs {
			has = has || a.Kind == "fmtp"
		}
		if !has {
			m.Attrs = append(m.Attrs, sdpAttr{Kind: "fmtp"})
		}
		var f []string
		for _, p := range m.Fmtp {
			if p != "sprop" {
				f = append(f, p)
			}
		}
		if !l.Drop {
			at := rapid.IntRange(0, len(f)).Draw(t, "sprop at")
			f = append(f[:at:at], append([]string{"sprop"}, f[at:]...)...)
		}
		if len(f) == 0 {
			f = []string{"packetization-mode=1"}
		}
		m.Fmtp = f
		c.Desc.Media = append(c.Desc.Media, m)
		if m.Kind == "video" {
			videos++
			c.Sets = append(c.Sets, l)
		}
	}
	if videos > 0 {
		c.setups(t, rapid.IntRange(0, 2*videos).Draw(t, "set-ups"))
	}
	return c
}

// setups adds n answers to SETUP for streams at random.
func (c *feedCase) setups(t *rapid.T, n int) {
	videos := len(c.Sets)
	for ; n > 0; n-- {
		op := feedOp{Feed: rapid.IntRange(0, videos-1).Draw(t, "feed")}
		switch k := rapid.IntRange(0, 9).Draw(t, "answer"); {
		case k < 2:
			op.Bad, op.Text = true, genTrBad(t).Text
		case k < 6:
			op.Text = genTrText(t).Text
		case c.Proto == rtsp.ProtoUnicast:
			op.Pair = 2 * rapid.IntRange(1, 30000).Draw(t, "port")
			op.Text = fmt.Sprintf("RTP/AVP;unicast;client_port=%d-%d;server_port=6970-6971", op.Pair, op.Pair+1)
		default:
			op.Pair = 2 * rapid.IntRange(1, 120).Draw(t, "channel")
			op.Text = fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", op.Pair, op.Pair+1)
		}
		c.Ops = append(c.Ops, op)
	}
}

// manyFeeds repeats the media of a description.
func manyFeeds(t *rapid.T) feedCase {
	c := genFeeds(t)
	c.Ops = nil
	media, sets := c.Desc.Media, c.Sets
	c.Desc.Media, c.Sets = nil, nil
	n := rapid.OneOf(rapid.IntRange(7, 40), rapid.IntRange(7, 120)).Draw(t, "times")
	for i, v := 0, 0; i < n; i++ {
		m := media[i%len(media)]
		m.PT, m.Control = i%128, fmt.Sprintf("track%d", i)
		if m.Kind == "video" {
			c.Sets = append(c.Sets, sets[v%len(sets)])
			v++
		}
		c.Desc.Media = append(c.Desc.Media, m)
	}
	if len(c.Sets) > 0 {
		c.setups(t, rapid.IntRange(1, 12).Draw(t, "set-ups"))
	}
	return c
}

// checkSets compares the store of a feed with the sets of its stream (none, if it has not been set up).
func checkSets(ps *h264.ParameterSets, l setList, set bool) error {
	sm, pm := map[uint32]spsCase{}, map[uint32]ppsCase{}
	if set && !l.Drop {
		for _, s := range l.S {
			sm[s.ID] = s
		}
		for _, p := range l.P {
			pm[p.ID] = p
		}
	}
	for id := uint32(0); id < 256; id++ {
		s, ok := ps.GetSPS(id)
		w, want := sm[id]
		if ok != want {
			return fmt.Errorf("sequence parameter set %d present=%v, want %v", id, ok, want)
		}
		if ok {
			if err := compareSPS(s, w); err != nil {
				return fmt.Errorf("sequence parameter set %d: %v", id, err)
			}
		}
		p, ok := ps.GetPPS(id)
		wp, want := pm[id]
		if ok != want {
			return fmt.Errorf("picture parameter set %d present=%v, want %v", id, ok, want)
		}
		if ok {
			if err := comparePPS(p, wp); err != nil {
				return fmt.Errorf("picture parameter set %d: %v", id, err)
			}
		}
	}
	return nil
}

func runFeeds(c feedCase) error {
	text := c.Desc.text()
	feeds, err := rtsp.ParseFeeds(c.Proto, append([]byte{}, text...))
	if err != nil || len(feeds) != len(c.Sets) {
		return fmt.Errorf("%d feeds for %d streams, %v\n%s", len(feeds), len(c.Sets), err, text)
	}
	var video []sdpMedia
	for _, m := range c.Desc.Media {
		if m.Kind == "video" {
			video = append(video, m)
		}
	}
	set := make([]bool, len(feeds))
	dirty := make([]bool, len(feeds)) // sets may be partly there
	odd := make([]bool, len(feeds))   // an answer was none that belongs to the offer
	offers := make([]string, len(feeds))
	verify := func() error {
		disturbSDP()
		disturbSets()
		disturbTransport()
		for i, f := range feeds {
			if err := compareMedia(f.Media, video[i]); err != nil {
				return fmt.Errorf("stream %d: %v\n%s", i, err, text)
			}
			if f.IsSet != set[i] {
				return fmt.Errorf("stream %d: set up is %v, want %v", i, f.IsSet, set[i])
			}
			if h := f.TransportHeader(); offers[i] != "" && h != offers[i] {
				return fmt.Errorf("stream %d: transport is %q, was %q", i, h, offers[i])
			}
			if f.Sets == nil {
				return fmt.Errorf("stream %d: no parameter set store", i)
			}
			if !dirty[i] {
				if err := checkSets(f.Sets, c.Sets[i], set[i]); err != nil {
					return fmt.Errorf("stream %d (set up: %v): %v", i, set[i], err)
				}
			}
		}
		return nil
	}
	for i, f := range feeds {
		offers[i] = f.TransportHeader()
	}
	if err := checkOffers(c.Proto, append([]string{}, offers...)); err != nil && len(offers) > 0 {
		return err
	}
	if err := verify(); err != nil {
		return fmt.Errorf("before set-up: %v", err)
	}
	for k, op := range c.Ops {
		f, l := feeds[op.Feed], c.Sets[op.Feed]
		err := f.TransportSetup(op.Text)
		fails := op.Bad || (l.Cut > 0 && !l.Drop)
		if fails != (err != nil) {
			return fmt.Errorf("set-up %d of stream %d with %q, malformed %v, sets damaged %v: error %v", k, op.Feed, op.Text, op.Bad, l.Cut > 0 && !l.Drop, err)
		}
		if !fails {
			set[op.Feed] = true
			if op.Pair > 0 && !odd[op.Feed] {
				var got rtsp.Transport
				h := f.TransportHeader()
				if err := got.Parse(h); err != nil {
					return fmt.Errorf("%q refused: %v", h, err)
				}
				p, want := got.Interleave, rtsp.Pair{One: op.Pair, Two: op.Pair + 1}
				if c.Proto == rtsp.ProtoUnicast {
					p = got.ClientPort
				}
				if p != want {
					return fmt.Errorf("set-up %d of stream %d, offered %q, answered %q, has the transport %q", k, op.Feed, offers[op.Feed], op.Text, h)
				}
			}
		} else {
			dirty[op.Feed] = dirty[op.Feed] || !op.Bad
		}
		odd[op.Feed] = odd[op.Feed] || op.Pair == 0
		offers[op.Feed] = f.TransportHeader() // a malformed header may have been applied in part
		if op.Bad && offers[op.Feed] == "" {
			return fmt.Errorf("no transport after %q", op.Text)
		}
		if err := verify(); err != nil {
			return fmt.Errorf("after set-up %d, of stream %d with %q: %v", k, op.Feed, op.Text, err)
		}
	}
	if !bytes.Equal(text, c.Desc.text()) {
		return fmt.Errorf("the description was modified")
	}
	return nil
}

func init() {
	register(Spec[feedCase]{
		Prop: "C37", Name: "feeds", Quick: 8000, Pure: true,
		Rule: "the feeds of descriptions with 1-6 media, each with sets of its own (1-4, sometimes up to 64, the same ids in several streams, some truncated, some without), and up to twice as many answers to SETUP, well formed or not, for any of them in any order: after each step every feed is compared with its own description, transport and sets; non-trivial: several streams and answers",
		Gen:  genFeeds,
		Nontrivial: func(c feedCase) bool {
			return len(c.Sets) > 1 && len(c.Ops) > 1
		},
		Labels: func(c feedCase) (l []string) {
			for _, op := range c.Ops {
				if op.Bad {
					l = append(l, "malformed answer")
					break
				}
			}
			for _, s := range c.Sets {
				if s.Cut > 0 && !s.Drop {
					l = append(l, "truncated set")
					break
				}
			}
			return
		},
		Run: runFeeds,
	})
	register(Spec[feedCase]{
		Prop: "C37", Name: "many", Quick: 480, Thorough: 20000, Pure: true,
		Rule: "as feeds with 7-120 media and up to 12 answers; non-trivial: over 8 streams",
		Gen:  manyFeeds, Nontrivial: func(c feedCase) bool { return len(c.Sets) > 8 },
		Run: runFeeds,
	})
}
