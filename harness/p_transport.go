package main

// C20, C21: Transport headers and request serialisation.

import (
	"bytes"
	"fmt"
	"net/textproto"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"pgregory.net/rapid"
)

// numeric and textual parameters of a Transport, for the reference interpretation.
type trParam struct {
	Name  string
	Value string // "" : no "=" at all
}

var (
	genPort  = rapid.OneOf(rapid.IntRange(1, 65535), rapid.SampledFrom([]int{1, 554, 1024, 5000, 50000, 65534, 65535}))
	genHost  = rapid.SampledFrom([]string{"10.0.0.1", "192.168.1.100", "camera.local", "224.2.0.1", "[fe80::1]", "h-1.x"})
	genSSRC  = rapid.StringOfN(rapid.SampledFrom([]rune("0123456789ABCDEFabcdef")), 8, 8, -1)
	genTMode = rapid.SampledFrom([]string{"PLAY", "RECORD", "play", "record"})
)

func genPair(t *rapid.T, from, to int) rtsp.Pair {
	p := rtsp.Pair{One: rapid.IntRange(from, to).Draw(t, "one")}
	if p.Two = p.One + 1; rapid.IntRange(0, 2).Draw(t, "odd pair") == 0 {
		p.Two = rapid.IntRange(from, to).Draw(t, "two")
	}
	return p
}

// genTransport is any transport whose flags do not contradict each other.
func genTransport(t *rapid.T) rtsp.Transport {
	var r rtsp.Transport
	opt := func(name string) bool { return rapid.Bool().Draw(t, name) }
	switch rapid.IntRange(0, 2).Draw(t, "kind") {
	case 0:
		r.IsTCP = true
	case 1:
		r.IsMulticast = true
	}
	if !r.IsMulticast && opt("interleaved") {
		r.IsInterleaved = true
		r.Interleave = genPair(t, 0, 255)
	}
	r.IsAppend = opt("append")
	if opt("port") {
		r.Port = genPair(t, 1, 65535)
	}
	if opt("client_port") {
		r.ClientPort = genPair(t, 1, 65535)
	}
	if opt("server_port") {
		r.ServerPort = genPair(t, 1, 65535)
	}
	if opt("layers") {
		r.Layers = rapid.IntRange(1, 99).Draw(t, "layers")
	}
	if r.IsMulticast && opt("ttl") {
		r.TTL = rapid.IntRange(1, 255).Draw(t, "ttl")
	}
	if opt("destination") {
		r.Destination = genHost.Draw(t, "destination")
	}
	if opt("source") {
		r.Source = genHost.Draw(t, "source")
	}
	if opt("ssrc") {
		r.SSRC = genSSRC.Draw(t, "ssrc")
	}
	if opt("mode") {
		r.Mode = genTMode.Draw(t, "mode")
	}
	return r
}

type trRound struct{ T rtsp.Transport }

type trText struct {
	Start rtsp.Transport // what the client has before
	Want  rtsp.Transport
	Text  string
	Loose []string // fields whose second number the text does not give
}

func genTrText(t *rapid.T) trText {
	c := trText{Start: genTransport(t)}
	c.Want = c.Start
	ws := func() string {
		if rapid.IntRange(0, 7).Draw(t, "space") == 0 {
			return " "
		}
		return ""
	}
	head := randCase(t, "RTP/AVP")
	switch rapid.IntRange(0, 2).Draw(t, "lower") {
	case 0:
		c.Want.IsTCP = true
		head += "/" + randCase(t, "TCP")
	case 1:
		c.Want.IsTCP = false
		head += "/" + randCase(t, "UDP")
	case 2:
		c.Start.IsTCP, c.Want.IsTCP = false, false // UDP is what no lower transport means
	}
	var ps []string
	add := func(name, val string) {
		s := randCase(t, name)
		if val != "" {
			s += "=" + val
		}
		ps = append(ps, s)
	}
	opt := func(name string) bool { return rapid.Bool().Draw(t, name) }
	pair := func(name string, p *rtsp.Pair, from, to int) {
		*p = genPair(t, from, to)
		if rapid.IntRange(0, 3).Draw(t, "single") == 0 {
			c.Loose = append(c.Loose, name)
			add(name, strconv.Itoa(p.One))
			return
		}
		add(name, fmt.Sprintf("%d-%d", p.One, p.Two))
	}
	multi := rapid.IntRange(0, 2).Draw(t, "delivery")
	switch multi {
	case 0:
		add("unicast", "")
		c.Want.IsMulticast = false
	case 1:
		add("multicast", "")
		c.Want.IsMulticast = true
	}
	if multi != 1 && opt("interleaved") {
		pair("interleaved", &c.Want.Interleave, 0, 255)
		c.Want.IsInterleaved, c.Want.IsMulticast = true, false
	}
	if opt("append") {
		add("append", "")
		c.Want.IsAppend = true
	}
	if opt("port") {
		pair("port", &c.Want.Port, 1, 65535)
	}
	if opt("client_port") {
		pair("client_port", &c.Want.ClientPort, 1, 65535)
	}
	if opt("server_port") {
		pair("server_port", &c.Want.ServerPort, 1, 65535)
	}
	if opt("layers") {
		c.Want.Layers = rapid.IntRange(1, 99).Draw(t, "layers")
		add("layers", strconv.Itoa(c.Want.Layers))
	}
	if opt("ttl") {
		c.Want.TTL = rapid.IntRange(0, 255).Draw(t, "ttl")
		add("ttl", strconv.Itoa(c.Want.TTL))
	}
	if opt("destination") {
		c.Want.Destination = genHost.Draw(t, "destination")
		add("destination", c.Want.Destination)
	}
	if opt("source") {
		c.Want.Source = genHost.Draw(t, "source")
		add("source", c.Want.Source)
	}
	if opt("ssrc") {
		c.Want.SSRC = genSSRC.Draw(t, "ssrc")
		add("ssrc", c.Want.SSRC)
	}
	if opt("mode") {
		c.Want.Mode = genTMode.Draw(t, "mode")
		v := c.Want.Mode
		if rapid.Bool().Draw(t, "quoted") {
			v = quote(v)
		}
		add("mode", v)
	}
	if opt("unknown") {
		ps = append(ps, rapid.SampledFrom([]string{"x-dynamic", "x-foo=bar", "x-port=7-8", "url=rtsp://10.0.0.1/live/track1", "x-path=a/b/udp", "x-path=a/b/tcp", "setup=a=b"}).Draw(t, "unknown"))
	}
	if rapid.IntRange(0, 39).Draw(t, "large") == 0 {
		for i := rapid.IntRange(1, 120).Draw(t, "extra"); i > 0; i-- {
			ps = append(ps, fmt.Sprintf("x-%d=%d", i, i))
		}
		ps = append(ps, "x-long="+strings.Repeat("a=b/", rapid.IntRange(1, 14000).Draw(t, "length")))
	}
	ps = rapid.Permutation(ps).Draw(t, "order")
	c.Text = head
	for _, p := range ps {
		c.Text += ws() + ";" + ws() + p
	}
	return c
}

func sameTransport(got, want rtsp.Transport, loose []string) error {
	got.Mode, want.Mode = strings.Trim(got.Mode, `"`), strings.Trim(want.Mode, `"`)
	for _, l := range loose {
		switch l {
		case "interleaved":
			got.Interleave.Two = want.Interleave.Two
		case "port":
			got.Port.Two = want.Port.Two
		case "client_port":
			got.ClientPort.Two = want.ClientPort.Two
		case "server_port":
			got.ServerPort.Two = want.ServerPort.Two
		}
	}
	if got != want {
		return fmt.Errorf("got  %+v\nwant %+v", got, want)
	}
	return nil
}

// splitTransport is a reference reading of a single transport specification.
func splitTransport(s string) (spec []string, params map[string]string, err error) {
	params = map[string]string{}
	for i, f := range strings.Split(s, ";") {
		f = strings.TrimSpace(f)
		if i == 0 {
			spec = strings.Split(strings.ToUpper(f), "/")
			continue
		}
		name, val := strings.ToLower(f), ""
		if j := strings.IndexByte(f, '='); j >= 0 {
			name, val = strings.ToLower(f[:j]), f[j+1:]
		}
		if _, dup := params[name]; dup {
			return nil, nil, fmt.Errorf("parameter %s given twice", name)
		}
		params[name] = val
	}
	if len(spec) < 2 || len(spec) > 3 || spec[0] != "RTP" || spec[1] != "AVP" {
		return nil, nil, fmt.Errorf("transport specification %q", spec)
	}
	return spec, params, nil
}

func refPair(s string, max int) (a, b int, err error) {
	f := strings.Split(s, "-")
	if len(f) == 2 {
		var e1, e2 error
		a, e1 = strconv.Atoi(f[0])
		b, e2 = strconv.Atoi(f[1])
		if e1 == nil && e2 == nil && a >= 0 && b >= 0 && a <= max && b <= max && f[0][0] != '+' && f[1][0] != '+' {
			return
		}
	}
	return 0, 0, fmt.Errorf("not a pair within 0-%d: %q", max, s)
}

// checkOffers verifies the Transport headers offered for the streams of one session, in order.
func checkOffers(proto int, offers []string) error {
	used := map[int]int{}
	for i, o := range offers {
		spec, ps, err := splitTransport(o)
		if err != nil {
			return fmt.Errorf("offer %d %q: %v", i, o, err)
		}
		lower := "UDP"
		if len(spec) == 3 {
			lower = spec[2]
		}
		_, uni := ps["unicast"]
		_, multi := ps["multicast"]
		var v, name string
		max := 65535
		switch proto {
		case rtsp.ProtoTCP, rtsp.ProtoHTTP:
			if lower != "TCP" || multi {
				return fmt.Errorf("offer %d %q does not ask for TCP", i, o)
			}
			name, max = "interleaved", 255
		case rtsp.ProtoUnicast:
			if lower != "UDP" || !uni || multi {
				return fmt.Errorf("offer %d %q does not ask for UDP unicast", i, o)
			}
			name = "client_port"
		case rtsp.ProtoMulticast:
			if lower != "UDP" || uni || !multi {
				return fmt.Errorf("offer %d %q does not ask for UDP multicast", i, o)
			}
			name = "port"
		}
		v, ok := ps[name]
		if !ok {
			return fmt.Errorf("offer %d %q has no %s", i, o, name)
		}
		for _, n := range []string{"interleaved", "client_port", "port", "server_port"} {
			if _, ok := ps[n]; ok && n != name {
				return fmt.Errorf("offer %d %q has %s", i, o, n)
			}
		}
		a, b, err := refPair(v, max)
		if err != nil || a%2 != 0 || b != a+1 || (name != "interleaved" && a == 0) {
			return fmt.Errorf("offer %d %q: pair %q (%v)", i, o, v, err)
		}
		if j, dup := used[a]; dup {
			return fmt.Errorf("offers %d and %d both ask for %q", j, i, v)
		}
		used[a] = i
	}
	return nil
}

type offerCase struct {
	Proto   int
	Streams int
}

type trBad struct{ Text string }

type reqCase struct {
	Verb, URI, Auth, Session string
	Cseq                     int
	Header                   [][2]string
}

// message is an independent reading of an RTSP request.
type message struct {
	Method, URI string
	Header      map[string]string // by lower case name
	Names       []string
	Raw         string
	At          time.Time // of arrival
}

func (m *message) get(name string) string { return m.Header[strings.ToLower(name)] }
func (m *message) has(name string) bool   { _, ok := m.Header[strings.ToLower(name)]; return ok }
func (m *message) cseq() int              { n, _ := strconv.Atoi(m.get("CSeq")); return n }

const tokenChars = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// parseRequest reads the head of one request, up to and including the empty line.  It accepts nothing that is not
// well formed.
func parseRequest(b []byte) (*message, error) {
	if !bytes.HasSuffix(b, []byte("\r\n\r\n")) {
		return nil, fmt.Errorf("does not end with an empty line: %q", b)
	}
	lines := strings.Split(string(b[:len(b)-4]), "\r\n")
	m := &message{Header: map[string]string{}, Raw: string(b)}
	for i, l := range lines {
		if strings.ContainsAny(l, "\r\n\x00") {
			return nil, fmt.Errorf("stray line ending in %q", l)
		}
		if i == 0 {
			f := strings.Split(l, " ")
			if len(f) != 3 || f[0] == "" || f[1] == "" || f[2] != "RTSP/1.0" || strings.Trim(f[0], tokenChars) != "" {
				return nil, fmt.Errorf("request line %q", l)
			}
			m.Method, m.URI = f[0], f[1]
			continue
		}
		j := strings.IndexByte(l, ':')
		if j <= 0 || strings.Trim(l[:j], tokenChars) != "" {
			return nil, fmt.Errorf("header line %q", l)
		}
		name := strings.ToLower(l[:j])
		if _, dup := m.Header[name]; dup {
			return nil, fmt.Errorf("header %s given twice in %q", name, b)
		}
		m.Header[name] = strings.Trim(l[j+1:], " \t")
		m.Names = append(m.Names, name)
	}
	if _, err := strconv.ParseUint(m.get("CSeq"), 10, 63); err != nil {
		return nil, fmt.Errorf("CSeq %q", m.get("CSeq"))
	}
	return m, nil
}

func genTrBad(t *rapid.T) trBad {
	c := genTrText(t)
	f := strings.Split(c.Text, ";")
	name := randCase(t, rapid.SampledFrom([]string{"interleaved", "port", "client_port", "server_port", "ttl", "layers", "destination", "source", "ssrc", "mode"}).Draw(t, "bad parameter"))
	bad := name
	switch strings.ToLower(name) {
	case "destination", "source", "ssrc", "mode":
	case "ttl", "layers":
		bad += rapid.SampledFrom([]string{"", "=", "=x", "=1x", "=0x10", "=1.5", "=one"}).Draw(t, "value")
	default:
		bad += rapid.SampledFrom([]string{"", "=", "=x", "=x-1", "=1-", "=1-x", "=-", "=-1", "=1x-2", "=one-two", "=1-2x"}).Draw(t, "value")
	}
	at := rapid.IntRange(1, len(f)).Draw(t, "at")
	f = append(f[:at:at], append([]string{bad}, f[at:]...)...)
	return trBad{strings.Join(f, ";")}
}

func init() {
	register(Spec[trRound]{
		Prop: "C20", Name: "round_trip", Quick: 20000, Pure: true,
		Rule: "consistent transport descriptions, printed and parsed into an empty description; non-trivial: at least three parameters",
		Gen:  func(t *rapid.T) trRound { return trRound{genTransport(t)} },
		Nontrivial: func(c trRound) bool {
			return strings.Count(c.T.String(), ";") >= 3
		},
		Run: func(c trRound) error {
			s := c.T.String()
			disturbTransport()
			if _, _, err := splitTransport(s); err != nil {
				return fmt.Errorf("%+v printed as %q: %v", c.T, s, err)
			}
			var got rtsp.Transport
			if err := got.Parse(s); err != nil {
				return fmt.Errorf("%q refused: %v", s, err)
			}
			want := c.T
			if strings.EqualFold(want.Mode, "PLAY") && got.Mode == "" {
				want.Mode = "" // the default mode need not be printed
			}
			disturbTransport()
			if err := sameTransport(got, want, nil); err != nil {
				return fmt.Errorf("%q: %v", s, err)
			}
			return nil
		},
	})
	register(Spec[trText]{
		Prop: "C20", Name: "server_text", Quick: 20000, Pure: true,
		Rule: "Transport headers with any subset of parameters in any order and letter case, single values or ranges, unknown parameters and some white space, parsed into any previous description; non-trivial: at least three parameters",
		Gen:  genTrText, Nontrivial: func(c trText) bool { return strings.Count(c.Text, ";") >= 3 },
		Labels: func(c trText) (l []string) {
			if len(c.Loose) > 0 {
				l = append(l, "single value")
			}
			if strings.Contains(c.Text, " ") {
				l = append(l, "white space")
			}
			return
		},
		Run: func(c trText) error {
			got := c.Start
			if err := got.Parse(c.Text); err != nil {
				return fmt.Errorf("%q refused: %v", c.Text, err)
			}
			disturbTransport()
			if err := sameTransport(got, c.Want, c.Loose); err != nil {
				return fmt.Errorf("%q parsed into %+v:\n%v", c.Text, c.Start, err)
			}
			return nil
		},
	})
	register(Spec[trBad]{
		Prop: "C20", Name: "bad_values", Quick: 4000, Pure: true,
		Rule: "well-formed headers with one parameter whose value is missing or not numeric: must be an error",
		Gen:  genTrBad,
		Run: func(c trBad) error {
			var got rtsp.Transport
			if err := got.Parse(c.Text); err == nil {
				return fmt.Errorf("%q accepted as %+v", c.Text, got)
			}
			return nil
		},
	})
	register(Spec[offerCase]{
		Prop: "C20", Name: "offers", Quick: 2000, Pure: true,
		Rule: "the transports offered for 1-128 video streams (audio in between) over every lower protocol; non-trivial: more than one stream",
		Gen: func(t *rapid.T) offerCase {
			return offerCase{rapid.IntRange(0, 3).Draw(t, "proto"), rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 20), rapid.IntRange(1, 128)).Draw(t, "streams")}
		},
		Nontrivial: func(c offerCase) bool { return c.Streams > 1 },
		Run: func(c offerCase) error {
			sdp := "v=0\r\n"
			for i := 0; i < c.Streams; i++ {
				sdp += fmt.Sprintf("m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=control:track%d\r\n", i)
				if i%3 == 1 {
					sdp += "m=audio 0 RTP/AVP 0\r\na=control:audio\r\n"
				}
			}
			feeds, err := rtsp.ParseFeeds(c.Proto, []byte(sdp))
			if err != nil || len(feeds) != c.Streams {
				return fmt.Errorf("%d feeds for %d streams, %v", len(feeds), c.Streams, err)
			}
			disturbTransport()
			var offers []string
			for _, f := range feeds {
				offers = append(offers, f.TransportHeader())
			}
			return checkOffers(c.Proto, offers)
		},
	})
	register(Spec[reqCase]{
		Prop: "C21", Name: "requests", Quick: 30000, Pure: true,
		Rule: "requests with any method, URI, sequence number, credentials, session id and up to 8 headers, read by an independent parser; non-trivial: at least two headers besides the standard ones or a session",
		Gen: func(t *rapid.T) reqCase {
			c := reqCase{
				Verb: rapid.SampledFrom([]string{"OPTIONS", "DESCRIBE", "SETUP", "PLAY", "PAUSE", "TEARDOWN", "GET_PARAMETER", "SET_PARAMETER", "ANNOUNCE", "RECORD", "REDIRECT", "X_" + genToken.Draw(t, "method")}).Draw(t, "verb"),
				URI:  rapid.SampledFrom([]string{"rtsp://10.0.0.1:554/live", "rtsp://[::1]/a?b=c&d=%20e", "*", "rtsp://cam.local:8554/trackID=1", "/x", "rtsp://10.0.0.1/" + genURIText.Draw(t, "uri text")}).Draw(t, "uri"),
				Cseq: rapid.OneOf(rapid.IntRange(0, 1<<31-1), rapid.IntRange(0, 20)).Draw(t, "cseq"),
			}
			if rapid.Bool().Draw(t, "auth") {
				c.Auth = `Digest username="u", realm="r", nonce="` + genToken.Draw(t, "nonce") + `", response="0123"`
			}
			if rapid.Bool().Draw(t, "session") {
				c.Session = genToken.Draw(t, "session")
			}
			names := rapid.Permutation([]string{"accept", "Transport", "X-A", "range", "SCALE", "Require", "If-Modified-Since", "x-b", "Bandwidth", "Speed", "Accept-Language", genName.Draw(t, "name") + "-1", genName.Draw(t, "name") + "-2"}).Draw(t, "names")
			for i := rapid.IntRange(0, 8).Draw(t, "headers"); i > 0; i-- {
				v := rapid.StringOfN(rapid.SampledFrom([]rune("abcXYZ019 :;=,/\"<>-_é")), 0, 30, -1).Draw(t, "value")
				c.Header = append(c.Header, [2]string{names[i], strings.TrimSpace(v)})
			}
			if c.Session != "" && c.Verb == "OPTIONS" && rapid.Bool().Draw(t, "keep-alive") {
				c.Header = append(c.Header, [2]string{"Session", c.Session})
			}
			return c
		},
		Nontrivial: func(c reqCase) bool { return len(c.Header) >= 2 || c.Session != "" },
		Labels:     func(c reqCase) []string { return []string{c.Verb} },
		Run:        runRequest,
	})
}

var genURIText = rapid.StringOfN(rapid.SampledFrom([]rune("abcXYZ0189/?&=;:@!$'()*+,-._~%#[]|\"<>é")), 0, 40, -1)

func runRequest(c reqCase) error {
	r := rtsp.Request{Verb: c.Verb, URI: c.URI, Auth: c.Auth, Session: c.Session, Cseq: c.Cseq}
	if len(c.Header) > 0 || c.Cseq%2 == 0 {
		r.Header = make(rtsp.MessageHeader)
	}
	for _, h := range c.Header {
		r.Header.Set(h[0], h[1])
		if g := r.Header.Get(textproto.CanonicalMIMEHeaderKey(strings.ToUpper(h[0]))); g != h[1] {
			return fmt.Errorf("header %s set to %q reads %q", h[0], h[1], g)
		}
	}
	first := r.Pack()
	kept := append([]byte{}, first...)
	if err := checkPacked(first, c); err != nil {
		return err
	}
	disturbRequest()
	// The same request again, as when it is repeated with credentials or sent anew without a session.
	if err := checkPacked(r.Pack(), c); err != nil {
		return fmt.Errorf("packed again: %v", err)
	}
	other := c
	other.Cseq++
	if other.Auth == "" {
		other.Auth = "Basic dTpw"
	} else {
		other.Auth = ""
	}
	if other.Session == "" {
		other.Session = "fresh"
	} else if len(c.Header) == 0 || c.Header[len(c.Header)-1][0] != "Session" {
		other.Session = ""
	}
	r.Cseq, r.Auth, r.Session = other.Cseq, other.Auth, other.Session
	if err := checkPacked(r.Pack(), other); err != nil {
		return fmt.Errorf("packed with other credentials and session: %v", err)
	}
	// Another request with the same header fields.
	third := c
	third.Verb, third.Auth, third.Session = "PLAY", "", ""
	if len(c.Header) > 0 && c.Header[len(c.Header)-1][0] == "Session" {
		third.Verb = "OPTIONS"
	}
	q := rtsp.Request{Verb: third.Verb, URI: third.URI, Cseq: third.Cseq, Header: r.Header}
	if err := checkPacked(q.Pack(), third); err != nil {
		return fmt.Errorf("another request with the same header fields: %v", err)
	}
	r.Cseq, r.Auth, r.Session = c.Cseq, c.Auth, c.Session
	if err := checkPacked(r.Pack(), c); err != nil {
		return fmt.Errorf("packed once more: %v", err)
	}
	if !bytes.Equal(first, kept) {
		return fmt.Errorf("packing again changed the first message: %s", diffBytes(first, kept))
	}
	return nil
}

// checkPacked compares a serialised request with its description.
func checkPacked(b []byte, c reqCase) error {
	want := map[string]string{"cseq": strconv.Itoa(c.Cseq), "content-length": "0"}
	for _, h := range c.Header {
		want[strings.ToLower(h[0])] = h[1]
	}
	if c.Auth != "" {
		want["authorization"] = c.Auth
	}
	if c.Session != "" && c.Verb != "OPTIONS" && c.Verb != "SETUP" {
		want["session"] = c.Session
	}
	if i := bytes.Index(b, []byte("\r\n\r\n")); i != len(b)-4 {
		return fmt.Errorf("not one message: %q", b)
	}
	m, err := parseRequest(b)
	if err != nil {
		return err
	}
	if m.Method != c.Verb || m.URI != c.URI {
		return fmt.Errorf("request line of %q, want %s %s", b, c.Verb, c.URI)
	}
	if m.get("User-Agent") == "" {
		return fmt.Errorf("no user agent in %q", b)
	}
	want["user-agent"] = m.get("User-Agent")
	sort.Strings(m.Names)
	for _, n := range m.Names {
		if w, ok := want[n]; !ok || w != m.Header[n] {
			return fmt.Errorf("header %s is %q, want %q (given: %v), in %q", n, m.Header[n], w, ok, b)
		}
		delete(want, n)
	}
	if len(want) > 0 {
		return fmt.Errorf("headers %v are missing in %q", want, b)
	}
	return nil
}
