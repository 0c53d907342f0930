package main

// C15: session descriptions.  C16, C17: HLS playlists.

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"net/url"
	"path"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/aboukirev/ouro/net/hls"
	"github.com/aboukirev/ouro/net/sdp"
	"pgregory.net/rapid"
)

type sdpAttr struct {
	Kind string // control, rtpmap, fmtp, other
	Text string // for other: the whole line
}

type sdpMedia struct {
	Kind     string // video, audio, application, text
	Port     int
	Proto    string
	PT       int
	Codec    string // name in rtpmap
	Clock    int
	Channels int // 0: not given
	Control  string
	Sprop    [][]byte
	Config   []byte
	SizeLen  int
	IndexLen int
	Fmtp     []string // the parameters in order: sprop, config, sizelength, indexlength, or literal text
	FmtpSep  string
	Attrs    []sdpAttr
}

type sdpCase struct {
	CRLF    bool
	Session []string // session level attributes
	Media   []sdpMedia
	FinalNL bool
}

func (m sdpMedia) has(kind string) bool {
	for _, a := range m.Attrs {
		if a.Kind == kind {
			return true
		}
	}
	return false
}

func (m sdpMedia) hasFmtp(p string) bool {
	if !m.has("fmtp") {
		return false
	}
	for _, f := range m.Fmtp {
		if f == p {
			return true
		}
	}
	return false
}

func (c sdpCase) text() []byte {
	lines := []string{"v=0", "o=- 1 1 IN IP4 127.0.0.1", "s=session"}
	lines = append(lines, c.Session...)
	lines = append(lines, "t=0 0")
	for _, m := range c.Media {
		port := strconv.Itoa(m.Port)
		if m.Port == 49170 {
			port += "/2"
		}
		lines = append(lines, fmt.Sprintf("m=%s %s %s %d", m.Kind, port, m.Proto, m.PT))
		for _, a := range m.Attrs {
			switch a.Kind {
			case "control":
				lines = append(lines, "a=control:"+m.Control)
			case "rtpmap":
				l := fmt.Sprintf("a=rtpmap:%d %s/%d", m.PT, m.Codec, m.Clock)
				if m.Channels > 0 {
					l += fmt.Sprintf("/%d", m.Channels)
				}
				lines = append(lines, l)
			case "fmtp":
				var ps []string
				for _, f := range m.Fmtp {
					switch f {
					case "sprop":
						var vs []string
						for _, s := range m.Sprop {
							vs = append(vs, base64.StdEncoding.EncodeToString(s))
						}
						f = "sprop-parameter-sets=" + strings.Join(vs, ",")
					case "config":
						f = "config=" + hex.EncodeToString(m.Config)
					case "sizelength":
						f = "sizelength=" + strconv.Itoa(m.SizeLen)
					case "indexlength":
						f = "indexlength=" + strconv.Itoa(m.IndexLen)
					}
					ps = append(ps, f)
				}
				lines = append(lines, fmt.Sprintf("a=fmtp:%d %s", m.PT, strings.Join(ps, m.FmtpSep)))
			default:
				lines = append(lines, a.Text)
			}
		}
	}
	nl := "\n"
	if c.CRLF {
		nl = "\r\n"
	}
	s := strings.Join(lines, nl)
	if c.FinalNL {
		s += nl
	}
	return []byte(s)
}

// Attributes that have nothing to do with the values the parser reports, though they look as if they had.
var decoys = []string{
	"a=recvonly", "a=framerate:25", "a=framesize:96 1280-720", "a=range:npt=0-", "a=x-dimensions:1920,1080", "a=x-info:H264/8000",
	"a=tool:H264/12345", "a=keywords:control:trackID=99", "a=x-a:control:evil", "a=x-b:config=ff;sizelength=99", "a=x-c:1;indexlength=77;config=00",
	"a=x-d:mpeg4-generic/44100/2", "a=cliprect:0,0,720,1280", "a=x-e:sprop-parameter-sets=AAAA,BBBB;a=b", "a=x-f:rtpmap:33", "a=x-g: rtpmap:33 H264/1000",
	"a=ssrc:1234/5678", "a=x-path:a/1/b/2", "a=quality:10", "a=x-h:fmtp:96 config=ab;sizelength=5", "b=AS:5000", "b=AS:1/2", "i=video H264/1000", "c=IN IP4 0.0.0.0/127",
	"a=x-bufferdelay:5/7", "a=mid:video/3", "a=x-i:foo control:zzz",
}

var fmtpDecoys = []string{"packetization-mode=1", "profile-level-id=640028", "mode=AAC-hbr", "indexdeltalength=3", "streamtype=5", "x-control=control:evil", "x=H264/9", "xconfig=12", "config2=34", "max-fs=3600/1"}

func genMedia(i int) *rapid.Generator[sdpMedia] {
	return rapid.Custom(func(t *rapid.T) sdpMedia {
		m := sdpMedia{
			Kind:    rapid.SampledFrom([]string{"video", "video", "video", "audio", "audio", "application", "text"}).Draw(t, "kind"),
			Port:    rapid.SampledFrom([]int{0, 0, 5004, 49170}).Draw(t, "port"),
			Proto:   rapid.SampledFrom([]string{"RTP/AVP", "RTP/AVP", "RTP/AVP/TCP", "RTP/SAVP"}).Draw(t, "proto"),
			PT:      rapid.IntRange(0, 127).Draw(t, "pt"),
			Codec:   rapid.SampledFrom([]string{"H264", "H264", "h264", "MPEG4-GENERIC", "mpeg4-generic", "H265", "JPEG", "PCMU", "X-KATA"}).Draw(t, "codec"),
			Clock:   rapid.SampledFrom([]int{90000, 8000, 16000, 48000, 1, 2147483647}).Draw(t, "clock"),
			Control: rapid.SampledFrom([]string{"trackID=%d", "track%d", "rtsp://cam.example:554/live/stream/track%d?a=b&c=d/e", "*", "rtsp://192.168.1.10/h264/90000/%d", "streamid=%d;v=1/2", "a/b/c=%d"}).Draw(t, "control"),
		}
		m.Control = strings.Replace(m.Control, "%d", strconv.Itoa(i), 1)
		if m.Kind == "audio" {
			m.Channels = rapid.IntRange(0, 2).Draw(t, "channels")
		} else if rapid.IntRange(0, 5).Draw(t, "encoding parameters") == 0 {
			m.Channels = 1
		}
		for j := rapid.IntRange(1, 3).Draw(t, "sets"); j > 0; j-- {
			m.Sprop = append(m.Sprop, append([]byte{}, anyBytes(1, 40).Draw(t, "set")...))
		}
		m.Config = append([]byte{}, anyBytes(1, 20).Draw(t, "config")...)
		m.SizeLen, m.IndexLen = rapid.IntRange(0, 32).Draw(t, "size"), rapid.IntRange(0, 32).Draw(t, "index")
		for _, f := range rapid.Permutation([]string{"sprop", "config", "sizelength", "indexlength", "", ""}).Draw(t, "fmtp") {
			if f == "" {
				f = rapid.SampledFrom(fmtpDecoys).Draw(t, "decoy")
			}
			if rapid.IntRange(0, 2).Draw(t, "drop") > 0 {
				m.Fmtp = append(m.Fmtp, f)
			}
		}
		if len(m.Fmtp) == 0 {
			m.Fmtp = []string{"sprop"}
		}
		m.FmtpSep = rapid.SampledFrom([]string{";", "; ", ";  "}).Draw(t, "sep")
		kinds := []string{"control", "rtpmap", "fmtp", "other", "other", "other"}
		for _, k := range rapid.Permutation(kinds).Draw(t, "attrs") {
			if k == "fmtp" && rapid.IntRange(0, 4).Draw(t, "no fmtp") == 0 {
				continue
			}
			if k != "other" && rapid.IntRange(0, 9).Draw(t, "missing") == 0 {
				continue
			}
			a := sdpAttr{Kind: k}
			if k == "other" {
				a.Text = rapid.SampledFrom(decoys).Draw(t, "text")
			}
			m.Attrs = append(m.Attrs, a)
		}
		return m
	})
}

func runSDP(c sdpCase) error {
	got := sdp.Parse(c.text())
	disturbSDP()
	var want []sdpMedia
	for _, m := range c.Media {
		if m.Kind == "video" {
			want = append(want, m)
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d streams, want %d\n%s", len(got), len(want), c.text())
	}
	for i, m := range want {
		if err := compareMedia(got[i], m); err != nil {
			return fmt.Errorf("stream %d: %v\n%s", i, err, c.text())
		}
	}
	return nil
}

// compareMedia compares what was parsed of one stream with its description.
func compareMedia(g sdp.Media, m sdpMedia) error {
	var err error
	eq := func(name string, got, want interface{}) {
		if got != want && err == nil {
			err = fmt.Errorf("%s is %v, want %v", name, got, want)
		}
	}
	eq("payload type", g.PayloadType, m.PT)
	var typ uint
	clock, rtpmap, control := 0, 0, ""
	if m.has("rtpmap") {
		clock, rtpmap = m.Clock, m.PT
		switch strings.ToLower(m.Codec) {
		case "h264":
			typ = sdp.H264
		case "mpeg4-generic":
			typ = sdp.AAC
		}
	}
	if m.has("control") {
		control = m.Control
	}
	eq("codec type", g.Type, typ)
	eq("clock rate", g.TimeScale, clock)
	eq("rtpmap payload type", g.Rtpmap, rtpmap)
	eq("control", g.Control, control)
	var config []byte
	size, index := 0, 0
	if m.hasFmtp("config") {
		config = m.Config
	}
	if m.hasFmtp("sizelength") {
		size = m.SizeLen
	}
	if m.hasFmtp("indexlength") {
		index = m.IndexLen
	}
	eq("config", string(g.Config), string(config))
	eq("size length", g.SizeLength, size)
	eq("index length", g.IndexLength, index)
	var sets [][]byte
	if m.hasFmtp("sprop") {
		sets = m.Sprop
	}
	eq("number of parameter sets", len(g.SpropParameterSets), len(sets))
	for j := range sets {
		if err == nil && !bytes.Equal(g.SpropParameterSets[j], sets[j]) {
			err = fmt.Errorf("parameter set %d is %x, want %x", j, g.SpropParameterSets[j], sets[j])
		}
	}
	return err
}

type segment struct {
	Duration float64
	Length   int64
}

type hlsCase struct {
	URI, Name string
	Cap       int
	Segs      []segment
	RenderAt  int // also rendered after this many segments
}

type hlsEntry struct {
	Duration    float64
	Length, Pos int64
	URI         string
}

// parsePlaylist is an independent reader of the rendering.
func parsePlaylist(s string) (entries []hlsEntry, err error) {
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	for i := range lines {
		lines[i] = strings.TrimSuffix(lines[i], "\r")
	}
	if len(lines) < 3 || lines[0] != "#EXTM3U" || !strings.HasPrefix(lines[1], "#EXT-X-VERSION:") || lines[len(lines)-1] != "#EXT-X-ENDLIST" {
		return nil, fmt.Errorf("header or end missing")
	}
	v, err := strconv.Atoi(strings.TrimPrefix(lines[1], "#EXT-X-VERSION:"))
	if err != nil || v < 4 {
		return nil, fmt.Errorf("version line %q", lines[1])
	}
	var e hlsEntry
	inf, rng := false, false
	for _, l := range lines[2 : len(lines)-1] {
		switch {
		case strings.HasPrefix(l, "#EXTINF:") && !inf:
			d := strings.TrimPrefix(l, "#EXTINF:")
			if i := strings.IndexByte(d, ','); i >= 0 {
				d = d[:i]
			}
			if strings.Trim(d, "0123456789.") != "" {
				return nil, fmt.Errorf("duration %q is not a decimal number", d)
			}
			if e.Duration, err = strconv.ParseFloat(d, 64); err != nil {
				return nil, err
			}
			inf = true
		case strings.HasPrefix(l, "#EXT-X-BYTERANGE:") && inf && !rng:
			p := strings.SplitN(strings.TrimPrefix(l, "#EXT-X-BYTERANGE:"), "@", 2)
			if len(p) != 2 {
				return nil, fmt.Errorf("byte range %q", l)
			}
			if e.Length, err = strconv.ParseInt(p[0], 10, 64); err != nil {
				return nil, err
			}
			if e.Pos, err = strconv.ParseInt(p[1], 10, 64); err != nil {
				return nil, err
			}
			rng = true
		case !strings.HasPrefix(l, "#") && inf && rng && l != "":
			e.URI = l
			entries = append(entries, e)
			e, inf, rng = hlsEntry{}, false, false
		default:
			return nil, fmt.Errorf("unexpected line %q", l)
		}
	}
	if inf || rng {
		return nil, fmt.Errorf("entry without URI")
	}
	return entries, nil
}

func runHLS(c hlsCase) error {
	pl, err := hls.NewPlaylist(c.URI, c.Name, c.Cap, 3.5)
	if err != nil {
		return fmt.Errorf("NewPlaylist: %v", err)
	}
	check := func(n int) error {
		s := pl.String()
		got, err := parsePlaylist(s)
		if err != nil {
			return fmt.Errorf("after %d segments: %v\n%s", n, err, s)
		}
		from := 0
		if n > c.Cap {
			from = n - c.Cap
		}
		if len(got) != n-from {
			return fmt.Errorf("after %d segments with capacity %d: %d entries\n%s", n, c.Cap, len(got), s)
		}
		pos := int64(0)
		for i, seg := range c.Segs[:n] {
			if i >= from {
				e := got[i-from]
				if e.Duration != seg.Duration || e.Length != seg.Length || e.Pos != pos {
					return fmt.Errorf("after %d segments entry %d is %+v, want segment %d %+v at %d", n, i-from, e, i, seg, pos)
				}
				if e.URI != got[0].URI {
					return fmt.Errorf("different URIs %q and %q", e.URI, got[0].URI)
				}
			}
			pos += seg.Length
		}
		return nil
	}
	for i, s := range c.Segs {
		if i == c.RenderAt {
			if err := check(i); err != nil {
				return err
			}
		}
		pl.AddSegment(s.Duration, s.Length)
		if i%8 == 3 {
			disturbHLS()
		}
	}
	disturbHLS()
	return check(len(c.Segs))
}

type uriCase struct{ Scheme, Host, Path, Query, Dir, Name string }

func (c uriCase) base() string {
	s := ""
	if c.Scheme != "" {
		s = c.Scheme + "://" + c.Host
	}
	s += c.Path
	if c.Query != "" {
		s += "?" + c.Query
	}
	return s
}

// percentDecode undoes URI escaping without net/url.
func percentDecode(s string) (string, error) {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = append(out, s[i])
			continue
		}
		if i+2 >= len(s) {
			return "", fmt.Errorf("bad escape in %q", s)
		}
		b, err := hex.DecodeString(s[i+1 : i+3])
		if err != nil {
			return "", fmt.Errorf("bad escape in %q", s)
		}
		out = append(out, b[0])
		i += 2
	}
	return string(out), nil
}

func runURI(c uriCase) error {
	pl, err := hls.NewPlaylist(c.base(), c.Dir+c.Name, 2, 4)
	if err != nil {
		return fmt.Errorf("NewPlaylist(%q): %v", c.base(), err)
	}
	disturbHLS()
	pl.AddSegment(1.5, 10)
	es, err := parsePlaylist(pl.String())
	if err != nil || len(es) != 1 {
		return fmt.Errorf("playlist: %v\n%s", err, pl.String())
	}
	got := es[0].URI
	rest := got
	if c.Scheme != "" {
		prefix := c.Scheme + "://" + c.Host
		if !strings.HasPrefix(rest, prefix) {
			return fmt.Errorf("%q is not under %q", got, prefix)
		}
		rest = rest[len(prefix):]
	}
	query := ""
	if i := strings.IndexByte(rest, '?'); i >= 0 {
		rest, query = rest[:i], rest[i+1:]
	}
	if query != c.Query {
		return fmt.Errorf("%q: query %q, want %q", got, query, c.Query)
	}
	if strings.IndexByte(rest, '#') >= 0 {
		return fmt.Errorf("%q has a fragment", got)
	}
	p, err := percentDecode(rest)
	if err != nil {
		return err
	}
	basePath, _ := percentDecode(c.Path)
	name := filepath.Base(c.Dir + c.Name)
	want := name
	if basePath != "" {
		if cl := path.Clean(basePath); cl != "." {
			want = strings.TrimSuffix(cl, "/") + "/" + name
		}
	}
	if c.Scheme != "" && !strings.HasPrefix(want, "/") {
		want = "/" + want
	}
	if p != want {
		return fmt.Errorf("%q has path %q, want %q", got, p, want)
	}
	return nil
}

func init() {
	register(Spec[sdpCase]{
		Prop: "C15", Name: "descriptions", Quick: 24000, Pure: true,
		Rule: "session descriptions of 0-5 media (video, audio, other) with attributes in any order, some missing, mixed with 27 decoy attributes at session and media level that contain slashes, semicolons or the names of real attributes, LF or CRLF: every value against the description; non-trivial: at least one video and another medium",
		Gen: func(t *rapid.T) sdpCase {
			c := sdpCase{CRLF: rapid.Bool().Draw(t, "crlf"), FinalNL: rapid.Bool().Draw(t, "final nl")}
			sess := append([]string{"a=control:*", "a=rtpmap:99 H264/1234", "a=fmtp:99 config=aa;sizelength=9", "a=control:rtsp://x/session"}, decoys...)
			c.Session = rapid.SliceOfN(rapid.SampledFrom(sess), 0, 4).Draw(t, "session")
			n := rapid.IntRange(0, 5).Draw(t, "media")
			for i := 0; i < n; i++ {
				c.Media = append(c.Media, genMedia(i).Draw(t, "medium"))
			}
			return c
		},
		Nontrivial: func(c sdpCase) bool {
			v := 0
			for _, m := range c.Media {
				if m.Kind == "video" {
					v++
				}
			}
			return v > 0 && len(c.Media) > 1
		},
		Labels: func(c sdpCase) (l []string) {
			for _, m := range c.Media {
				l = append(l, m.Kind)
				if m.has("fmtp") && len(m.Fmtp) == 1 {
					l = append(l, "single fmtp parameter")
				}
			}
			return
		},
		Run: runSDP,
	})
	genDur := rapid.OneOf(rapid.Float64Range(0, 20), rapid.Float64Range(0.000001, 100000), rapid.SampledFrom([]float64{1, 2.5, 0, 3.014, 1e-7, 1e21, 10}))
	register(Spec[hlsCase]{
		Prop: "C16", Name: "window", Quick: 24000, Pure: true,
		Rule: "playlists of capacity 1-12 after 0-60 segments, rendered at the end and at a point before: entries against the list of all segments ever added, read by an independent parser; non-trivial: the ring has wrapped around",
		Gen: func(t *rapid.T) hlsCase {
			c := hlsCase{URI: "https://example.com/media", Name: "/var/video.ts", Cap: rapid.IntRange(1, 12).Draw(t, "cap")}
			n := rapid.IntRange(0, 60).Draw(t, "n")
			for i := 0; i < n; i++ {
				c.Segs = append(c.Segs, segment{genDur.Draw(t, "d"), rapid.OneOf(rapid.Int64Range(0, 1<<20), rapid.Int64Range(0, 1<<40)).Draw(t, "l")})
			}
			c.RenderAt = rapid.IntRange(0, 60).Draw(t, "at")
			return c
		},
		Nontrivial: func(c hlsCase) bool { return len(c.Segs) > c.Cap },
		Labels: func(c hlsCase) []string {
			return []string{fmt.Sprintf("%d times around", min(3, len(c.Segs)/c.Cap))}
		},
		Run: runHLS,
	})
	register(Spec[hlsCase]{
		Prop: "C16", Name: "small-rings", Pure: true,
		Rule: "every capacity 1-16 with every number of segments 0-70; non-trivial: the ring has wrapped around",
		Enum: func(thorough bool, yield func(hlsCase) bool) {
			for k := 1; k <= 16; k++ {
				for n := 0; n <= 70; n++ {
					c := hlsCase{URI: "http://h/", Name: "v.ts", Cap: k, RenderAt: n / 2}
					for i := 0; i < n; i++ {
						c.Segs = append(c.Segs, segment{float64(i) + 0.25, int64(i*i + 1)})
					}
					if !yield(c) {
						return
					}
				}
			}
		},
		Nontrivial: func(c hlsCase) bool { return len(c.Segs) > c.Cap },
		Run:        runHLS,
	})
	nameRune := rapid.SampledFrom([]rune("abzXY019._-~ %#?&=+;:@,!$'()*<>[]{}|^`\"\\éß漢字\u00a0😀"))
	register(Spec[uriCase]{
		Prop: "C17", Name: "addresses", Quick: 24000, Pure: true,
		Rule: "base URIs (absolute with ports and queries, absolute and relative paths, dots, doubled and trailing slashes, escapes) and file names of up to 12 characters with every special character: the entry is taken apart and decoded by hand; non-trivial: the name needs escaping or the path cleaning",
		Gen: func(t *rapid.T) uriCase {
			c := uriCase{
				Scheme: rapid.SampledFrom([]string{"http", "https", "https", ""}).Draw(t, "scheme"),
				Host:   rapid.SampledFrom([]string{"example.com", "example.com:8080", "10.0.0.1:80", "[::1]:8443", "h"}).Draw(t, "host"),
				Query:  rapid.SampledFrom([]string{"", "", "a=b", "token=x%2Fy&z=/w", "q=?"}).Draw(t, "query"),
				Dir:    rapid.SampledFrom([]string{"", "/var/media/", "rel/", "/a b/", "/x/../y/"}).Draw(t, "dir"),
			}
			segs := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "media", "b%20c", "..", ".", "", "x.y", "%C3%A9", "100%25"}), 0, 5).Draw(t, "segments")
			c.Path = strings.Join(segs, "/")
			if len(segs) > 0 || rapid.Bool().Draw(t, "root") {
				c.Path = "/" + c.Path
			}
			if c.Scheme == "" {
				// Two slashes would start an authority.
				c.Path = strings.Replace(c.Path, "//", "/", -1)
				for strings.HasPrefix(c.Path, "//") {
					c.Path = c.Path[1:]
				}
				if rapid.Bool().Draw(t, "relative") {
					c.Path = "rel" + c.Path
				} else if !strings.HasPrefix(c.Path, "/") {
					c.Path = "/" + c.Path
				}
			}
			c.Name = rapid.StringOfN(nameRune, 1, 12, -1).Filter(func(s string) bool { return s != "." && s != ".." }).Draw(t, "name")
			if rapid.IntRange(0, 39).Draw(t, "long") == 0 {
				c.Name += strings.Repeat("n é", rapid.IntRange(1, 3000).Draw(t, "length"))
				c.Path = strings.TrimSuffix(c.Path, "/") + "/" + strings.Repeat("p%20/", rapid.IntRange(1, 300).Draw(t, "length")) + "p"
			}
			if !strings.HasPrefix(path.Clean(c.Path), "/") && c.Scheme == "" && strings.HasPrefix(path.Clean(c.Path), "..") {
				c.Path = "rel"
			}
			if c.Scheme == "" && strings.Contains(path.Clean(c.Path+"/x"), ":") {
				c.Path = "/"
			}
			if c.Scheme == "" && !strings.HasPrefix(c.Path, "/") && path.Clean(c.Path) == "." {
				c.Path = "rel" // a name with a colon would otherwise come first
			}
			return c
		},
		Nontrivial: func(c uriCase) bool {
			return strings.ContainsAny(c.Name, " %#?é漢字\u00a0") || path.Clean(c.Path) != c.Path
		},
		Run: runURI,
	})
	register(Spec[uriCase]{
		Prop: "C17", Name: "bad-base", Pure: true,
		Rule: "base URIs that net/url cannot parse (bad ports, brackets, escapes, control characters): NewPlaylist returns an error",
		Enum: func(_ bool, yield func(uriCase) bool) {
			for _, u := range []string{"http://[::1", "http://h:port/", "http://%zz/", "http://h/%zz", "http://h/%2", "://h/x", "http://h/\x7f", "http://a b/", "http://h/a\nb", "1http:x:y%", "http://h:1:2/", ":", "http://[fe80::1%25en0/"} {
				if _, err := url.Parse(u); err != nil {
					if !yield(uriCase{Path: u, Name: "v.ts"}) {
						return
					}
				}
			}
		},
		Run: func(c uriCase) error {
			pl, err := hls.NewPlaylist(c.Path, c.Name, 3, 4)
			if err == nil {
				return fmt.Errorf("%q accepted: %v", c.Path, pl)
			}
			return nil
		},
	})
}
