package main

// A scripted camera on the loopback interface and the reference session model that drives it.

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"pgregory.net/rapid"
)

// camStream is one video stream of a camera.
type camStream struct {
	Control   string // relative, or the path of an absolute URI
	Elsewhere bool   // the absolute URI names another host
	Absolute  bool
	Refuse    int  // status of the answer to SETUP, 0 for 200
	Codec     int  // index into codecs
	Audio     bool // an audio stream is described before it
}

var codecs = []string{
	"a=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1;profile-level-id=42001E;sprop-parameter-sets=Z0IAHpWoKA9k,aM48gA==\r\n",
	"a=rtpmap:96 H264/90000\r\n",
	"a=rtpmap:96 H265/90000\r\n",
	"a=rtpmap:26 JPEG/90000\r\n",
	"a=fmtp:97 profile-level-id=1;config=000001B001\r\na=rtpmap:97 MP4V-ES/90000\r\n",
}

// authPlan says when and how a camera demands credentials.
type authPlan struct {
	On        bool
	Ch        challenge
	Start     int   // index of the request (in order of first transmission) from which on credentials are demanded
	Rotate    []int // indices at which a new nonce is demanded
	FreshEach bool  // every 401 carries a nonce of its own
	Either    int   // 1, 2: the camera takes Basic as well, and says so in a header line before or after that of Ch
}

// camSpec describes a camera and the session with it.
type camSpec struct {
	Proto      int
	Path       string
	User, Pass string
	NoUser     bool
	NoPass     bool      // the URI names a user but no password
	Glued      []mixItem // packets sent in the same breath as the answer that establishes the tunnel
	Streams    []camStream
	Session    string
	SessParam  string // what follows the id in the Session header
	Auth       authPlan
	Order      []int // SETUP answers are held back and sent in this order; empty: each at once
	Style      int   // spelling of the answers
	Tunnel     int   // spelling of the answer to GET
	Cuts       []int
	Lag        int  // milliseconds the user of the client takes before looking for each of the first stages and packets
	Quiet      bool // the session id is only in the first answer to SETUP
	Moved      bool // answers to SETUP state other client ports or channels than those offered
	Echo       int  // every so many answers are sent twice, or followed by one that nobody asked for; 0: none
	OwnAddr    bool // use a local address other than 127.0.0.1, if there is one
}

// camera is the server side of one case.
type camera struct {
	ln    net.Listener
	http  *httpPlan
	reqs  chan camReq
	mu    sync.Mutex
	raw   []*rawConn
	heads []*httpHead
	out   net.Conn // carries answers and interleaved packets
	ready chan struct{}
	cuts  []int
	wmu   sync.Mutex
}

type rawConn struct {
	mu   sync.Mutex
	b    []byte
	conn net.Conn
}

type httpPlan struct {
	answer []byte
	cuts   []int
	strict bool
}

type httpHead struct {
	method, uri, proto string
	header             map[string]string
	conn               int
}

type camReq struct {
	m   *message
	err error
}

func (r *rawConn) Read(b []byte) (int, error) {
	n, err := r.conn.Read(b)
	r.mu.Lock()
	r.b = append(r.b, b[:n]...)
	r.mu.Unlock()
	return n, err
}

func (r *rawConn) bytes() []byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]byte{}, r.b...)
}

func newCamera(host string, hp *httpPlan) (*camera, error) {
	var ln net.Listener
	var err error
	if host == "" {
		ln, err = listenLocal()
	} else {
		ln, err = net.Listen("tcp", net.JoinHostPort(host, "0"))
	}
	if err != nil {
		return nil, harnessBug{err}
	}
	c := &camera{ln: ln, http: hp, reqs: make(chan camReq, 10000), ready: make(chan struct{})}
	go c.accept()
	return c, nil
}

func (c *camera) addr() string { return c.ln.Addr().String() }

func (c *camera) accept() {
	for n := 0; ; n++ {
		conn, err := c.ln.Accept()
		if err != nil {
			return
		}
		rc := &rawConn{conn: conn}
		c.mu.Lock()
		c.raw = append(c.raw, rc)
		c.mu.Unlock()
		if c.http == nil {
			if n > 0 {
				c.reqs <- camReq{err: fmt.Errorf("the client opened a second connection")}
				continue
			}
			c.out = conn
			close(c.ready)
			go c.serve(bufio.NewReader(rc))
			continue
		}
		go c.tunnel(rc, n)
	}
}

// serve splits a stream into requests.
func (c *camera) serve(rd *bufio.Reader) {
	for {
		head, err := readHead(rd)
		if err != nil {
			if err == io.EOF && len(head) == 0 {
				c.reqs <- camReq{err: errHangup}
			} else if !errors.Is(err, net.ErrClosed) {
				c.reqs <- camReq{err: fmt.Errorf("request cut short: %q, %v", head, err)}
			}
			return
		}
		m, err := parseRequest(head)
		if err == nil {
			m.At = time.Now()
			if l := m.get("Content-Length"); l != "" && l != "0" {
				err = fmt.Errorf("a body of %s bytes in %q", l, head)
			}
		}
		c.reqs <- camReq{m, err}
		if err != nil {
			return
		}
	}
}

var errHangup = errors.New("the client closed the connection")

func readHead(rd *bufio.Reader) ([]byte, error) {
	var b []byte
	for {
		l, err := rd.ReadSlice('\n')
		b = append(b, l...)
		if err != nil && err != bufio.ErrBufferFull {
			return b, err
		}
		if bytes.HasSuffix(b, []byte("\r\n\r\n")) {
			return b, nil
		}
		if len(b) > 1<<20 {
			return b, fmt.Errorf("endless header")
		}
	}
}

// base64Stream decodes base64 text in which every quantum may be padded.
type base64Stream struct {
	rd  *bufio.Reader
	out []byte
}

func (s *base64Stream) Read(b []byte) (int, error) {
	for len(s.out) == 0 {
		var q [4]byte
		for n := 0; n < 4; {
			ch, err := s.rd.ReadByte()
			if err != nil {
				if n > 0 && err == io.EOF {
					err = fmt.Errorf("base64 text cut short")
				}
				return 0, err
			}
			if ch == '\r' || ch == '\n' {
				continue
			}
			q[n] = ch
			n++
		}
		d, err := base64.StdEncoding.DecodeString(string(q[:]))
		if err != nil {
			return 0, fmt.Errorf("not base64: %q", q[:])
		}
		s.out = d
	}
	n := copy(b, s.out)
	s.out = s.out[n:]
	return n, nil
}

func (c *camera) tunnel(rc *rawConn, n int) {
	rd := bufio.NewReader(rc)
	b, err := readHead(rd)
	if err != nil {
		if !errors.Is(err, net.ErrClosed) {
			c.reqs <- camReq{err: fmt.Errorf("HTTP request cut short: %q, %v", b, err)}
		}
		return
	}
	lines := strings.Split(strings.TrimSuffix(string(b), "\r\n\r\n"), "\r\n")
	f := strings.Split(lines[0], " ")
	if len(f) != 3 {
		c.reqs <- camReq{err: fmt.Errorf("HTTP request line %q", lines[0])}
		return
	}
	h := &httpHead{method: f[0], uri: f[1], proto: f[2], header: map[string]string{}, conn: n}
	for _, l := range lines[1:] {
		i := strings.IndexByte(l, ':')
		if i <= 0 {
			c.reqs <- camReq{err: fmt.Errorf("HTTP header line %q", l)}
			return
		}
		name := strings.ToLower(l[:i])
		if _, dup := h.header[name]; dup {
			c.reqs <- camReq{err: fmt.Errorf("HTTP header %s given twice", name)}
			return
		}
		h.header[name] = strings.TrimSpace(l[i+1:])
	}
	c.mu.Lock()
	c.heads = append(c.heads, h)
	first := true
	for _, o := range c.heads[:len(c.heads)-1] {
		first = first && o.method != h.method
	}
	c.mu.Unlock()
	switch {
	case h.method == "GET" && first:
		writeCut(rc.conn, c.http.answer, c.http.cuts)
		c.out = rc.conn
		close(c.ready)
		for {
			if ch, err := rd.ReadByte(); err == nil {
				c.reqs <- camReq{err: fmt.Errorf("byte %q on the GET connection", ch)}
				return
			} else {
				return
			}
		}
	case h.method == "POST" && first:
		c.serve(bufio.NewReader(&base64Stream{rd: rd}))
	default:
		c.reqs <- camReq{err: fmt.Errorf("unexpected HTTP request %q", lines[0])}
	}
}

func (c *camera) send(b []byte) error {
	select {
	case <-c.ready:
	case <-time.After(wait()):
		return latef("no connection to send on")
	}
	c.wmu.Lock()
	defer c.wmu.Unlock()
	c.out.SetWriteDeadline(time.Now().Add(2 * wait()))
	if err := writeCut(c.out, b, c.cuts); err != nil {
		if isTimeout(err) {
			return latef("the client does not read: %v", err)
		}
		return fmt.Errorf("the client closed the connection: %v", err)
	}
	return nil
}

// next waits for the next request.
func (c *camera) next() (*message, error) {
	select {
	case r := <-c.reqs:
		return r.m, r.err
	case <-time.After(wait()):
		return nil, latef("no request")
	}
}

// pending returns what has arrived beyond the requests taken so far.
func (c *camera) pending(d time.Duration) error {
	select {
	case r := <-c.reqs:
		if r.err != nil {
			return r.err
		}
		return fmt.Errorf("unexpected request %q", r.m.Raw)
	case <-time.After(d):
		return nil
	}
}

func (c *camera) close() {
	c.ln.Close()
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, r := range c.raw {
		r.conn.Close()
	}
}

// client is the side of the code under test.
type client struct {
	s       *rtsp.Session
	opened  chan error
	states  chan int
	packets chan rtsp.RawPacket
	quit    chan struct{}
}

// openClient opens a session.  Its user takes lag before looking for each of the first stages and packets.
func openClient(uri string, proto int, lag time.Duration) *client {
	return openSession(rtsp.NewSession(), uri, proto, lag)
}

func openSession(s *rtsp.Session, uri string, proto int, lag time.Duration) *client {
	c := &client{s: s, opened: make(chan error, 1), states: make(chan int, 10000), packets: make(chan rtsp.RawPacket, 100000), quit: make(chan struct{})}
	idle := func() <-chan time.Time {
		select {
		case <-c.quit:
			return time.After(300 * time.Millisecond)
		default:
			return nil
		}
	}
	dawdle := func(left *time.Duration) {
		if *left > 0 {
			time.Sleep(lag)
			*left -= lag
		}
	}
	go func() {
		quit, left := c.quit, 15*lag
		for {
			dawdle(&left)
			select {
			case st := <-c.s.State:
				c.states <- st
			case <-quit:
				quit = nil
			case <-idle():
				return
			}
		}
	}()
	go func() {
		err := guard(func() error { return reallyOpen(c.s, uri, proto) })
		if err == nil {
			go func() {
				quit, left := c.quit, 15*lag
				for {
					dawdle(&left)
					select {
					case p := <-c.s.Data:
						c.packets <- p
					case <-quit:
						quit = nil
					case <-idle():
						return
					}
				}
			}()
		}
		c.opened <- err
	}()
	return c
}

// reallyOpen opens a session, and sees to it that there is one if that is said to have worked.
func reallyOpen(s *rtsp.Session, uri string, proto int) error {
	err := s.Open(uri, proto)
	if err == nil && s.Conn == nil {
		return errors.New("Open returns no error, but the session has no connection")
	}
	return err
}

func (c *client) state() (int, error) {
	select {
	case s := <-c.states:
		return s, nil
	case <-time.After(wait()):
		return 0, latef("no stage reported")
	}
}

func (c *client) packet() (rtsp.RawPacket, error) {
	select {
	case p := <-c.packets:
		return p, nil
	case <-time.After(wait()):
		return rtsp.RawPacket{}, latef("no packet")
	}
}

var stageNames = map[int]string{rtsp.StageInit: "init", rtsp.StageReady: "ready", rtsp.StagePlay: "play", rtsp.StagePause: "pause", rtsp.StageDone: "done"}

// answer is a response of the camera.
type answer struct {
	Code   int
	Header [][2]string
	Body   []byte
}

var reasons = map[int]string{200: "OK", 401: "Unauthorized", 404: "Not Found", 454: "Session Not Found", 455: "Method Not Valid in This State", 461: "Unsupported transport"}

func (a answer) wire(cseq, style int) []byte {
	var b bytes.Buffer
	reason := reasons[a.Code]
	if reason == "" {
		reason = "Whatever"
	}
	fmt.Fprintf(&b, "RTSP/1.0 %d %s\r\n", a.Code, reason)
	hs := append([][2]string{{"CSeq", strconv.Itoa(cseq)}, {"Server", "camera"}}, a.Header...)
	if a.Body != nil {
		hs = append(hs, [2]string{"Content-Length", strconv.Itoa(len(a.Body))})
	}
	for i := range hs {
		h := hs[(i+style/3)%len(hs)]
		name := h[0]
		switch style % 3 {
		case 1:
			name = strings.ToLower(name)
		case 2:
			name = strings.ToUpper(name)
		}
		sep := ": "
		if style%5 == 4 {
			sep = ":"
		}
		b.WriteString(name + sep + h[1] + "\r\n")
	}
	b.WriteString("\r\n")
	b.Write(a.Body)
	return b.Bytes()
}

func frame(ch byte, payload []byte) []byte {
	b := []byte{'$', ch, byte(len(payload) >> 8), byte(len(payload))}
	return append(b, payload...)
}

// run is one session between the client and a camera, followed by the reference model.
type run struct {
	spec       camSpec
	cam        *camera
	cl         *client
	base       string
	lastCseq   int
	k          int // requests transmitted for the first time so far
	challenged map[int]*demanded
	verifier   *verifier   // of the last challenge
	old        []*verifier // of earlier challenges
	rotated    int
	repeats    int
	session    string // id assigned by the server, once it has been sent
	fences     int
	answers    int
	loose      bool // requests may overtake each other
	gapless    bool // no sequence number may be left out
	offers     []string
	states     []int // reported so far
	concurrent bool
	readyFrom  time.Time   // set when the last SETUP answer is about to be sent
	alive      []time.Time // arrival of keep-alives
	want       []rtsp.RawPacket
	spans      [][2]int // answers in the stream of mixStream
	got        []rtsp.RawPacket
	gap        func() error // called before each answer of the handshake
	external   bool         // the client is another process: no stages, packets or result of Open to see
}

type demanded struct {
	m *message
	v *verifier
}

func (x *run) uri() string {
	user := ""
	if !x.spec.NoUser {
		user = url.UserPassword(x.spec.User, x.spec.Pass).String() + "@"
		if x.spec.NoPass {
			user = url.User(x.spec.User).String() + "@"
		}
	}
	return "rtsp://" + user + x.cam.addr() + x.spec.Path
}

// startRun opens a session; it returns when the client's Open is under way.
func startRun(spec camSpec) (*run, error) {
	x, err := newRun(spec)
	if err != nil {
		return nil, err
	}
	x.cl = openClient(x.uri(), spec.Proto, time.Duration(spec.Lag)*time.Millisecond)
	return x, nil
}

// tunnelAnswers are spellings of an answer that establishes a tunnel.
var tunnelAnswers = []string{
	"HTTP/1.0 200 OK\r\nServer: camera\r\nCache-Control: no-store\r\nPragma: no-cache\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n",
	"HTTP/1.0 200 OK\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n",
	"HTTP/1.0 200 OK\r\n\r\n",
	"HTTP/1.0 200 \r\ncontent-type:application/x-rtsp-tunnelled\r\n\r\n",
	"HTTP/1.0 200\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n",
	"HTTP/1.0 200 Here: you go 404\r\nDate: Thu, 19 Nov 2026 10:20:30 GMT\r\nServer: \r\nConnection: close\r\nContent-Type:   application/x-rtsp-tunnelled  \r\nX-Location: http://h:80/a\r\n\r\n",
	"HTTP/1.0 200 OK\r\nContent-Length: 2147483647\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n",
}

// newRun sets up a camera.
func newRun(spec camSpec) (*run, error) {
	host := ""
	if spec.OwnAddr && ownAddr != "" {
		host = ownAddr
	}
	var hp *httpPlan
	if spec.Proto == rtsp.ProtoHTTP {
		hp = &httpPlan{answer: []byte(tunnelAnswers[spec.Tunnel%len(tunnelAnswers)]), cuts: spec.Cuts}
	}
	cam, err := newCamera(host, hp)
	if err != nil {
		return nil, err
	}
	cam.cuts = spec.Cuts
	x := &run{spec: spec, cam: cam, challenged: map[int]*demanded{}}
	x.base = "rtsp://" + cam.addr() + spec.Path
	if hp != nil {
		for _, it := range spec.Glued {
			p := rtsp.RawPacket{Channel: it.Ch, Payload: it.Data.make()}
			x.want = append(x.want, p)
			hp.answer = append(hp.answer, frame(p.Channel, p.Payload)...)
		}
	}
	return x, nil
}

func (x *run) close() {
	x.cam.close()
	if x.cl != nil {
		close(x.cl.quit)
	}
}

func (x *run) send(m *message, a answer) error {
	if x.gap != nil {
		if err := x.gap(); err != nil {
			return err
		}
	}
	if err := x.cam.send(a.wire(m.cseq(), x.spec.Style)); err != nil {
		return err
	}
	x.answers++
	if x.spec.Echo == 0 || a.Code == 401 || x.answers%x.spec.Echo != 0 {
		return nil
	}
	again := m.cseq()
	if x.answers/x.spec.Echo%2 == 0 {
		again = 100000 + x.answers
	}
	return x.cam.send(a.wire(again, x.spec.Style))
}

func (x *run) demands(k int) bool { return x.spec.Auth.On && k >= x.spec.Auth.Start }

// demand sends a 401 for m.
func (x *run) demand(m *message, fresh bool) error {
	p := &x.spec.Auth
	if x.verifier == nil || fresh || p.FreshEach {
		ch := p.Ch
		if !ch.Basic && x.rotated > 0 {
			ch.Nonce += fmt.Sprintf("%d", x.rotated)
		}
		x.rotated++
		if x.verifier != nil {
			x.old = append(x.old, x.verifier)
		}
		x.verifier = &verifier{ch: ch, user: x.spec.User, pass: x.spec.Pass, anyNC: x.concurrent, basicToo: p.Either > 0}
	}
	x.challenged[m.cseq()] = &demanded{m, x.verifier}
	lines := [][2]string{{"WWW-Authenticate", x.verifier.ch.spelled()}}
	if basic := [2]string{"WWW-Authenticate", challenge{Basic: true, Realm: p.Ch.Realm}.plain()}; p.Either == 1 {
		lines = [][2]string{basic, lines[0]}
	} else if p.Either == 2 {
		lines = append(lines, basic)
	}
	return x.send(m, answer{Code: 401, Header: lines})
}

// accept waits for the next request that the camera is content with, challenging others as planned.  Keep-alives are
// answered and recorded on the way.
func (x *run) accept() (*message, error) {
	for {
		m, err := x.acceptAny()
		if err != nil || m.Method != "OPTIONS" || x.spec.Proto != rtsp.ProtoUnicast || x.readyFrom.IsZero() {
			return m, err
		}
		if err := x.keepAlive(m); err != nil {
			return nil, err
		}
	}
}

// keepAlive records and answers a keep-alive.
func (x *run) keepAlive(m *message) error {
	if m.URI != x.base || m.get("Session") != x.session {
		return fmt.Errorf("keep-alive with session %q instead of %q: %q", m.get("Session"), x.session, m.Raw)
	}
	x.alive = append(x.alive, m.At)
	n := len(x.alive)
	if d := m.At.Sub(x.readyFrom); d < time.Duration(n-1)*2*time.Second-50*time.Millisecond {
		return fmt.Errorf("%d keep-alives within %v", n, d)
	}
	if n > 1 {
		if d := m.At.Sub(x.alive[n-2]); d < 1500*time.Millisecond {
			return fmt.Errorf("keep-alive %v after the one before", d)
		}
	}
	return x.send(m, answer{Code: 200, Header: x.sessionHeader()})
}

func (x *run) acceptAny() (*message, error) {
	for {
		m, err := x.cam.next()
		if err != nil {
			return nil, err
		}
		if d, ok := x.challenged[m.cseq()]; ok {
			delete(x.challenged, m.cseq())
			if err := sameRequest(m, d.m); err != nil {
				return nil, err
			}
			if err := d.v.verify(m.get("Authorization"), m.Method, nil); err != nil {
				return nil, fmt.Errorf("repeated %s: %v", m.Method, err)
			}
			x.repeats++
			return m, nil
		}
		if !x.loose && m.cseq() <= x.lastCseq {
			return nil, fmt.Errorf("CSeq %d after %d in %q", m.cseq(), x.lastCseq, m.Raw)
		}
		if x.gapless && x.lastCseq > 0 && m.cseq() != x.lastCseq+1 {
			return nil, fmt.Errorf("CSeq %d after %d in %q: numbers are left out", m.cseq(), x.lastCseq, m.Raw)
		}
		if m.cseq() > x.lastCseq {
			x.lastCseq = m.cseq()
		}
		k := x.k
		x.k++
		if x.verifier == nil && m.has("Authorization") {
			return nil, fmt.Errorf("Authorization before it was asked for: %q", m.Raw)
		}
		if !x.demands(k) {
			return m, nil
		}
		if !m.has("Authorization") {
			if x.repeats > 0 && !x.concurrent {
				return nil, fmt.Errorf("no Authorization up front: %q", m.Raw)
			}
			if err := x.demand(m, false); err != nil {
				return nil, err
			}
			continue
		}
		if o := x.outdated(m); o != nil {
			// Sent before the client has seen the latest challenge.
			if err := o.verify(m.get("Authorization"), m.Method, nil); err != nil {
				return nil, fmt.Errorf("%s with Authorization up front: %v", m.Method, err)
			}
			if err := x.demand(m, false); err != nil {
				return nil, err
			}
			continue
		}
		if err := x.verifier.verify(m.get("Authorization"), m.Method, nil); err != nil {
			return nil, fmt.Errorf("%s with Authorization up front: %v", m.Method, err)
		}
		for _, r := range x.spec.Auth.Rotate {
			if r == k && !x.spec.Auth.Ch.Basic && isDigest(m) {
				if err := x.demand(m, true); err != nil {
					return nil, err
				}
				m = nil
				break
			}
		}
		if m != nil {
			return m, nil
		}
	}
}

// outdated returns the verifier of an earlier challenge that m answers, if the client need not know of a later one yet.
func (x *run) outdated(m *message) *verifier {
	if len(x.challenged) == 0 {
		return nil
	}
	if !isDigest(m) {
		return nil
	}
	v := m.get("Authorization")
	d, err := parseDirectives(v[7:])
	if err != nil || d["nonce"] == x.verifier.ch.Nonce {
		return nil
	}
	for _, o := range x.old {
		if o.ch.Nonce == d["nonce"] {
			return o
		}
	}
	return nil
}

func isDigest(m *message) bool {
	v := m.get("Authorization")
	return len(v) >= 7 && strings.EqualFold(v[:7], "Digest ")
}

// sameRequest verifies that m repeats o, with credentials.
func sameRequest(m, o *message) error {
	if m.Method != o.Method || m.URI != o.URI {
		return fmt.Errorf("%q repeated as %q", o.Raw, m.Raw)
	}
	for n, v := range o.Header {
		if w, ok := m.Header[n]; n != "authorization" && (!ok || w != v) {
			return fmt.Errorf("header %s is not repeated: %q repeated as %q", n, o.Raw, m.Raw)
		}
	}
	for n := range m.Header {
		if _, ok := o.Header[n]; n != "authorization" && !ok {
			return fmt.Errorf("header %s is new: %q repeated as %q", n, o.Raw, m.Raw)
		}
	}
	return nil
}

func (x *run) controlURI(s camStream) string {
	if s.Absolute {
		host := x.cam.addr()
		if s.Elsewhere {
			host = "media.example:8554"
		}
		return "rtsp://" + host + "/" + s.Control
	}
	return strings.TrimSuffix(x.base, "/") + "/" + s.Control
}

func (x *run) sdp() []byte {
	var b strings.Builder
	b.WriteString("v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=camera\r\nc=IN IP4 0.0.0.0\r\nt=0 0\r\na=control:*\r\n")
	for i, s := range x.spec.Streams {
		if s.Audio {
			fmt.Fprintf(&b, "m=audio 0 RTP/AVP 0\r\na=rtpmap:0 PCMU/8000\r\na=control:audio%d\r\n", i)
		}
		c := s.Control
		if s.Absolute {
			c = x.controlURI(s)
		}
		codec := codecs[s.Codec%len(codecs)]
		pt := "96"
		if i := strings.Index(codec, "rtpmap:"); i >= 0 {
			pt = codec[i+7 : i+9]
		}
		fmt.Fprintf(&b, "m=video 0 RTP/AVP %s\r\n", pt)
		if x.spec.Style%2 == 0 {
			fmt.Fprintf(&b, "a=control:%s\r\n%s", c, codec)
		} else {
			fmt.Fprintf(&b, "%sa=control:%s\r\n", codec, c)
		}
	}
	return []byte(b.String())
}

func (x *run) takeStates() {
	for {
		select {
		case s := <-x.cl.states:
			x.states = append(x.states, s)
		default:
			return
		}
	}
}

// handshake follows the client from OPTIONS to the ready stage.
func (x *run) handshake() error {
	m, err := x.accept()
	if err != nil {
		return fmt.Errorf("waiting for OPTIONS: %w", err)
	}
	if m.Method != "OPTIONS" || m.URI != x.base {
		return fmt.Errorf("%q instead of OPTIONS %s", m.Raw, x.base)
	}
	if err := x.send(m, answer{Code: 200, Header: [][2]string{{"Public", "OPTIONS, DESCRIBE, SETUP, TEARDOWN, PLAY, PAUSE"}}}); err != nil {
		return err
	}
	if m, err = x.accept(); err != nil {
		return fmt.Errorf("waiting for DESCRIBE: %w", err)
	}
	if m.Method != "DESCRIBE" || m.URI != x.base {
		return fmt.Errorf("%q instead of DESCRIBE %s", m.Raw, x.base)
	}
	if !strings.Contains(m.get("Accept"), "application/sdp") {
		return fmt.Errorf("DESCRIBE does not accept SDP: %q", m.Raw)
	}
	if err := x.send(m, answer{Code: 200, Header: [][2]string{{"Content-Type", "application/sdp"}}, Body: x.sdp()}); err != nil {
		return err
	}
	n := len(x.spec.Streams)
	held := make([]*message, n)
	bySeq := map[int]int{}
	answered := 0
	reply := func(i int) error {
		answered++
		if answered == n {
			if x.fences%2 == 0 && !x.external {
				if err := x.fence(); err != nil {
					return fmt.Errorf("before the last SETUP answer: %w", err)
				}
			}
			if !x.external {
				x.takeStates()
			}
			if len(x.states) > 0 {
				return fmt.Errorf("stage %s reported before every SETUP was answered", stageNames[x.states[0]])
			}
		}
		if answered == n {
			x.readyFrom = time.Now()
		}
		return x.send(held[i], x.setupAnswer(i, held[i]))
	}
	first := 0
	for got := 0; got < n; got++ {
		m, err := x.accept()
		if err != nil {
			return fmt.Errorf("waiting for SETUP %d of %d: %w", got+1, n, err)
		}
		i, ok := bySeq[m.cseq()]
		if !ok {
			if first == 0 {
				first = m.cseq()
			}
			i = got // without challenges the order of arrival is that of the sequence numbers
			if x.spec.Auth.On {
				i = x.setupIndex(m)
			}
			bySeq[m.cseq()] = i
		}
		if i < 0 || i >= n || held[i] != nil || m.Method != "SETUP" || m.URI != x.controlURI(x.spec.Streams[i]) {
			return fmt.Errorf("SETUP of stream %d (%s) expected, got %q", i, x.controlURI(x.spec.Streams[(i+n)%n]), m.Raw)
		}
		held[i] = m
		if len(x.spec.Order) == 0 {
			if err := reply(i); err != nil {
				return err
			}
		}
	}
	x.offers = nil
	last := 0
	for i, m := range held {
		x.offers = append(x.offers, m.get("Transport"))
		if m.cseq() <= last {
			return fmt.Errorf("SETUP of stream %d has CSeq %d after %d", i, m.cseq(), last)
		}
		last = m.cseq()
	}
	if err := checkOffers(x.spec.Proto, x.offers); err != nil {
		return err
	}
	if len(x.spec.Order) > 0 {
		for _, i := range x.order() {
			if err := reply(i); err != nil {
				return err
			}
		}
	}
	if x.external {
		return nil
	}
	st, err := x.cl.state()
	if err != nil {
		return fmt.Errorf("every SETUP was answered: %w", err)
	}
	if st != rtsp.StageReady {
		return fmt.Errorf("stage %s reported instead of ready", stageNames[st])
	}
	select {
	case err := <-x.cl.opened:
		if err != nil {
			return fmt.Errorf("Open: %v", err)
		}
	case <-time.After(wait()):
		return latef("Open does not return")
	}
	return nil
}

// order is a permutation of the streams made of spec.Order.
func (x *run) order() []int {
	n := len(x.spec.Streams)
	var out []int
	used := make([]bool, n)
	for _, o := range x.spec.Order {
		o %= n
		if !used[o] {
			used[o] = true
			out = append(out, o)
		}
	}
	for i := range used {
		if !used[i] {
			out = append(out, i)
		}
	}
	return out
}

// setupIndex finds the stream a SETUP is for by its URI (unique in every spec).
func (x *run) setupIndex(m *message) int {
	for i, s := range x.spec.Streams {
		if m.URI == x.controlURI(s) {
			return i
		}
	}
	return -1
}

func movePair(s string, d int) string {
	a, b, _ := refPair(s, 65535)
	return fmt.Sprintf("%d-%d", a+d, b+d)
}

// clientPorts are those negotiated for a stream of an UDP session.
func (x *run) clientPorts(i int) (data, control int) {
	_, ps, _ := splitTransport(x.offers[i])
	v := ps["client_port"]
	if x.spec.Moved {
		v = movePair(v, -30000)
	}
	data, control, _ = refPair(v, 65535)
	return
}

// sessionHeader is what an answer to a command says about the session.
func (x *run) sessionHeader() [][2]string {
	if x.session == "" || x.spec.Quiet {
		return nil
	}
	return [][2]string{{"Session", x.session + x.spec.SessParam}}
}

func (x *run) setupAnswer(i int, m *message) answer {
	s := x.spec.Streams[i]
	if s.Refuse != 0 {
		return answer{Code: s.Refuse}
	}
	a := answer{Code: 200}
	if x.spec.Session != "" && (x.session == "" || !x.spec.Quiet) {
		x.session = x.spec.Session
		a.Header = append(a.Header, [2]string{"Session", x.spec.Session + x.spec.SessParam})
	}
	_, ps, _ := splitTransport(m.get("Transport"))
	var t string
	if v, ok := ps["interleaved"]; ok {
		if x.spec.Moved {
			v = movePair(v, 100)
		}
		t = []string{"RTP/AVP/TCP;unicast;interleaved=" + v, "RTP/AVP/TCP;interleaved=" + v + ";ssrc=1234ABCD", "RTP/AVP/TCP;unicast;destination=127.0.0.1;mode=\"PLAY\";interleaved=" + v}[x.spec.Style%3]
	} else {
		v := ps["client_port"]
		if x.spec.Moved {
			v = movePair(v, -30000)
		}
		t = []string{"RTP/AVP;unicast;client_port=" + v + ";server_port=6970-6971", "RTP/AVP/UDP;unicast;server_port=6970-6971;ssrc=1234ABCD;client_port=" + v, "RTP/AVP;unicast;source=127.0.0.1;client_port=" + v}[x.spec.Style%3]
	}
	a.Header = append(a.Header, [2]string{"Transport", t})
	return a
}

// fence sends an interleaved packet and waits until the client delivers it: what was sent before has been handled then.
func (x *run) fence() error {
	x.fences++
	body := []byte(fmt.Sprintf("fence %d", x.fences))
	if err := x.cam.send(frame(254, body)); err != nil {
		return err
	}
	x.want = append(x.want, rtsp.RawPacket{Channel: 254, Payload: body})
	return x.drain()
}

// drain waits for the packets that were sent and compares them.
func (x *run) drain() error {
	for len(x.got) < len(x.want) {
		i := len(x.got)
		w := x.want[i]
		p, err := x.cl.packet()
		if err != nil {
			return fmt.Errorf("interleaved packet %d (%d bytes on channel %d): %w", i, len(w.Payload), w.Channel, err)
		}
		if err := samePacket(p, w); err != nil {
			return fmt.Errorf("interleaved packet %d: %v", i, err)
		}
		x.got = append(x.got, p)
	}
	return nil
}

func samePacket(p, w rtsp.RawPacket) error {
	if p.Channel != w.Channel {
		return fmt.Errorf("channel %d instead of %d", p.Channel, w.Channel)
	}
	if !bytes.Equal(p.Payload, w.Payload) {
		return fmt.Errorf("%d bytes differ from the %d sent at %d: %q", len(p.Payload), len(w.Payload), firstDiff(p.Payload, w.Payload), truncate(string(p.Payload), 100))
	}
	return nil
}

// issue calls a command of the client.
func (x *run) issue(verb string) error {
	f := map[string]func() error{"PLAY": x.cl.s.Play, "PAUSE": x.cl.s.Pause, "TEARDOWN": x.cl.s.Teardown, "OPTIONS": x.cl.s.Options}[verb]
	done := make(chan error, 1)
	go func() { done <- guard(f) }()
	select {
	case err := <-done:
		if err != nil {
			return fmt.Errorf("%s: %w", verb, err)
		}
		return nil
	case <-time.After(wait()):
		return latef("%s does not return", verb)
	}
}

// checkCommand verifies a PLAY, PAUSE or TEARDOWN request.
func (x *run) checkCommand(m *message, verb string) error {
	if m.Method != verb || m.URI != x.base {
		return fmt.Errorf("%q instead of %s %s", m.Raw, verb, x.base)
	}
	if verb != "OPTIONS" && m.get("Session") != x.session {
		return fmt.Errorf("session %q instead of %q in %q", m.get("Session"), x.session, m.Raw)
	}
	return nil
}

var stageOf = map[string]int{"PLAY": rtsp.StagePlay, "PAUSE": rtsp.StagePause, "TEARDOWN": rtsp.StageDone}

// command issues a command, answers it with 200 and waits for the stage.
func (x *run) command(verb string) error {
	if err := x.issue(verb); err != nil {
		return err
	}
	m, err := x.accept()
	if err != nil {
		return fmt.Errorf("waiting for %s: %w", verb, err)
	}
	if err := x.checkCommand(m, verb); err != nil {
		return err
	}
	if err := x.send(m, answer{Code: 200, Header: x.sessionHeader()}); err != nil {
		return err
	}
	st, err := x.cl.state()
	if err != nil {
		return fmt.Errorf("%s was answered: %w", verb, err)
	}
	if st != stageOf[verb] {
		return fmt.Errorf("stage %s reported for %s", stageNames[st], verb)
	}
	return nil
}

// settled verifies that nothing but what was expected has happened.
func (x *run) settled() error {
	if err := x.fence(); err != nil {
		return err
	}
	if x.takeStates(); len(x.states) > 0 {
		return fmt.Errorf("stage %s reported once more", stageNames[x.states[0]])
	}
	if x.spec.Proto == rtsp.ProtoUnicast {
		return nil // keep-alives may come at any time
	}
	return x.cam.pending(0)
}

// generators

var genUser = rapid.Custom(func(t *rapid.T) string {
	return strings.Replace(rapid.StringOfN(textRune, 1, 20, -1).Draw(t, "text"), ":", ";", -1)
})

// genPath makes what follows host and port in the URI of a camera, as it goes over the wire.
var genPath = rapid.OneOf(
	rapid.SampledFrom([]string{"/live", "/Streaming/Channels/101", "/a/b%20c/d", "/cam", "/video.mp4", "/h264/%C3%A9", "", "/", "/live/", "/cam/realmonitor?channel=1&subtype=0", "/live?token=a%2Fb"}),
	rapid.Custom(func(t *rapid.T) string {
		char := rapid.OneOf(rapid.SampledFrom(strings.Split("abcXYZ0189-._~!$&'()*+,;=:@", "")), rapid.SampledFrom([]string{"%20", "%2F", "%3F", "%23", "%25", "%C3%A9", "%40", "%7E"}))
		p := ""
		for i := rapid.IntRange(1, 4).Draw(t, "segments"); i > 0; i-- {
			p += "/" + strings.Join(rapid.SliceOfN(char, 1, 12).Draw(t, "segment"), "")
		}
		if rapid.IntRange(0, 15).Draw(t, "long") == 0 {
			p += "/" + strings.Repeat(char.Draw(t, "character"), rapid.IntRange(100, 3000).Draw(t, "times"))
		}
		if rapid.IntRange(0, 3).Draw(t, "query") == 0 {
			p += "?" + strings.Join(rapid.SliceOfN(rapid.OneOf(char, rapid.SampledFrom([]string{"/", "?"})), 0, 12).Draw(t, "query text"), "")
			p = strings.TrimRight(p, "/")
		}
		return p
	}))

func genStreams(t *rapid.T, max int) []camStream {
	n := rapid.IntRange(1, max).Draw(t, "streams")
	var out []camStream
	for i := 0; i < n; i++ {
		s := camStream{
			Control:   rapid.SampledFrom([]string{"trackID=%d", "streamid=%d", "track%d", "video/%d", "Video-%d?x=y", "track%d?from=http://a/b", "track%d?of=rtsp://a/b", "%d", "a%%20b/track=%d;s=1"}).Draw(t, "control"),
			Absolute:  rapid.IntRange(0, 3).Draw(t, "absolute") == 0,
			Elsewhere: rapid.IntRange(0, 3).Draw(t, "elsewhere") == 0,
			Codec:     rapid.IntRange(0, len(codecs)-1).Draw(t, "codec"),
			Audio:     rapid.IntRange(0, 3).Draw(t, "audio") == 0,
		}
		s.Control = fmt.Sprintf(s.Control, i)
		if rapid.IntRange(0, 15).Draw(t, "long control") == 0 {
			s.Control += strings.Repeat(rapid.SampledFrom([]string{"x", "/y", ";z=1"}).Draw(t, "of"), rapid.IntRange(50, 1000).Draw(t, "times"))
		}
		out = append(out, s)
	}
	return out
}

func genSpec(t *rapid.T, proto, maxStreams int) camSpec {
	s := camSpec{
		Proto: proto, Path: genPath.Draw(t, "path"),
		User:      rapid.OneOf(rapid.SampledFrom([]string{"admin", "root", "us er", "o'neil", "ü", ""}), genUser).Draw(t, "user"),
		Pass:      rapid.OneOf(rapid.SampledFrom([]string{"12345", "", "p@ss:w/rd", "100%", "пароль", "a b"}), rapid.StringOfN(textRune, 0, 30, -1)).Draw(t, "pass"),
		Streams:   genStreams(t, maxStreams),
		Session:   rapid.OneOf(rapid.SampledFrom([]string{"12345678", "A1B2-C3.D4_E5", "0", "X+Y"}), rapid.StringOfN(rapid.SampledFrom([]rune("abcXYZ0189-._+$")), 1, 200, -1)).Draw(t, "session"),
		SessParam: rapid.SampledFrom([]string{"", ";timeout=60", "; timeout=60", " ; timeout=60", ";timeout=5;x=y"}).Draw(t, "session parameters"),
		Style:     rapid.IntRange(0, 29).Draw(t, "style"),
		Cuts:      genSmallCuts.Draw(t, "cuts"),
		OwnAddr:   rapid.Bool().Draw(t, "address"),
	}
	s.Quiet = rapid.IntRange(0, 3).Draw(t, "quiet") == 0
	s.Moved = rapid.IntRange(0, 3).Draw(t, "moved") == 0
	s.NoUser = rapid.IntRange(0, 4).Draw(t, "no user") == 0
	if s.User == "" && s.Pass == "" {
		s.Pass = "secret"
	}
	if s.User != "" && rapid.IntRange(0, 7).Draw(t, "no password") == 0 {
		s.NoPass, s.Pass = true, ""
	}
	if rapid.IntRange(0, 3).Draw(t, "hold back") == 0 {
		s.Order = rapid.SliceOfN(rapid.IntRange(0, 5), 1, 6).Draw(t, "order")
	}
	if rapid.IntRange(0, 5).Draw(t, "answers too many") == 0 {
		s.Echo = rapid.IntRange(1, 4).Draw(t, "every")
	}
	if rapid.IntRange(0, 7).Draw(t, "slow user") == 0 {
		s.Lag = rapid.SampledFrom([]int{1, 4, 20}).Draw(t, "lag")
	}
	return s
}

var genSmallCuts = rapid.OneOf(rapid.Just([]int(nil)), rapid.Just([]int(nil)), rapid.SliceOfN(rapid.IntRange(1, 40), 1, 3), rapid.SliceOfN(rapid.IntRange(1, 4), 1, 2))

func genAuth(t *rapid.T, requests int) authPlan {
	p := authPlan{On: true, Ch: genChallenge(t), Start: rapid.IntRange(0, requests-1).Draw(t, "challenged from"), FreshEach: rapid.IntRange(0, 2).Draw(t, "fresh nonces") == 0}
	// Realm and nonce as cameras send them: white space at the ends would be indistinguishable after parsing of the header.
	if rapid.IntRange(0, 4).Draw(t, "either") == 0 {
		p.Either = rapid.IntRange(1, 2).Draw(t, "before or after")
	}
	for i := rapid.IntRange(0, 2).Draw(t, "rotations"); i > 0; i-- {
		p.Rotate = append(p.Rotate, rapid.IntRange(p.Start+1, requests+3).Draw(t, "rotate at"))
	}
	return p
}
