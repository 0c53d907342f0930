package main

// C34 and C35: opening sessions by URI, and connections as a two-way stream of bytes.

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"pgregory.net/rapid"
)

// address is a camera's address and how a URI writes it.
type address struct {
	Proto   int
	Host    string // the host as written
	NoPort  bool   // at the default port
	Scheme  string
	User    string
	Pass    string
	HasUser bool
	NoPass  bool   // a user name only
	Path    string // as written, with escapes and query
}

// listen opens the listener that the address leads to; if the system does not have it, another one.
func (a *address) listen() (net.Listener, error) {
	host, port := strings.Trim(a.Host, "[]"), "0"
	if a.NoPort {
		port = "554"
	}
	for i := 0; ; i++ {
		ln, err := net.Listen("tcp", net.JoinHostPort(strings.ToLower(host), port))
		if err == nil {
			return ln, nil
		}
		if !errors.Is(err, syscall.EADDRINUSE) || i == 100 {
			break
		}
		time.Sleep(10 * time.Millisecond) // another worker has the port
	}
	ln, err := listenLocal()
	if err != nil {
		return nil, harnessBug{err}
	}
	a.Host, a.NoPort = ln.Addr().(*net.TCPAddr).IP.String(), false
	return ln, nil
}

func (a address) uri(ln net.Listener) string {
	u := a.Scheme + "://"
	if a.HasUser {
		if a.NoPass {
			u += url.User(a.User).String() + "@"
		} else {
			u += url.UserPassword(a.User, a.Pass).String() + "@"
		}
	}
	u += a.Host
	if !a.NoPort {
		u += fmt.Sprintf(":%d", ln.Addr().(*net.TCPAddr).Port)
	}
	return u + a.Path
}

// sameTarget compares a request URI with the one that was opened.
func sameTarget(got, opened string) error {
	g, err := url.Parse(got)
	if err != nil {
		return fmt.Errorf("request for %q: %v", got, err)
	}
	w, err := url.Parse(opened)
	if err != nil {
		return harnessBug{err}
	}
	port := func(u *url.URL) string {
		if u.Port() == "" {
			return "554"
		}
		return u.Port()
	}
	path := func(u *url.URL) string {
		if u.EscapedPath() == "" {
			return "/"
		}
		return u.EscapedPath()
	}
	if g.User != nil {
		return fmt.Errorf("request for %q, with user information", got)
	}
	if g.Scheme != w.Scheme || !strings.EqualFold(g.Hostname(), w.Hostname()) || port(g) != port(w) || path(g) != path(w) || g.RawQuery != w.RawQuery {
		return fmt.Errorf("request for %q, opened was %q", got, opened)
	}
	return nil
}

func genAddress(t *rapid.T) address {
	a := address{
		Proto:  rapid.SampledFrom([]int{rtsp.ProtoTCP, rtsp.ProtoTCP, rtsp.ProtoUnicast, rtsp.ProtoHTTP}).Draw(t, "protocol"),
		Host:   rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.1", "localhost", "[::1]", "LocalHost"}).Draw(t, "host"),
		Scheme: rapid.SampledFrom([]string{"rtsp", "rtsp", "rtsp", "RTSP"}).Draw(t, "scheme"),
		Path: rapid.OneOf(genPath, rapid.SampledFrom([]string{"", "/", "/live", "/a/b/c", "/a%20b", "/a%2Fb", "/live/", "/é", "/cam?channel=1&subtype=0", "/?x=%26", "/a:b@c", "/p?u=http://h/p", "/%E4%BD%A0", "/a;b=c", "//x", "/a+b"})).
			Draw(t, "path"),
		HasUser: rapid.Bool().Draw(t, "user"),
	}
	if rapid.IntRange(0, 2).Draw(t, "default port") == 0 {
		a.NoPort = true
		if rapid.IntRange(0, 4).Draw(t, "common host") == 0 {
			a.Host = rapid.SampledFrom([]string{"[::1]", "[::1]", "localhost"}).Draw(t, "default host")
			return a.user(t)
		}
		a.Host = fmt.Sprintf("127.%d.%d.%d", rapid.IntRange(1, 250).Draw(t, "b"), rapid.IntRange(0, 250).Draw(t, "c"), rapid.IntRange(1, 250).Draw(t, "d"))
	}
	return a.user(t)
}

func (a address) user(t *rapid.T) address {
	if a.HasUser {
		text := rapid.StringOfN(rapid.SampledFrom([]rune("ab1:@/?#[]% &=+é\"")), 0, 8, -1)
		a.User, a.Pass = text.Draw(t, "name"), text.Draw(t, "password")
		a.NoPass = rapid.IntRange(0, 4).Draw(t, "no password") == 0
		if rapid.IntRange(0, 15).Draw(t, "long") == 0 {
			a.Pass += strings.Repeat("p&", rapid.IntRange(50, 2000).Draw(t, "times"))
		}
	}
	return a
}

// runAddress opens a session and looks at the first requests.
func runAddress(a address) error {
	return settle(func() error {
		a := a
		ln, err := a.listen()
		if err != nil {
			return err
		}
		cam := &camera{ln: ln, reqs: make(chan camReq, 10000), ready: make(chan struct{})}
		if a.Proto == rtsp.ProtoHTTP {
			cam.http = &httpPlan{answer: []byte("HTTP/1.0 200 OK\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n")}
		}
		go cam.accept()
		defer cam.close()
		uri := a.uri(ln)
		cl := openClient(uri, a.Proto, 0)
		defer close(cl.quit)
		for _, verb := range []string{"OPTIONS", "DESCRIBE"} {
			m, err := cam.next()
			if err != nil {
				return fmt.Errorf("waiting for %s after opening %q: %w", verb, uri, err)
			}
			if m.Method != verb {
				return fmt.Errorf("%q instead of %s", m.Raw, verb)
			}
			if err := sameTarget(m.URI, uri); err != nil {
				return err
			}
			if verb == "OPTIONS" {
				if err := cam.send(answer{Code: 200}.wire(m.cseq(), 0)); err != nil {
					return err
				}
			}
		}
		if a.Proto == rtsp.ProtoHTTP {
			cam.mu.Lock()
			defer cam.mu.Unlock()
			for _, h := range cam.heads {
				target := h.uri
				if strings.HasPrefix(target, "/") {
					target = "rtsp://" + ln.Addr().String() + target
					if w, err := url.Parse(uri); err == nil {
						target = w.Scheme + "://" + w.Host + h.uri
					}
				}
				if err := sameTarget(target, uri); err != nil {
					return fmt.Errorf("%s: %w", h.method, err)
				}
			}
		}
		select {
		case err := <-cl.opened:
			if err != nil {
				return fmt.Errorf("opening %q: %w", uri, err)
			}
		case <-time.After(wait()):
			return latef("Open of %q does not return", uri)
		}
		return nil
	})
}

// badOpen is an attempt to open a session that must fail.
type badOpen struct {
	Kind  int
	Text  string // the URI, or the HTTP answer
	Proto int
	Cuts  []int
}

const (
	openBadURI = iota
	openDeaf   // nobody listens
	openHTTP   // the tunnel is refused or broken
	openNoPost // the tunnel is granted, but its second connection is refused
)

type failCase struct {
	Bad      []badOpen
	Commands []int // tried after each
	Spec     camSpec
}

var badURIs = []string{"rtsp://[::1", "rtsp://127.0.0.1:port/", "rtsp://127.0.0.1/%zz", "://127.0.0.1/", "rtsp://127.0.0.1:99999/", "rtsp://127.0.0.1:-1/", "rtsp://a b/", "rtsp://127.0.0.1:1:2/", "\x7f", "rtsp://u:p%@127.0.0.1/", "rtsp://256.256.256.256.:1/"}

func genBadOpen(t *rapid.T) badOpen {
	b := badOpen{Kind: rapid.SampledFrom([]int{openBadURI, openDeaf, openHTTP, openHTTP, openNoPost}).Draw(t, "kind"), Proto: rapid.SampledFrom([]int{rtsp.ProtoTCP, rtsp.ProtoUnicast, rtsp.ProtoHTTP}).Draw(t, "protocol")}
	switch b.Kind {
	case openBadURI:
		b.Text = rapid.SampledFrom(badURIs).Draw(t, "uri")
	case openNoPost:
		b.Proto, b.Text = rtsp.ProtoHTTP, "HTTP/1.0 200 OK\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n"
	case openHTTP:
		b.Proto = rtsp.ProtoHTTP
		b.Cuts = genSmallCuts.Draw(t, "cuts")
		b.Text = rapid.SampledFrom([]string{"", "HTTP/1.0 404 Not Found\r\n\r\n", "HTTP/1.0 401 Unauthorized\r\nWWW-Authenticate: Basic realm=\"x\"\r\n\r\n", "HTTP/1.0 503 Busy\r\nServer: x\r\n\r\n", "RTSP/1.0 200 OK\r\n\r\n", "nothing of the kind\r\n\r\n", "\r\n\r\n", "HTTP/1.0 200 OK\r\nno header\r\n\r\n", "HTTP/1.0 2x0 OK\r\n\r\n"}).Draw(t, "answer")
	}
	return b
}

// deafURI names a port at which nobody listens until the function is called.
func deafURI() (string, func(), error) {
	// A bound socket that does not listen: connecting is refused, and nobody else gets the port.
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return "", nil, harnessBug{err}
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte(net.ParseIP(loopback()).To4())}); err != nil {
		return "", nil, harnessBug{err}
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		return "", nil, harnessBug{err}
	}
	return fmt.Sprintf("rtsp://%s:%d/live", net.IP(sa.(*syscall.SockaddrInet4).Addr[:]), sa.(*syscall.SockaddrInet4).Port), func() { syscall.Close(fd) }, nil
}

// attempt makes one attempt on the session; opened tells whether Open returned without an error.
func (b badOpen) attempt(s *rtsp.Session) error {
	uri := b.Text
	var closed chan error
	switch b.Kind {
	case openDeaf:
		var done func()
		var err error
		if uri, done, err = deafURI(); err != nil {
			return err
		}
		defer done()
	case openHTTP, openNoPost:
		ln, err := listenLocal()
		if err != nil {
			return harnessBug{err}
		}
		defer ln.Close()
		uri = "rtsp://" + ln.Addr().String() + "/live"
		closed = make(chan error, 1)
		go func() {
			conn, err := ln.Accept()
			if err != nil {
				closed <- err
				return
			}
			defer conn.Close()
			conn.SetDeadline(time.Now().Add(2 * wait()))
			rd := bufio.NewReader(conn)
			for {
				line, err := rd.ReadString('\n')
				if err != nil {
					closed <- fmt.Errorf("reading the GET request: %w", err)
					return
				}
				if line == "\r\n" {
					break
				}
			}
			if b.Kind == openNoPost {
				ln.Close()
			}
			writeCut(conn, []byte(b.Text), b.Cuts)
			if b.Text == "" {
				conn.(*net.TCPConn).CloseWrite()
			}
			_, err = rd.ReadByte()
			if err == nil {
				closed <- fmt.Errorf("the client sends more after %q", b.Text)
			} else if isTimeout(err) {
				closed <- latef("the client leaves the refused connection open")
			} else {
				closed <- nil
			}
		}()
	}
	opened := make(chan error, 1)
	go func() { opened <- guard(func() error { return s.Open(uri, b.Proto) }) }()
	select {
	case err := <-opened:
		if err == nil {
			return fmt.Errorf("Open of %q succeeds, answer %q", uri, b.Text)
		}
		if strings.HasPrefix(err.Error(), "panic in") {
			return err
		}
	case <-time.After(wait()):
		return latef("Open of %q does not return", uri)
	}
	if closed != nil {
		select {
		case err := <-closed:
			return err
		case <-time.After(3 * wait()):
			return latef("the connection is still open")
		}
	}
	return nil
}

var sessionCommands = []struct {
	name string
	call func(s *rtsp.Session) error
}{
	{"Options", (*rtsp.Session).Options}, {"Describe", (*rtsp.Session).Describe}, {"Play", (*rtsp.Session).Play},
	{"Pause", (*rtsp.Session).Pause}, {"Teardown", (*rtsp.Session).Teardown}, {"KeepAlive", (*rtsp.Session).KeepAlive},
}

func runFailures(c failCase) error {
	return settle(func() error {
		x, err := newRun(c.Spec)
		if err != nil {
			return err
		}
		defer x.close()
		s := rtsp.NewSession()
		commands := func() error {
			for _, i := range c.Commands {
				cmd := sessionCommands[i]
				done := make(chan error, 1)
				go func() { done <- guard(func() error { return cmd.call(s) }) }()
				select {
				case err := <-done:
					if err == nil {
						return fmt.Errorf("%s succeeds without a connection", cmd.name)
					}
					if strings.HasPrefix(err.Error(), "panic in") {
						return fmt.Errorf("%s without a connection: %w", cmd.name, err)
					}
				case <-time.After(wait()):
					return latef("%s without a connection does not return", cmd.name)
				}
			}
			return nil
		}
		if err := commands(); err != nil {
			return err
		}
		for i, b := range c.Bad {
			if err := b.attempt(s); err != nil {
				return fmt.Errorf("attempt %d: %w", i, err)
			}
			if err := commands(); err != nil {
				return fmt.Errorf("after attempt %d: %w", i, err)
			}
		}
		x.cl = openSession(s, x.uri(), c.Spec.Proto, 0)
		if err := x.handshake(); err != nil {
			return fmt.Errorf("opened after %d failures: %w", len(c.Bad), err)
		}
		for _, cmd := range []string{"PLAY", "TEARDOWN"} {
			if err := x.command(cmd); err != nil {
				return fmt.Errorf("opened after %d failures: %w", len(c.Bad), err)
			}
		}
		return x.settled()
	})
}

// connOp is one operation on a connection.
type connOp struct {
	Kind  int
	N     int       // bytes
	Data  bytesSpec // to write
	Endl  bool      // the time-out is switched off meanwhile
	After int       // milliseconds after which the next part is sent while the operation waits
}

const (
	opPeek = iota
	opByte
	opUint16
	opBytes
	opLine
	opDiscard
	opWrite
)

var opNames = []string{"Peek", "ReadByte", "ReadUint16", "ReadBytes", "ReadLine", "Discard", "Write"}

// connCase is a stream in parts, of which the next is sent only when the client asks for more than it has.
type connCase struct {
	HTTP  bool
	Parts []connPart
	Ops   []connOp
	Cuts  []int
}

type connPart struct {
	Data  bytesSpec
	Lines bool // made of lines
	Long  bool // of a single line
	Late  bool // sent only after a read has timed out for lack of it
}

func (p connPart) make() []byte {
	b := p.Data.make()
	if p.Lines {
		for i := range b {
			switch {
			case b[i]%23 == 7 && !p.Long || p.Long && i == len(b)-1:
				b[i] = '\n'
			case b[i] == '\n':
				b[i] = 'x'
			}
		}
	}
	return b
}

func genConn(t *rapid.T) connCase {
	c := connCase{HTTP: rapid.IntRange(0, 2).Draw(t, "http") == 0, Cuts: genSmallCuts.Draw(t, "cuts")}
	total := 0
	for i := rapid.IntRange(1, 4).Draw(t, "parts"); i > 0; i-- {
		p := connPart{Data: genBytesSpec(t, "part", 3000), Lines: rapid.Bool().Draw(t, "lines"), Late: rapid.Bool().Draw(t, "late")}
		if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
			p.Data.Len = rapid.IntRange(60000, 200000).Draw(t, "length")
			p.Long = rapid.Bool().Draw(t, "one line")
		}
		if p.Data.Len == 0 {
			p.Data.Len = 1
		}
		total += p.Data.Len
		c.Parts = append(c.Parts, p)
	}
	for i := rapid.IntRange(1, 25).Draw(t, "operations"); i > 0; i-- {
		op := connOp{Kind: rapid.SampledFrom([]int{opPeek, opByte, opUint16, opBytes, opLine, opDiscard, opWrite}).Draw(t, "operation"), Endl: rapid.IntRange(0, 3).Draw(t, "endless") == 0, After: rapid.IntRange(0, 30).Draw(t, "after")}
		switch op.Kind {
		case opPeek:
			op.N = rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(1, 4+65535)).Draw(t, "n")
		case opBytes, opDiscard:
			op.N = rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, total)).Draw(t, "n")
		case opWrite:
			op.Data = genBytesSpec(t, "written", 2000)
			if op.Data.Len == 0 {
				op.Data.Len = 1
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

const shortTimeout = 60 * time.Millisecond

// connServer sends parts on demand and collects what it receives.
type connServer struct {
	ln   net.Listener
	get  chan net.Conn
	mu   sync.Mutex
	got  bytes.Buffer // plain text received
	bad  error
	more *sync.Cond
}

func newConnServer(http bool) (*connServer, error) {
	ln, err := listenLocal()
	if err != nil {
		return nil, harnessBug{err}
	}
	s := &connServer{ln: ln, get: make(chan net.Conn, 1)}
	s.more = sync.NewCond(&s.mu)
	collect := func(r io.Reader) {
		buf := make([]byte, 4096)
		for {
			n, err := r.Read(buf)
			s.mu.Lock()
			s.got.Write(buf[:n])
			if err != nil && err != io.EOF && !errors.Is(err, net.ErrClosed) && s.bad == nil {
				s.bad = err
			}
			s.more.Broadcast()
			s.mu.Unlock()
			if err != nil {
				return
			}
		}
	}
	go func() {
		for n := 0; ; n++ {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			go func(n int) {
				rd := bufio.NewReader(conn)
				if http {
					if _, err := readHead(rd); err != nil {
						return
					}
					if n == 0 {
						conn.Write([]byte("HTTP/1.0 200 OK\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n"))
						s.get <- conn
						return
					}
					collect(&base64Stream{rd: rd})
					return
				}
				s.get <- conn
				collect(rd)
			}(n)
		}
	}()
	return s, nil
}

func runConn(c connCase) error {
	return settle(func() error { return tryConn(c) })
}

func tryConn(c connCase) error {
	srv, err := newConnServer(c.HTTP)
	if err != nil {
		return err
	}
	defer srv.ln.Close()
	proto := rtsp.ProtoTCP
	if c.HTTP {
		proto = rtsp.ProtoHTTP
	}
	conn, err := rtsp.Dial("rtsp://"+srv.ln.Addr().String()+"/live", proto)
	if err != nil {
		return inTime(err, "dial")
	}
	var out net.Conn
	select {
	case out = <-srv.get:
	case <-time.After(wait()):
		return latef("no connection")
	}
	defer out.Close()
	if len(c.Ops) > 0 && c.Ops[0].After%2 == 0 {
		time.Sleep(time.Millisecond)
	}
	var sent, want []byte // want: what the client has not consumed yet
	next := 0
	type piece struct {
		delay time.Duration
		b     []byte // nil: the end of the stream
	}
	pieces := make(chan piece, len(c.Parts)+1)
	defer close(pieces)
	go func() {
		for p := range pieces {
			time.Sleep(p.delay)
			if p.b == nil {
				out.(*net.TCPConn).CloseWrite()
			} else {
				writeCut(out, p.b, c.Cuts)
			}
		}
	}()
	release := func(delay int) {
		b := c.Parts[next].make()
		next++
		sent = append(sent, b...)
		want = append(want, b...)
		pieces <- piece{time.Duration(delay) * time.Millisecond, b}
	}
	var written []byte
	closed := false
	for i, op := range c.Ops {
		fail := func(format string, args ...interface{}) error {
			return fmt.Errorf("operation %d, %s(%d): %s", i, opNames[op.Kind], op.N, fmt.Sprintf(format, args...))
		}
		if op.Kind == opWrite {
			conn.Timeout = wait()
			if op.Endl {
				conn.Timeout = 0
			}
			b := op.Data.make()
			type res struct {
				n   int
				err error
			}
			done := make(chan res, 1)
			go func() {
				n, err := conn.Write(b)
				done <- res{n, err}
			}()
			select {
			case r := <-done:
				if r.err != nil {
					return inTime(r.err, "operation %d, Write", i)
				}
				if r.n != len(b) {
					return fail("wrote %d of %d bytes", r.n, len(b))
				}
			case <-time.After(2 * wait()):
				return latef("operation %d, Write, does not return", i)
			}
			written = append(written, b...)
			continue
		}
		// What has to be there for the operation to succeed.
		enough := func() bool {
			switch op.Kind {
			case opByte:
				return len(want) >= 1
			case opUint16:
				return len(want) >= 2
			case opLine:
				return bytes.IndexByte(want, '\n') >= 0
			}
			return len(want) >= op.N
		}
		for !enough() && next < len(c.Parts) && !c.Parts[next].Late && !op.Endl {
			release(0)
		}
		starved := !enough() && !closed
		var parts int
		if starved && next == len(c.Parts) {
			if op.After%2 == 0 { // the stream ends
				closed = true
				pieces <- piece{time.Duration(op.After) * time.Millisecond, nil}
				starved = false
			}
		} else if starved && (op.Endl || op.After%3 > 0) { // the rest comes while the operation waits
			for ; !enough() && next < len(c.Parts); parts++ {
				release(op.After)
			}
			starved = !enough()
		}
		ends := !enough() && closed
		if !enough() && !closed && !starved {
			return harnessBug{fail("model")}
		}
		conn.Timeout = wait()
		if starved {
			conn.Timeout = shortTimeout
			if parts > 0 { // the parts arrive before the time-out
				conn.Timeout = 300 * time.Millisecond
			}
		} else if op.Endl {
			conn.Timeout = 0
		}
		type res struct {
			b    []byte
			n    int
			err  error
			took time.Duration
		}
		done := make(chan res, 1)
		timeout := conn.Timeout
		go func() {
			t0 := time.Now()
			var r res
			r.err = guard(func() (err error) {
				switch op.Kind {
				case opPeek:
					r.b, err = conn.Peek(op.N)
					r.n = 0
				case opByte:
					var b byte
					if b, err = conn.ReadByte(); err == nil {
						r.b, r.n = []byte{b}, 1
					}
				case opUint16:
					var v uint16
					if v, err = conn.ReadUint16(); err == nil {
						r.b, r.n = []byte{byte(v >> 8), byte(v)}, 2
					}
				case opBytes:
					r.b, err = conn.ReadBytes(op.N)
					r.n = len(r.b)
				case opLine:
					var l string
					l, err = conn.ReadLine()
					r.b, r.n = []byte(l), len(l)
				case opDiscard:
					r.n, err = conn.Discard(op.N)
				}
				return err
			})
			r.took = time.Since(t0)
			done <- r
		}()
		var r res
		select {
		case r = <-done:
		case <-time.After(timeout + 2*wait()):
			return latef("operation %d, %s(%d), does not return, time-out %v", i, opNames[op.Kind], op.N, timeout)
		}
		if r.err != nil && strings.HasPrefix(r.err.Error(), "panic in") {
			return fail("%v", r.err)
		}
		if r.n > len(want) || (op.Kind != opDiscard && (len(r.b) > len(want) || !bytes.Equal(r.b, want[:len(r.b)]))) {
			return fail("%d bytes that are not next in the stream, at byte %d of %d (error %v)", len(r.b), len(sent)-len(want), len(sent), r.err)
		}
		switch {
		case starved:
			if r.err == nil {
				return fail("succeeds without the data, %d bytes", len(r.b))
			}
			if !isTimeout(r.err) {
				return fail("%v instead of a time-out, %d bytes outstanding", r.err, len(want))
			}
			if r.took < timeout/2 {
				return fail("timed out after %v, time-out is %v", r.took, timeout)
			}
			if r.took > timeout+wait() {
				return latef("operation %d, %s, timed out after %v", i, opNames[op.Kind], r.took)
			}
		case ends:
			if r.err == nil {
				return fail("succeeds after the end of the stream, %d bytes", len(r.b))
			}
			if isTimeout(r.err) {
				return latef("operation %d, %s: %v at the end of the stream", i, opNames[op.Kind], r.err)
			}
		default:
			if r.err != nil {
				if isTimeout(r.err) && (timeout == 0 || r.took < timeout/2) {
					return fail("timed out after %v, time-out is %v", r.took, timeout)
				}
				return inTime(r.err, "operation %d, %s(%d)", i, opNames[op.Kind], op.N)
			}
			n := op.N
			switch op.Kind {
			case opByte:
				n = 1
			case opUint16:
				n = 2
			case opLine:
				n = bytes.IndexByte(want, '\n') + 1
			}
			if op.Kind != opDiscard && len(r.b) != n || op.Kind == opDiscard && r.n != n {
				return fail("%d bytes instead of %d", r.n, n)
			}
		}
		want = want[r.n:]
	}
	// Everything that was written has arrived, nothing else.
	deadline := time.Now().Add(wait())
	srv.mu.Lock()
	defer srv.mu.Unlock()
	for srv.got.Len() < len(written) && srv.bad == nil && time.Now().Before(deadline) {
		srv.mu.Unlock()
		time.Sleep(200 * time.Microsecond)
		srv.mu.Lock()
	}
	if srv.bad != nil {
		return fmt.Errorf("what was written: %v", srv.bad)
	}
	if got := srv.got.Bytes(); !bytes.Equal(got, written) {
		if len(got) < len(written) && bytes.HasPrefix(written, got) {
			return latef("%d of %d bytes written arrived", len(got), len(written))
		}
		return fmt.Errorf("%d bytes written, %d others arrived, they differ at %d", len(written), len(got), firstDiff(got, written))
	}
	return nil
}

func init() {
	register(Spec[address]{
		Prop: "C34", Name: "addresses", Quick: 4000, Thorough: 40000,
		Rule: "URIs with IPv4 and IPv6 addresses and host names, with and without port (the camera then listens at 554), user information, escapes and queries, in TCP, UDP and HTTP mode: the first requests reach that camera, for that URI without user information; non-trivial: anything but a plain address with a port",
		Gen:  genAddress,
		Labels: func(a address) []string {
			l := []string{protoName(a.Proto)}
			if a.NoPort {
				l = append(l, "default port")
			} else {
				l = append(l, strings.ToLower(a.Host))
			}
			if a.HasUser {
				l = append(l, "user")
			}
			return l
		},
		Nontrivial: func(a address) bool { return a.NoPort || a.HasUser || a.Host != "127.0.0.1" || a.Path != "/live" },
		Run:        runAddress,
	})
	register(Spec[failCase]{
		Prop: "C34", Name: "failures", Quick: 1200, Thorough: 12000,
		Rule: "1-4 attempts to open that must fail (bad URIs, nobody listening, tunnels refused or broken, at the first or the second connection), with commands before and after each, which must fail without harm, then a session with a camera on the same object, which must go as usual; a refused connection must be closed; non-trivial: all",
		Gen: func(t *rapid.T) failCase {
			c := failCase{Spec: genSpec(t, rapid.SampledFrom([]int{rtsp.ProtoTCP, rtsp.ProtoHTTP}).Draw(t, "protocol"), 2)}
			c.Spec.Lag = 0
			c.Commands = rapid.SliceOfN(rapid.IntRange(0, len(sessionCommands)-1), 0, 3).Draw(t, "commands")
			for i := rapid.IntRange(1, 4).Draw(t, "attempts"); i > 0; i-- {
				c.Bad = append(c.Bad, genBadOpen(t))
			}
			return c
		},
		Labels: func(c failCase) (l []string) {
			for _, b := range c.Bad {
				l = append(l, []string{"bad URI", "nobody listening", "tunnel refused", "second connection refused"}[b.Kind])
			}
			return
		},
		Run: runFailures,
	})
	register(Spec[connCase]{
		Prop: "C35", Name: "operations", Quick: 2400, Thorough: 60000,
		Rule: "a stream of 1-4 parts in TCP or HTTP mode, cut into pieces, and 1-25 reads of every kind and writes on it, where a part is there before, comes while the read waits, or not before it has timed out, with and without time-out, up to the end of the stream; compared with a model of the stream; non-trivial: more than one operation",
		Gen:  genConn,
		Labels: func(c connCase) (l []string) {
			if c.HTTP {
				l = append(l, "HTTP")
			}
			for _, op := range c.Ops {
				l = append(l, opNames[op.Kind])
			}
			return
		},
		Nontrivial: func(c connCase) bool { return len(c.Ops) > 1 },
		Run:        runConn,
	})
}
