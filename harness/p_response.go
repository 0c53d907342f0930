package main

// C22: RTSP responses over a real connection.

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"pgregory.net/rapid"
)

type respMsg struct {
	Code   int
	Reason string
	CSeq   int
	Header [][2]string // as written: name and value with its white space
	Body   bytesSpec
	LenHdr string // spelling of Content-Length; empty: no header (and no body)
	SeqHdr string // spelling of CSeq
	Before string // what precedes these two numbers, white space and zeros
}

func (m respMsg) number(n int) string { return m.Before + strconv.Itoa(n) }

type respCase struct {
	Msgs []respMsg
	Tail bytesSpec
	Cuts []int
}

func (m respMsg) wire() []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "RTSP/1.0 %d", m.Code)
	if m.Reason != "" {
		b.WriteString(" " + m.Reason)
	}
	b.WriteString("\r\n")
	lines := []string{m.SeqHdr + ":" + m.number(m.CSeq)}
	for _, h := range m.Header {
		lines = append(lines, h[0]+":"+h[1])
	}
	if m.LenHdr != "" {
		lines = append(lines, m.LenHdr+":"+m.number(m.Body.Len))
	}
	for i := range lines {
		b.WriteString(lines[(i+m.CSeq)%len(lines)] + "\r\n") // in some order
	}
	b.WriteString("\r\n")
	if m.LenHdr != "" {
		b.Write(m.Body.make())
	}
	return b.Bytes()
}

func (m respMsg) check(r *rtsp.Response) error {
	if r == nil {
		return fmt.Errorf("no response")
	}
	want := strings.TrimSpace(strconv.Itoa(m.Code) + " " + m.Reason)
	if r.Proto != "RTSP/1.0" || r.StatusCode != m.Code || r.Status != want {
		return fmt.Errorf("status %q %q %d, want %q", r.Proto, r.Status, r.StatusCode, want)
	}
	if r.Cseq != m.CSeq || r.Header.Get("CSeq") != strings.TrimSpace(m.number(m.CSeq)) {
		return fmt.Errorf("CSeq %d %q, want %d %q", r.Cseq, r.Header.Get("CSeq"), m.CSeq, m.number(m.CSeq))
	}
	n := 1
	for _, h := range m.Header {
		for _, name := range []string{h[0], strings.ToUpper(h[0]), strings.ToLower(h[0])} {
			if got, want := r.Header.Get(name), strings.TrimSpace(h[1]); got != want {
				return fmt.Errorf("header %s is %q, want %q", name, got, want)
			}
		}
		n++
	}
	if m.LenHdr != "" {
		n++
		if r.ContentLength != int64(m.Body.Len) {
			return fmt.Errorf("content length %d, want %d", r.ContentLength, m.Body.Len)
		}
	} else if r.ContentLength != 0 {
		return fmt.Errorf("content length %d without the header", r.ContentLength)
	}
	if len(r.Header) != n {
		return fmt.Errorf("%d headers %v, want %d", len(r.Header), r.Header, n)
	}
	var body []byte
	if m.LenHdr != "" {
		body = m.Body.make()
	}
	if !bytes.Equal(r.Body, body) {
		return fmt.Errorf("body of %d bytes differs from the %d bytes sent at %d", len(r.Body), len(body), firstDiff(r.Body, body))
	}
	return nil
}

var genCuts = rapid.OneOf(
	rapid.Just([]int(nil)),
	rapid.SliceOfN(rapid.IntRange(1, 12), 1, 4),
	rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(10, 3000), rapid.SampledFrom([]int{1448, 2047, 2048, 2049, 4096})), 1, 6),
)

// genName draws header names of any token characters.
var genName = rapid.StringOfN(rapid.OneOf(rapid.SampledFrom([]rune("abcxyzABCXYZ0189")), rapid.SampledFrom([]rune("--_.!#$%&'*+^`|~"))), 1, 12, -1)

func genBytesSpec(t *rapid.T, label string, max int) bytesSpec {
	return bytesSpec{
		Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, label+" seed")),
		Len: rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 3000), rapid.SampledFrom([]int{2, 511, 1460, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 65535, 65536, 65539, 65540, 70000, 131073, 300000}),
			rapid.IntRange(0, 100000)).Filter(func(n int) bool { return n <= max }).Draw(t, label+" length"),
		Kind: rapid.IntRange(0, 1).Draw(t, label+" kind"),
	}
}

func genRespMsg(t *rapid.T) respMsg {
	m := respMsg{
		Code:   rapid.OneOf(rapid.Just(200), rapid.SampledFrom([]int{100, 201, 250, 301, 302, 400, 401, 404, 451, 454, 461, 500, 551}), rapid.IntRange(100, 599), rapid.IntRange(100, 999)).Draw(t, "code"),
		Reason: rapid.SampledFrom([]string{"OK", "", "Not Found", "Session Not Found", "Méthode refusée", "X: y"}).Draw(t, "reason"),
		CSeq:   rapid.OneOf(rapid.IntRange(0, 30), rapid.IntRange(0, 1<<31-1)).Draw(t, "cseq"),
		SeqHdr: randCase(t, "CSeq"),
		Before: rapid.SampledFrom([]string{" ", " ", " ", "", "  ", " \t ", " 0", " 00", "0"}).Draw(t, "before"),
	}
	names := rapid.Permutation([]string{"Session", "Transport", "Public", "Content-Base", "Content-Type", "x-a", "RTP-Info", "Date", "Server", "WWW-Authenticate", "Cache-Control", genName.Draw(t, "name") + "-1", genName.Draw(t, "name") + "-2"}).Draw(t, "names")
	for i := rapid.IntRange(0, 8).Draw(t, "headers"); i > 0; i-- {
		v := strings.TrimSpace(rapid.StringOfN(rapid.SampledFrom([]rune("abcXYZ019 :;=,/\"<>-_é\t$")), 0, 40, -1).Draw(t, "value"))
		if rapid.IntRange(0, 30).Draw(t, "long") == 0 {
			v += strings.Repeat("long, ", 1000) + "."
		}
		m.Header = append(m.Header, [2]string{randCase(t, names[i]), rapid.SampledFrom([]string{" ", " ", "", "  ", "\t"}).Draw(t, "ws") + v + rapid.SampledFrom([]string{"", "", " ", "\t "}).Draw(t, "ws")})
	}
	if rapid.IntRange(0, 3).Draw(t, "body") > 0 {
		m.LenHdr = randCase(t, "Content-Length")
		m.Body = genBytesSpec(t, "body", 300000)
	}
	return m
}

// served dials a listener that sends data and, if hangup is set, closes.
func served(data []byte, cuts []int, hangup bool, use func(c *rtsp.Conn) error) error {
	ln, err := listenLocal()
	if err != nil {
		return harnessBug{err}
	}
	defer ln.Close()
	release := make(chan struct{})
	defer close(release)
	go func() {
		conn, err := ln.Accept()
		if err != nil {
			return
		}
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(2 * wait()))
		writeCut(conn, data, cuts)
		if !hangup {
			<-release
		}
	}()
	c, err := rtsp.Dial("rtsp://"+ln.Addr().String()+"/live", rtsp.ProtoTCP)
	if err != nil {
		return latef("dial: %v", err)
	}
	c.Timeout = wait()
	return use(c)
}

func inTime(err error, format string, args ...interface{}) error {
	if isTimeout(err) {
		return latef("%s: %v", fmt.Sprintf(format, args...), err)
	}
	return fmt.Errorf("%s: %v", fmt.Sprintf(format, args...), err)
}

type badResp struct {
	Before []respMsg
	Text   string
	Cuts   []int
}

func runResponses(c respCase) error {
	var data []byte
	for _, m := range c.Msgs {
		data = append(data, m.wire()...)
	}
	tail := c.Tail.make()
	data = append(data, tail...)
	return settle(func() error {
		return served(data, c.Cuts, false, func(conn *rtsp.Conn) error {
			var rs []*rtsp.Response
			for i, m := range c.Msgs {
				r, err := rtsp.Unpack(conn)
				if err != nil {
					return inTime(err, "response %d refused", i)
				}
				if err := m.check(r); err != nil {
					return fmt.Errorf("response %d: %v", i, err)
				}
				rs = append(rs, r)
			}
			got, err := conn.ReadBytes(len(tail))
			if err != nil {
				return inTime(err, "reading the %d bytes behind the responses", len(tail))
			}
			if !bytes.Equal(got, tail) {
				return fmt.Errorf("%d bytes behind the responses differ at %d", len(tail), firstDiff(got, tail))
			}
			for i, m := range c.Msgs {
				if err := m.check(rs[i]); err != nil {
					return fmt.Errorf("response %d after reading on: %v", i, err)
				}
			}
			return nil
		})
	})
}

type headerOp struct {
	Op    string // set, get, del
	Name  string
	Value string
}

type headerCase struct{ Ops []headerOp }

// runHeaders compares a header map with a map of lower-case names.
func runHeaders(c headerCase) error {
	h, other := rtsp.MessageHeader{}, rtsp.MessageHeader{}
	want := map[string]string{}
	for i, op := range c.Ops {
		name := strings.ToLower(op.Name)
		switch op.Op {
		case "set":
			h.Set(op.Name, op.Value)
			want[name] = op.Value
			other.Set(op.Name, "other "+op.Value)
		case "del":
			h.Del(op.Name)
			delete(want, name)
		}
		if got := h.Get(op.Name); got != want[name] {
			return fmt.Errorf("op %d (%s): %q is %q, want %q", i, op.Op, op.Name, got, want[name])
		}
		if len(h) != len(want) {
			return fmt.Errorf("op %d (%s %q): %d headers, want %d: %q", i, op.Op, op.Name, len(h), len(want), h)
		}
	}
	for name, v := range want {
		for _, n := range []string{name, strings.ToUpper(name)} {
			if got := h.Get(n); got != v {
				return fmt.Errorf("%q is %q, want %q", n, got, v)
			}
		}
	}
	return nil
}

func init() {
	register(Spec[headerCase]{
		Prop: "C22", Name: "headers", Quick: 4000, Pure: true,
		Rule: "histories of 1-30 headers set, read and deleted under a few names in any letter case, against a map; non-trivial: a name is used in two spellings",
		Gen: func(t *rapid.T) headerCase {
			name := rapid.SampledFrom([]string{"CSeq", "WWW-Authenticate", "Content-Length", "x", "X-SessionCookie", "Session", "a-b-c", "x_y.z", "1-2", genToken.Draw(t, "name")})
			var c headerCase
			for i := rapid.IntRange(1, 30).Draw(t, "ops"); i > 0; i-- {
				c.Ops = append(c.Ops, headerOp{rapid.SampledFrom([]string{"set", "set", "get", "del"}).Draw(t, "op"), randCase(t, name.Draw(t, "name")), genText.Draw(t, "value")})
			}
			return c
		},
		Nontrivial: func(c headerCase) bool {
			seen := map[string]string{}
			for _, op := range c.Ops {
				l := strings.ToLower(op.Name)
				if n, ok := seen[l]; ok && n != op.Name {
					return true
				}
				seen[l] = op.Name
			}
			return false
		},
		Run: runHeaders,
	})
	register(Spec[respCase]{
		Prop: "C22", Name: "streams", Quick: 5000, Thorough: 40000,
		Rule: "streams of 1-5 responses with any status, headers and bodies of 0-300000 bytes, cut into arbitrary pieces, with further bytes behind; each response is compared when parsed and again after the whole stream; non-trivial: more than one response and a body",
		Gen: func(t *rapid.T) respCase {
			c := respCase{Cuts: genCuts.Draw(t, "cuts"), Tail: genBytesSpec(t, "tail", 2000)}
			for n := rapid.IntRange(1, 5).Draw(t, "responses"); n > 0; n-- {
				c.Msgs = append(c.Msgs, genRespMsg(t))
			}
			return c
		},
		Nontrivial: func(c respCase) bool {
			for _, m := range c.Msgs {
				if m.Body.Len > 0 {
					return len(c.Msgs) > 1
				}
			}
			return false
		},
		Labels: func(c respCase) (l []string) {
			for _, m := range c.Msgs {
				switch {
				case m.Body.Len > 65536:
					l = append(l, "body over 64K")
				case m.Body.Len > 2048:
					l = append(l, "body over 2K")
				case m.Body.Len > 0:
					l = append(l, "body up to 2K")
				}
			}
			return
		},
		Run: runResponses,
	})
	register(Spec[respCase]{
		Prop: "C22", Name: "format_and_parse", Quick: 3000, Thorough: 20000,
		Rule: "responses as above, parsed, formatted again, and the formatted stream parsed: the same responses must come out; non-trivial: more than one response and a body",
		Gen: func(t *rapid.T) respCase {
			c := respCase{Cuts: genCuts.Draw(t, "cuts")}
			for n := rapid.IntRange(1, 4).Draw(t, "responses"); n > 0; n-- {
				c.Msgs = append(c.Msgs, genRespMsg(t))
			}
			return c
		},
		Nontrivial: func(c respCase) bool {
			for _, m := range c.Msgs {
				if m.Body.Len > 0 {
					return len(c.Msgs) > 1
				}
			}
			return false
		},
		Run: func(c respCase) error {
			var data []byte
			for _, m := range c.Msgs {
				data = append(data, m.wire()...)
			}
			return settle(func() error {
				var again []byte
				err := served(data, nil, false, func(conn *rtsp.Conn) error {
					for i := range c.Msgs {
						r, err := rtsp.Unpack(conn)
						if err != nil {
							return inTime(err, "response %d refused", i)
						}
						again = append(again, r.Pack()...)
					}
					return nil
				})
				if err != nil {
					return err
				}
				return served(again, c.Cuts, true, func(conn *rtsp.Conn) error {
					for i, m := range c.Msgs {
						r, err := rtsp.Unpack(conn)
						if err != nil {
							return inTime(err, "formatted response %d refused", i)
						}
						if err := m.check(r); err != nil {
							return fmt.Errorf("formatted response %d: %v", i, err)
						}
					}
					if b, err := conn.Peek(1); err == nil {
						return fmt.Errorf("bytes %q behind the formatted responses", b)
					}
					return nil
				})
			})
		},
	})
	register(Spec[badResp]{
		Prop: "C22", Name: "malformed", Quick: 3000, Thorough: 20000,
		Rule: "a malformed status line or header line, or a message cut short by the end of the connection, after 0-2 good responses: must be an error, after the good ones were read",
		Gen: func(t *rapid.T) badResp {
			c := badResp{Cuts: genCuts.Draw(t, "cuts")}
			for n := rapid.IntRange(0, 2).Draw(t, "responses"); n > 0; n-- {
				c.Before = append(c.Before, genRespMsg(t))
			}
			rest := "\r\nCSeq: 1\r\n\r\n"
			m := genRespMsg(t)
			whole := string(m.wire())
			switch rapid.IntRange(0, 2).Draw(t, "bad") {
			case 0:
				c.Text = rapid.SampledFrom([]string{"RTSP/1.0", "RTSP/2.0 200 OK", "RTSP/1.1 200 OK", "HTTP/1.0 200 OK", "RTSP/1.0 20 OK", "RTSP/1.0 2000 OK", "RTSP/1.0 abc OK", "RTSP/1.0 OK", "RTSP/1.0 ", "",
					"200 OK", "RTSP/1.0 2x0 OK", "RTSP/1.0  ", "OPTIONS", "SIP/2.0 200 OK", "RTSP/1.0 -20 OK", "RTSP/1.0 200OK", "RTSP 200 OK"}).Draw(t, "status line") + rest
			case 1:
				i := strings.Index(whole, "\r\n") + 2
				at := []int{i}
				for j := i; ; {
					k := strings.Index(whole[j:], "\r\n")
					j += k + 2
					at = append(at, j)
					if strings.HasPrefix(whole[j:], "\r\n") {
						break
					}
				}
				j := rapid.SampledFrom(at).Draw(t, "line")
				c.Text = whole[:j] + rapid.SampledFrom([]string{"garbage", "CSeq 7", "x", "Session=1", "RTSP/1.0 200 OK"}).Draw(t, "header line") + "\r\n" + whole[j:]
			case 2:
				n := len(whole)
				if n > 2000 && rapid.Bool().Draw(t, "near the start") {
					n = 2000
				}
				c.Text = whole[:rapid.IntRange(0, n-1).Draw(t, "cut short")]
			}
			return c
		},
		Nontrivial: func(c badResp) bool { return true },
		Run: func(c badResp) error {
			var data []byte
			for _, m := range c.Before {
				data = append(data, m.wire()...)
			}
			data = append(data, c.Text...)
			return settle(func() error {
				return served(data, c.Cuts, true, func(conn *rtsp.Conn) error {
					for i := range c.Before {
						if _, err := rtsp.Unpack(conn); err != nil {
							return inTime(err, "response %d refused", i)
						}
					}
					if r, err := rtsp.Unpack(conn); err == nil {
						return fmt.Errorf("%q accepted as %+v", truncate(c.Text, 300), r)
					} else if isTimeout(err) {
						return latef("%v", err)
					}
					return nil
				})
			})
		},
	})
}
