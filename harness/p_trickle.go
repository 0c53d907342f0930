package main

// C35: data that trickles in while a read waits.

import (
	"bytes"
	"fmt"
	"net"
	"sync/atomic"
	"time"

	"github.com/aboukirev/ouro/net/rtsp"
	"pgregory.net/rapid"
)

// trickleCase is a number of reads one after another, the data of each coming in pieces.
type trickleCase struct {
	HTTP  bool
	Reads []trickleRead
}

type trickleRead struct {
	Kind   int
	Before int // time from the start of the read to its first piece
	Gap    int // between the pieces
	Size   int // of a piece but the last one
	Pieces int
}

const trickleTimeout = 120 // ms

// slow tells whether the read has to time out: its last piece comes long after that.
func (r trickleRead) slow() bool { return r.last() >= 2*trickleTimeout+60 }
func (r trickleRead) last() int  { return r.Before + r.Gap*(r.Pieces-1) }
func (r trickleRead) size() int {
	if r.Kind == opUint16 {
		return 2
	}
	return r.Size*(r.Pieces-1) + 1
}

func genTrickle(t *rapid.T) trickleCase {
	c := trickleCase{HTTP: rapid.IntRange(0, 2).Draw(t, "http") == 0}
	for n := rapid.IntRange(1, 3).Draw(t, "reads"); n > 0; n-- {
		r := trickleRead{
			Kind:   rapid.SampledFrom([]int{opPeek, opUint16, opBytes, opLine, opDiscard}).Draw(t, "operation"),
			Before: rapid.IntRange(0, trickleTimeout/2).Draw(t, "before"),
			Size:   rapid.OneOf(rapid.Just(1), rapid.IntRange(1, 3000)).Draw(t, "size"),
		}
		if rapid.IntRange(0, 3).Draw(t, "slow") > 0 {
			// Each piece comes in time, but not all of them.
			r.Gap = rapid.IntRange(trickleTimeout/4, trickleTimeout*3/4).Draw(t, "gap")
			r.Pieces = 1 + (2*trickleTimeout+60+r.Gap)/r.Gap
			if r.Kind == opUint16 {
				r.Pieces, r.Before = 2, trickleTimeout/2
				r.Gap = 2*trickleTimeout + 60
			}
		} else {
			r.Before = rapid.IntRange(0, 20).Draw(t, "before")
			r.Gap = rapid.IntRange(1, 5).Draw(t, "gap")
			r.Pieces = 2
			if r.Kind != opUint16 {
				r.Pieces = rapid.IntRange(2, 6).Draw(t, "pieces")
			}
		}
		if r.Kind == opUint16 {
			r.Size = 1
		}
		c.Reads = append(c.Reads, r)
	}
	return c
}

func runTrickle(c trickleCase) error {
	return settle(func() error {
		srv, err := newConnServer(c.HTTP)
		if err != nil {
			return err
		}
		defer srv.ln.Close()
		proto := rtsp.ProtoTCP
		if c.HTTP {
			proto = rtsp.ProtoHTTP
		}
		conn, err := rtsp.Dial("rtsp://"+srv.ln.Addr().String()+"/live", proto)
		if err != nil {
			return inTime(err, "dial")
		}
		var out net.Conn
		select {
		case out = <-srv.get:
		case <-time.After(wait()):
			return latef("no connection")
		}
		defer out.Close()
		for i, r := range c.Reads {
			if err := guard(func() error { return r.run(conn, out, byte('a'+i)) }); err != nil {
				return fmt.Errorf("read %d, %s of %d bytes, pieces every %d ms up to %d ms: %w", i, opNames[r.Kind], r.size(), r.Gap, r.last(), err)
			}
		}
		return nil
	})
}

func (r trickleRead) run(conn *rtsp.Conn, out net.Conn, fill byte) error {
	data := bytes.Repeat([]byte{fill}, r.size())
	for i := range data {
		data[i] += byte(i % 19)
	}
	data[len(data)-1] = '\n'
	var noise int64 // how much too late the pieces were
	t0 := time.Now()
	sent := make(chan error, 1)
	go func() {
		b := data
		for k := 0; k < r.Pieces; k++ {
			at := t0.Add(time.Duration(r.Before+k*r.Gap) * time.Millisecond)
			for time.Now().Before(at) {
				step := time.Until(at)
				if step > 10*time.Millisecond {
					step = 10 * time.Millisecond
				}
				t1 := time.Now()
				time.Sleep(step)
				if d := int64(time.Since(t1) - step); d > atomic.LoadInt64(&noise) {
					atomic.StoreInt64(&noise, d)
				}
			}
			n := r.Size
			if k == r.Pieces-1 {
				n = len(b)
			}
			if _, err := out.Write(b[:n]); err != nil {
				sent <- err
				return
			}
			b = b[n:]
		}
		sent <- nil
	}()
	conn.Timeout = trickleTimeout * time.Millisecond
	if !r.slow() {
		conn.Timeout = wait()
	}
	var b []byte
	var n int
	var err error
	switch r.Kind {
	case opPeek:
		b, err = conn.Peek(len(data))
	case opUint16:
		var v uint16
		if v, err = conn.ReadUint16(); err == nil {
			b, n = []byte{byte(v >> 8), byte(v)}, 2
		}
	case opBytes:
		b, err = conn.ReadBytes(len(data))
		n = len(b)
	case opLine:
		var l string
		l, err = conn.ReadLine()
		b, n = []byte(l), len(l)
	case opDiscard:
		n, err = conn.Discard(len(data))
	}
	took := time.Since(t0)
	if n > len(data) || !bytes.HasPrefix(data, b) {
		return fmt.Errorf("%d bytes %.40q that are not next in the stream", n, b)
	}
	if err != nil && !isTimeout(err) {
		return err
	}
	if r.slow() {
		calm := time.Duration(atomic.LoadInt64(&noise)) < 40*time.Millisecond // otherwise time-outs may be late
		if err == nil && calm {
			return latef("succeeds after %v with a time-out of %d ms", took, trickleTimeout)
		}
		if err != nil && took < trickleTimeout*time.Millisecond/2 {
			return fmt.Errorf("timed out after %v, time-out is %d ms", took, trickleTimeout)
		}
		if err != nil && calm && took > trickleTimeout*time.Millisecond+wait()/2 {
			return latef("timed out after %v, time-out is %d ms", took, trickleTimeout)
		}
	} else if err != nil {
		return latef("%v after %v", err, took)
	}
	// The rest is still there.
	conn.Timeout = wait()
	rest, err := conn.ReadBytes(len(data) - n)
	if err != nil {
		return inTime(err, "the rest, %d bytes", len(data)-n)
	}
	if !bytes.Equal(rest, data[n:]) {
		return fmt.Errorf("%d bytes consumed, the rest differs at byte %d of %d", n, firstDiff(rest, data[n:]), len(rest))
	}
	return <-sent
}

func init() {
	register(Spec[trickleCase]{
		Prop: "C35", Name: "trickle", Quick: 480, Thorough: 8000,
		Rule: "1-3 reads of every kind whose data come in pieces while the read waits, in TCP or HTTP mode: each piece within the time-out but all of them only long after it, which must be a time-out (no piece makes the read wait longer), or all of them in time; the rest is then read and compared; non-trivial: a read that has to time out",
		Gen:  genTrickle,
		Labels: func(c trickleCase) (l []string) {
			for _, r := range c.Reads {
				l = append(l, opNames[r.Kind])
				if r.slow() {
					l = append(l, "slow "+opNames[r.Kind])
				}
			}
			return
		},
		Nontrivial: func(c trickleCase) bool {
			for _, r := range c.Reads {
				if r.slow() {
					return true
				}
			}
			return false
		},
		Run: runTrickle,
	})
}
