package main

// Loopback plumbing shared by the socket properties: canary, patience, cut-up writes.

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"syscall"
)

// late is an expectation that was not met in time.  It becomes a violation only if it happens again while the machine is
// demonstrably responsive (see settle).
type late struct{ error }

func latef(format string, args ...interface{}) error { return late{fmt.Errorf(format, args...)} }

var (
	patience  atomic.Int64 // nanoseconds
	confirmed atomic.Bool
)

func init() { patience.Store(int64(12 * time.Second)) }

func wait() time.Duration { return time.Duration(patience.Load()) }

// canary measures, all the time, how long a loopback exchange between two goroutines of this process takes.
type canaryT struct {
	mu    sync.Mutex
	log   []canaryObs
	start sync.Once
	since atomic.Int64 // start of the exchange in progress
}

type canaryObs struct {
	at time.Time
	d  time.Duration
}

var canary canaryT

func (c *canaryT) run() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return
	}
	go func() {
		conn, err := ln.Accept()
		if err != nil {
			return
		}
		io.Copy(conn, conn)
	}()
	conn, err := net.Dial("tcp", ln.Addr().String())
	if err != nil {
		return
	}
	var b [1]byte
	for {
		t0 := time.Now()
		c.since.Store(t0.UnixNano())
		time.Sleep(20 * time.Millisecond)
		if _, err := conn.Write(b[:]); err != nil {
			return
		}
		if _, err := io.ReadFull(conn, b[:]); err != nil {
			return
		}
		c.mu.Lock()
		c.log = append(c.log, canaryObs{t0, time.Since(t0)})
		if len(c.log) > 4000 {
			c.log = append([]canaryObs{}, c.log[2000:]...)
		}
		c.mu.Unlock()
	}
}

func (c *canaryT) up() { c.start.Do(func() { go c.run() }) }

// worst is the longest exchange since t.
func (c *canaryT) worst(t time.Time) time.Duration {
	c.mu.Lock()
	defer c.mu.Unlock()
	w := time.Since(time.Unix(0, c.since.Load()))
	for _, o := range c.log {
		if o.at.Add(o.d).After(t) && o.d > w {
			w = o.d
		}
	}
	return w
}

const responsive = 700 * time.Millisecond

// settle runs a case against real sockets.  A missed expectation counts only if it is missed twice, on a responsive machine.
func settle(run func() error) error {
	canary.up()
	try := func() error {
		t0 := time.Now()
		err := run()
		tick()
		var l late
		if err != nil && errors.As(err, &l) {
			if w := canary.worst(t0); w > responsive {
				return inconclusivef("%v, but a loopback exchange took %v meanwhile", err, w)
			}
		} else if err != nil {
			var hb harnessBug
			if !errors.As(err, &hb) && canary.worst(t0) > responsive {
				// The client has time-outs of its own, which a starved machine may trigger.
				return inconclusivef("%v, but the machine was starved meanwhile", err)
			}
		}
		return err
	}
	err := try()
	if err == nil {
		return nil
	}
	var l late
	var inc inconclusive
	if (errors.As(err, &l) && !confirmed.Load()) || errors.As(err, &inc) {
		if err = try(); err == nil {
			return nil
		}
	}
	if errors.As(err, &l) && !errors.As(err, &inc) {
		confirmed.Store(true) // shrink faster from here on
		patience.Store(int64(4 * time.Second))
	}
	return err
}

var ticks atomic.Int64

// tick lets finalizers close the client's connections, which have no Close.
func tick() {
	if ticks.Add(1)%100 == 0 {
		runtime.GC()
	}
}

// writeCut writes data in pieces of the given sizes (cyclically; none means in one piece), with short pauses so that at
// least some of them arrive one by one.
func writeCut(c net.Conn, data []byte, cuts []int) error {
	if len(cuts) == 0 {
		_, err := c.Write(data)
		return err
	}
	pauses, most := 0, 5
	if len(data) > 3000 {
		most = 16
	}
	for i := 0; len(data) > 0; i++ {
		n := cuts[i%len(cuts)]
		if n < 1 {
			n = 1
		}
		if i > 60 && n < 1400 { // enough of small pieces
			n = 1400
		}
		if n > len(data) {
			n = len(data)
		}
		if _, err := c.Write(data[:n]); err != nil {
			return err
		}
		data = data[n:]
		if pauses < most {
			pauses++
			time.Sleep(80 * time.Microsecond)
		}
	}
	return nil
}

// bytesSpec stands for pseudo-random bytes, so that big bodies do not end up in the replay file.
type bytesSpec struct {
	Seed uint64
	Len  int
	Kind int // 0: any byte, 1: bytes that look like messages
}

func (b bytesSpec) make() []byte {
	out := make([]byte, 0, b.Len+64)
	x := b.Seed*2862933555777941757 + 3037000493
	next := func() uint64 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return x
	}
	words := []string{"RTSP/1.0 200 OK\r\n", "$\x00\x00\x04abcd", "\r\n\r\n", "CSeq: 3\r\n", "$", "\x00\x00\x01", "Content-Length: 10\r\n", "HTTP/1.0 200 OK\r\n\r\n"}
	for len(out) < b.Len {
		v := next()
		if b.Kind == 1 {
			out = append(out, words[(v>>20)%uint64(len(words))]...)
			continue
		}
		for k := 0; k < 8; k++ {
			out = append(out, byte(v>>(8*k)))
		}
	}
	return out[:b.Len:b.Len]
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// enterNetns prepares the network of a worker that was started in a network namespace of its own: it brings the loopback
// interface up and gives it a second address.
func enterNetns() error {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return err
	}
	defer syscall.Close(fd)
	type ifreq struct {
		name [16]byte
		data [24]byte
	}
	ioctl := func(req uintptr, r *ifreq) error {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), req, uintptr(unsafe.Pointer(r))); e != 0 {
			return e
		}
		return nil
	}
	var up ifreq
	copy(up.name[:], "lo")
	up.data[0] = syscall.IFF_UP | syscall.IFF_RUNNING
	if err := ioctl(syscall.SIOCSIFFLAGS, &up); err != nil {
		return err
	}
	var ad ifreq
	copy(ad.name[:], "lo:1")
	*(*uint16)(unsafe.Pointer(&ad.data[0])) = syscall.AF_INET
	copy(ad.data[4:8], []byte{10, 77, 0, 1})
	if err := ioctl(syscall.SIOCSIFADDR, &ad); err != nil {
		return err
	}
	ownAddr = "10.77.0.1"
	return nil
}

// loopback returns a loopback address that is hardly used by anybody else, so that ports do not run out: a port stays in use
// for a minute after a connection.
func loopback() string {
	if oneLoopback.Load() {
		return "127.0.0.1"
	}
	n := uint32(os.Getpid())*2654435761 + uint32(loopbacks.Add(1))*40503
	return fmt.Sprintf("127.%d.%d.%d", 1+n>>24%250, n>>16&255, 1+n>>8%250)
}

var (
	loopbacks   atomic.Int64
	oneLoopback atomic.Bool // other addresses do not work
)

// listenLocal opens a listener on the loopback interface.
func listenLocal() (net.Listener, error) {
	if !oneLoopback.Load() {
		if ln, err := net.Listen("tcp", net.JoinHostPort(loopback(), "0")); err == nil {
			return ln, nil
		}
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			oneLoopback.Store(true)
			return ln, nil
		}
	}
	end := time.Now().Add(70 * time.Second)
	for {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err == nil || time.Now().After(end) {
			return ln, err
		}
		time.Sleep(time.Second)
	}
}

// ownAddr is a local address other than 127.0.0.1, if there is one.
var ownAddr string

// lockUDP serialises the use of the client's fixed UDP ports between workers that share a network.
func lockUDP() (unlock func(), err error) {
	if ownAddr != "" {
		releaseOwnPorts()
		return func() {}, nil
	}
	f, err := os.OpenFile(env("VERIF_UDP_LOCK", "/tmp/verif-udp.lock"), os.O_CREATE|os.O_RDWR, 0o666)
	if err != nil {
		return nil, harnessBug{err}
	}
	if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX); err != nil {
		f.Close()
		return nil, harnessBug{err}
	}
	releaseOwnPorts()
	return func() { f.Close() }, nil
}

func isTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout() || err != nil && strings.Contains(err.Error(), "i/o timeout")
}
