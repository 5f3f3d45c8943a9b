package sim

import (
	"bytes"
	"encoding/binary"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"time"
)

// Write is one recorded write of the library.
type Write struct {
	Data []byte
	Seq  int
}

// Conn is one endpoint of a transport: the library reads what Feed supplied
// and its writes are recorded. Each write is atomic.
type Conn struct {
	mu   sync.Mutex
	cond *sync.Cond

	in     []byte
	inErr  error               // returned once in is used up
	later  []byte              // arrives after inErr was returned
	once   bool                // inErr is returned once
	Chunk  func(avail int) int // size of the next read; 0 gives an empty read
	WithEr bool                // return the final error together with the last data
	read   int                 // bytes handed out

	out     []byte
	writes  int
	bounds  []int // len(out) after each write
	hold    bool  // writes block while set
	held    int   // writes blocked right now
	WriteOK func(seq int, n int) (int, error)
	Yield   func()
	Torn    []string // contract violations seen: a buffer that changed during its write
	rdWait  int
	closed  bool
	rdl     time.Time // deadlines, if the library sets any
	wdl     time.Time
	parsed  int
	nrec    int
}

func NewConn() *Conn {
	c := &Conn{}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *Conn) Feed(b []byte) {
	c.mu.Lock()
	c.in = append(c.in, b...)
	c.cond.Broadcast()
	c.mu.Unlock()
}

// End makes reads fail with err once everything fed was read.
func (c *Conn) End(err error) {
	c.mu.Lock()
	c.inErr = err
	c.cond.Broadcast()
	c.mu.Unlock()
}

// EndOnce makes one read fail with err once everything fed was read; then later
// can be read.
func (c *Conn) EndOnce(err error, later []byte) {
	c.mu.Lock()
	c.inErr, c.once, c.later = err, true, later
	c.cond.Broadcast()
	c.mu.Unlock()
}

// fail is the error at the end of what was fed; the caller holds mu.
func (c *Conn) fail() error {
	err := c.inErr
	if c.once {
		c.once, c.inErr, c.in = false, nil, c.later
	}
	return err
}

func (c *Conn) Read(p []byte) (int, error) {
	if c.Yield != nil {
		c.Yield()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	for len(c.in) == 0 && c.inErr == nil && !c.closed && !past(c.rdl) {
		c.rdWait++
		c.cond.Wait()
		c.rdWait--
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if past(c.rdl) {
		return 0, os.ErrDeadlineExceeded
	}
	if len(c.in) == 0 {
		return 0, c.fail()
	}
	n := len(p)
	if n > len(c.in) {
		n = len(c.in)
	}
	if c.Chunk != nil {
		k := c.Chunk(n)
		if k < n {
			n = k
		}
		if n <= 0 {
			return 0, nil
		}
	}
	copy(p, c.in[:n])
	c.in = c.in[n:]
	c.read += n
	if len(c.in) == 0 && c.inErr != nil && c.WithEr {
		return n, c.fail()
	}
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	was := append([]byte{}, p...)
	if c.Yield != nil {
		c.Yield()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.hold {
		c.held++
		for c.hold && !c.closed && !past(c.wdl) {
			c.cond.Wait()
		}
		c.held--
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if past(c.wdl) {
		return 0, os.ErrDeadlineExceeded
	}
	if !bytes.Equal(was, p) {
		c.Torn = append(c.Torn, "buffer changed while it was being written")
	}
	seq := c.writes
	c.writes++
	n, err := len(p), error(nil)
	if c.WriteOK != nil {
		n, err = c.WriteOK(seq, len(p))
	}
	c.out = append(c.out, p[:n]...)
	c.bounds = append(c.bounds, len(c.out))
	c.cond.Broadcast()
	return n, err
}

func past(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

// Net is a Conn that is a net.Conn too, for a library that makes use of that.
type Net struct{ *Conn }

type addr string

func (a addr) Network() string { return "sim" }
func (a addr) String() string  { return string(a) }

func (n Net) LocalAddr() net.Addr  { return addr("here") }
func (n Net) RemoteAddr() net.Addr { return addr("there") }

func (n Net) Close() error {
	n.mu.Lock()
	n.closed = true
	n.cond.Broadcast()
	n.mu.Unlock()
	return nil
}

func (n Net) set(l *time.Time, t time.Time) error {
	n.mu.Lock()
	*l = t
	n.cond.Broadcast()
	n.mu.Unlock()
	if !t.IsZero() {
		time.AfterFunc(time.Until(t), func() {
			n.mu.Lock()
			n.cond.Broadcast()
			n.mu.Unlock()
		})
	}
	return nil
}

func (n Net) SetReadDeadline(t time.Time) error  { return n.set(&n.rdl, t) }
func (n Net) SetWriteDeadline(t time.Time) error { return n.set(&n.wdl, t) }
func (n Net) SetDeadline(t time.Time) error {
	n.set(&n.rdl, t)
	return n.set(&n.wdl, t)
}

// Hold blocks (or releases) writes.
func (c *Conn) Hold(h bool) {
	c.mu.Lock()
	c.hold = h
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Settled says how many complete records the output holds and what follows the
// last, having looked only at what was written since the last time.
func (c *Conn) Settled() (recs, rest int, bad bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.out)-c.parsed >= 4 {
		h := binary.BigEndian.Uint32(c.out[c.parsed:])
		if h&(1<<31) == 0 {
			return c.nrec, len(c.out) - c.parsed, true
		}
		n := 4 + int(h&^(1<<31))
		if len(c.out)-c.parsed < n {
			break
		}
		c.parsed += n
		c.nrec++
	}
	return c.nrec, len(c.out) - c.parsed, false
}

// Held is the number of writes blocked by Hold.
func (c *Conn) Held() int { c.mu.Lock(); defer c.mu.Unlock(); return c.held }

// Out is a copy of everything written so far.
func (c *Conn) Out() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte{}, c.out...)
}

// Forget drops what was written so far.
func (c *Conn) Forget() {
	c.mu.Lock()
	c.out, c.bounds, c.parsed = nil, nil, 0
	c.mu.Unlock()
}

// Writes counts the writes made.
func (c *Conn) Writes() int { c.mu.Lock(); defer c.mu.Unlock(); return c.writes }

// Unread is how much of what was fed the library has not taken.
func (c *Conn) Unread() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.in) }

// Waiting says whether a read is blocked for lack of input.
func (c *Conn) Waiting() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.rdWait > 0 }

func (c *Conn) TornWrites() []string { c.mu.Lock(); defer c.mu.Unlock(); return c.Torn }

// Pair is an in-memory duplex stream between two goroutines.
func Pair() (a, b *End) {
	x, y := newPipe(), newPipe()
	return &End{x, y}, &End{y, x}
}

type pipe struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	closed bool
}

func newPipe() *pipe { p := &pipe{}; p.cond = sync.NewCond(&p.mu); return p }

type End struct{ r, w *pipe }

func (e *End) Read(p []byte) (int, error) {
	runtime.Gosched()
	q := e.r
	q.mu.Lock()
	defer q.mu.Unlock()
	for len(q.buf) == 0 && !q.closed {
		q.cond.Wait()
	}
	if len(q.buf) == 0 {
		return 0, io.EOF
	}
	n := copy(p, q.buf)
	q.buf = q.buf[n:]
	return n, nil
}

func (e *End) Write(p []byte) (int, error) {
	q := e.w
	q.mu.Lock()
	defer q.mu.Unlock()
	if q.closed {
		return 0, io.ErrClosedPipe
	}
	q.buf = append(q.buf, p...)
	q.cond.Broadcast()
	return len(p), nil
}

func (e *End) Close() error {
	for _, q := range []*pipe{e.r, e.w} {
		q.mu.Lock()
		q.closed = true
		q.cond.Broadcast()
		q.mu.Unlock()
	}
	return nil
}
