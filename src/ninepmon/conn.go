package main

// Connections that cut the stream as they like, and a raw 9P client that
// decodes replies with the reference codec.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	p "github.com/Harvey-OS/ninep/protocol"
)

type strAddr string

func (a strAddr) Network() string { return "mon" }
func (a strAddr) String() string  { return string(a) }

// pipe is a buffered, in-memory full-duplex connection. The reads of each end
// return as much as its segmenter says; writes never block.
type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	b      []byte
	closed bool  // no more will be written
	err    error // what a read returns after that
}

func newHalf() *half { h := &half{}; h.cond = sync.NewCond(&h.mu); return h }

func (h *half) write(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.closed {
		return 0, io.ErrClosedPipe
	}
	h.b = append(h.b, b...)
	h.cond.Broadcast()
	return len(b), nil
}

func (h *half) close(err error) {
	h.mu.Lock()
	if !h.closed {
		h.closed, h.err = true, err
	}
	h.cond.Broadcast()
	h.mu.Unlock()
}

type pipeEnd struct {
	r, w     *half
	seg      func(avail, want int) int // how much of a read to give
	name     string
	isClosed atomic.Bool
	onClose  func()
	werr     atomic.Pointer[error] // writes fail with this
	wlimit   atomic.Int64          // bytes until writes fail, if werr is set
	delay    func()
	rdl, wdl atomic.Pointer[time.Time] // deadlines
}

func (c *pipeEnd) readLate() bool {
	d := c.rdl.Load()
	return d != nil && !d.IsZero() && !time.Now().Before(*d)
}

func (c *pipeEnd) Read(b []byte) (int, error) {
	if c.delay != nil {
		c.delay()
	}
	h := c.r
	h.mu.Lock()
	defer h.mu.Unlock()
	for len(h.b) == 0 && !h.closed && !c.isClosed.Load() && !c.readLate() {
		h.cond.Wait()
	}
	if c.readLate() && !c.isClosed.Load() {
		return 0, os.ErrDeadlineExceeded
	}
	if c.isClosed.Load() {
		return 0, io.ErrClosedPipe
	}
	if len(h.b) == 0 {
		if h.err != nil {
			return 0, h.err
		}
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := min(len(b), len(h.b))
	if c.seg != nil {
		n = max(1, min(n, c.seg(len(h.b), len(b))))
	}
	copy(b, h.b[:n])
	h.b = h.b[n:]
	if len(h.b) == 0 {
		h.b = nil
	}
	return n, nil
}

func (c *pipeEnd) Write(b []byte) (int, error) {
	if c.delay != nil {
		c.delay()
	}
	if c.isClosed.Load() {
		return 0, io.ErrClosedPipe
	}
	if d := c.wdl.Load(); d != nil && !d.IsZero() && !time.Now().Before(*d) {
		return 0, os.ErrDeadlineExceeded
	}
	if e := c.werr.Load(); e != nil {
		n := int(c.wlimit.Load())
		if n >= len(b) {
			c.wlimit.Add(-int64(len(b)))
		} else {
			c.wlimit.Store(0)
			c.w.write(b[:n])
			return n, *e
		}
	}
	return c.w.write(b)
}

func (c *pipeEnd) Close() error {
	if c.isClosed.Swap(true) {
		return nil
	}
	c.w.close(nil)
	c.r.mu.Lock()
	c.r.closed = true
	c.r.cond.Broadcast()
	c.r.mu.Unlock()
	if c.onClose != nil {
		c.onClose()
	}
	return nil
}

// closeWrite half-closes: the other end reads what is there, then err.
func (c *pipeEnd) closeWrite(err error) { c.w.close(err) }
func (c *pipeEnd) LocalAddr() net.Addr  { return c.addr() }
func (c *pipeEnd) RemoteAddr() net.Addr { return c.addr() }

// addr is the same for about half of all connections, as those of one Unix
// socket have it.
func (c *pipeEnd) addr() net.Addr {
	h := fnv.New32a()
	io.WriteString(h, c.name)
	if h.Sum32()>>7&1 == 0 {
		return strAddr("mon")
	}
	return strAddr(c.name)
}
func (c *pipeEnd) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *pipeEnd) SetReadDeadline(t time.Time) error {
	c.rdl.Store(&t)
	wake := func() {
		c.r.mu.Lock()
		c.r.cond.Broadcast()
		c.r.mu.Unlock()
	}
	if t.IsZero() || !time.Now().Before(t) {
		wake()
	} else {
		time.AfterFunc(time.Until(t)+time.Microsecond, wake)
	}
	return nil
}
func (c *pipeEnd) SetWriteDeadline(t time.Time) error { c.wdl.Store(&t); return nil }

func newPipe(name string) (a, b *pipeEnd) {
	h1, h2 := newHalf(), newHalf()
	return &pipeEnd{r: h1, w: h2, name: name + ".a"}, &pipeEnd{r: h2, w: h1, name: name + ".b"}
}

// segmenters

func segAll(avail, want int) int { return avail }
func segOne(avail, want int) int { return 1 }
func segRand(g *rand.Rand) func(int, int) int {
	var mu sync.Mutex
	mode := g.Intn(4)
	return func(avail, want int) int {
		mu.Lock()
		defer mu.Unlock()
		switch mode {
		case 0:
			return 1 + g.Intn(3)
		case 1:
			return 1 + g.Intn(avail)
		case 2:
			return []int{1, 2, 3, 4, 5, 6, 7, 8, 16, 4096, 1 << 20}[g.Intn(11)]
		}
		if g.Intn(4) == 0 {
			return 1
		}
		return avail
	}
}

// a raw client
type raw struct {
	r      *R
	c      net.Conn
	frames chan []byte // complete frames, then closed
	endErr error       // why the reader ended, valid once frames is closed
	rest   []byte      // bytes of an incomplete frame at the end
	wq     chan []byte
	wdone  chan struct{}
	name   string
	msize  uint32
	tag    uint16
	gtag   *rand.Rand
	log    bool
}

func newRaw(r *R, c net.Conn, name string) *raw {
	x := &raw{r: r, c: c, frames: make(chan []byte, 1<<16), wq: make(chan []byte, 1<<12), wdone: make(chan struct{}), name: name, log: true}
	go x.reader()
	go x.writer()
	return x
}

func (x *raw) reader() {
	defer close(x.frames)
	for {
		h := make([]byte, 4)
		if n, err := io.ReadFull(x.c, h); err != nil {
			x.rest, x.endErr = h[:n], err
			return
		}
		n := binary.LittleEndian.Uint32(h)
		if n < 7 || n > 1<<28 {
			x.rest, x.endErr = h, fmt.Errorf("reply says it is %d bytes long", n)
			return
		}
		b := make([]byte, n)
		copy(b, h)
		if k, err := io.ReadFull(x.c, b[4:]); err != nil {
			x.rest, x.endErr = b[:4+k], err
			return
		}
		x.frames <- b
	}
}

func (x *raw) writer() {
	defer close(x.wdone)
	for b := range x.wq {
		if b == nil {
			return
		}
		if _, err := x.c.Write(b); err != nil {
			// Keep draining so that nobody blocks.
			for b := range x.wq {
				if b == nil {
					return
				}
			}
			return
		}
	}
}

func (x *raw) sendBytes(b []byte) { x.wq <- b }
func (x *raw) send(m Msg)         { x.wq <- m.frame() }

// flush waits until everything queued is written.
func (x *raw) hangup() {
	x.c.Close()
	select {
	case x.wq <- nil:
	case <-x.wdone:
	}
}

var errGone = errors.New("connection closed")

// recvFrame returns the next frame, or nil if the connection ended.
func (x *raw) recvFrame(what string) []byte {
	return await(x.r, x.frames, "%s: %s", x.name, what)
}

func (x *raw) nextTag() uint16 {
	if x.gtag != nil {
		for {
			t := g16(x.gtag)
			if t != NOTAG && t != x.tag {
				x.tag = t
				return t
			}
		}
	}
	x.tag++
	if x.tag == NOTAG {
		x.tag = 1
	}
	return x.tag
}

// rpc sends a request and returns the reply, which has to be a well-formed one
// with the tag of the request and of the matching type or an error. The string
// says what is wrong with it otherwise.
func (x *raw) rpc(typ uint8, f ...any) (Msg, string) {
	m := Msg{typ, x.nextTag(), f}
	if typ == Tversion {
		m.Tag = NOTAG
	}
	x.send(m)
	b := x.recvFrame("reply to " + m.String())
	if x.log {
		if b == nil {
			x.r.tracef("%s %v -> connection closed", x.name, m)
		}
	}
	if b == nil {
		return Msg{}, fmt.Sprintf("no reply to %v: connection closed (%v)", m, x.endErr)
	}
	rep, err := decodeFrame(b)
	if x.log {
		x.r.tracef("%s %v -> %v", x.name, m, rep)
	}
	if err != nil {
		return rep, fmt.Sprintf("reply to %v does not decode: %v: %s", m, err, abbrev(b))
	}
	if rep.Tag != m.Tag {
		return rep, fmt.Sprintf("reply to %v has tag %d", m, rep.Tag)
	}
	if rep.Type != Rerror && rep.Type != rOf(typ) {
		return rep, fmt.Sprintf("reply to %v is %v", m, rep)
	}
	return rep, ""
}

func (m Msg) isErr() bool { return m.Type == Rerror }
func (m Msg) etext() string {
	if m.Type == Rerror {
		return m.F[0].(string)
	}
	return ""
}

// attachPipe gives the listener a new in-memory connection.
func attachPipe(r *R, l *p.Listener, name string, seg func(int, int) int) (*raw, *pipeEnd, *pipeEnd) {
	a, b := newPipe(name)
	b.seg = seg
	r.must(l.Accept(b))
	return newRaw(r, a, name), a, b
}
