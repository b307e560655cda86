package main

// C18: a listener serves until it is shut down.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	p "github.com/Harvey-OS/ninep/protocol"
)

func init() {
	checks["C18"] = check{run: c18, level: "exploration", races: true}
}

// fakeListener accepts what it is told to.
type fakeListener struct {
	name     string
	ch       chan acceptance
	closed   chan struct{}
	once     sync.Once
	accepts  atomic.Int64 // calls of Accept
	closes   atomic.Int64
	closeErr error
	after    error // what Accept says once closed
}

type acceptance struct {
	c   net.Conn
	err error
}

func newFake(name string) *fakeListener {
	return &fakeListener{name: name, ch: make(chan acceptance, 1000), closed: make(chan struct{}), after: net.ErrClosed}
}

func (f *fakeListener) Accept() (net.Conn, error) {
	f.accepts.Add(1)
	select { // what has been accepted by the host is handed over first
	case a := <-f.ch:
		return a.c, a.err
	default:
	}
	select {
	case a := <-f.ch:
		return a.c, a.err
	case <-f.closed:
		return nil, f.after
	}
}

func (f *fakeListener) Close() error {
	f.closes.Add(1)
	f.once.Do(func() { close(f.closed) })
	return f.closeErr
}
func (f *fakeListener) Addr() net.Addr { return strAddr(f.name) }

// tempErr is an error of the network that says it is temporary.
type tempErr struct{ timeout bool }

func (t tempErr) Error() string   { return "temporary trouble of the monitor" }
func (t tempErr) Temporary() bool { return true }
func (t tempErr) Timeout() bool   { return t.timeout }

// permErr is an error of the network that says it is not.
type permErr struct{}

func (permErr) Error() string   { return "the network is gone, says the monitor" }
func (permErr) Temporary() bool { return false }
func (permErr) Timeout() bool   { return false }

var tempErrs = []error{tempErr{}, tempErr{true},
	&net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EMFILE)},
	&net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.ENFILE)},
	&net.OpError{Op: "accept", Net: "tcp", Err: syscall.ECONNABORTED},
	&net.OpError{Op: "accept", Net: "tcp", Err: syscall.ECONNRESET}}

var permErrs = []error{errors.New("no network"), permErr{}, io.EOF, net.ErrClosed,
	&net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EINVAL)},
	&net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}}

// bell is a listener with its file servers answering by connection number.
type bell struct {
	r    *R
	l    *p.Listener
	made atomic.Int64
	hold chan struct{} // a stat blocks until this is closed
	in   atomic.Int64  // handlers blocked
}

// newBell makes a listener whose file servers number their connections: a read
// returns the number of the file server and its own count of reads.
func newBell(r *R, trace bool) *bell {
	b := &bell{r: r, hold: make(chan struct{})}
	l, err := p.NewListener(func() p.NineServer {
		n := b.made.Add(1)
		k := 0
		return &recNS{h: func(t uint8, a []any) ([]any, error) {
			switch t {
			case Tversion:
				return a, nil
			case Tread:
				k++
				return []any{[]byte(fmt.Sprintf("%d %d", n, k))}, nil
			case Tstat:
				b.in.Add(1)
				<-b.hold
				return []any{noTouch.encode()}, nil
			}
			return nil, errors.New("not served")
		}}
	}, func(l *p.Listener) error { l.Trace = tracerFor(trace); return nil })
	r.must(err)
	b.l = l
	return b
}

// caller is a client of a bell.
type caller struct {
	b  *bell
	x  *raw
	id string
	k  int
}

func (b *bell) call(c net.Conn, why string) *caller {
	x := newRaw(b.r, c, why)
	x.log = false
	m, bad := x.rpc(Tversion, uint32(8192), "9P2000")
	if bad != "" || m.isErr() {
		b.r.fail("%s: a connection is not served: %v %s", why, m, bad)
	}
	cl := &caller{b: b, x: x}
	cl.ask(why)
	return cl
}

func (c *caller) ask(why string) {
	m, bad := c.x.rpc(Tread, uint32(1), uint64(0), uint32(100))
	if bad != "" || m.isErr() {
		c.b.r.fail("%s: a connection is not served any more: %v %s", why, m, bad)
	}
	c.k++
	var id string
	var k int
	fmt.Sscanf(string(m.F[0].([]byte)), "%s %d", &id, &k)
	if c.id == "" {
		c.id = id
	}
	if id != c.id || k != c.k {
		c.b.r.fail("%s: request %d of the connection of file server %s was handled as number %d of file server %s", why, c.k, c.id, k, id)
	}
	c.b.r.count("requests served", 1)
}

func serving(b *bell, ln net.Listener) chan error {
	ch := make(chan error, 1)
	go func() {
		b.r.guard("Serve", func() { ch <- b.l.Serve(ln) })
	}()
	return ch
}

func stillServing(r *R, ch chan error, why string) {
	select {
	case err := <-ch:
		r.fail("%s: Serve returned %v", why, err)
	default:
	}
}

func c18(r *R) {
	r.rule = "A case is a call of Serve on a scripted, TCP or Unix listener, with connections, temporary and permanent accept errors and Shutdown in some order. Connections have to be served as they come, also while others " +
		"block or do not read, Serve has to go on after a temporary error and return an error with its listener closed after a permanent one or a shutdown, and what was accepted goes on being served. Under the race " +
		"detector. Distinct: by script."
	for _, e := range tempErrs {
		if ne, ok := e.(net.Error); !ok || !ne.Temporary() {
			r.broken("%v is not temporary", e)
		}
	}
	var long sync.WaitGroup
	long.Add(2)
	go func() { defer long.Done(); c18outage(r) }()
	go func() { defer long.Done(); c18idle(r) }()
	c18scripts(r)
	c18shutdown(r)
	c18blocked(r)
	c18real(r)
	c18storm(r)
	c18crowd(r)
	c18descriptors(r)
	long.Wait()
	r.need("requests served", 2000)
	r.need("temporary errors survived", 200)
	r.need("shutdowns", 60)
	r.need("permanent errors", 20)
	r.need("connections served at once", 5000)
	r.need("connections served after a shutdown", 60)
}

// conn hands the listener a connection.
func (f *fakeListener) conn() net.Conn {
	a, b := newPipe(f.name)
	f.ch <- acceptance{c: b}
	return a
}

// ended: Serve has returned an error and its listener is closed.
func ended(r *R, ch chan error, f *fakeListener, why string) error {
	err := await(r, ch, "Serve to return after %s", why)
	if err == nil {
		r.fail("%s: Serve returned no error", why)
	}
	if f != nil && f.closes.Load() == 0 {
		r.fail("%s: Serve returned %v and left its listener open", why, err)
	}
	return err
}

// c18scripts: connections and errors in some order, then a permanent error or a
// shutdown.
func c18scripts(r *R) {
	for i := 0; i < r.scale(60, 1500); i++ {
		g := r.sub("script", i)
		b := newBell(r, i%3 == 2)
		ln := newFake(fmt.Sprint("l", i))
		ch := serving(b, ln)
		var cs []*caller
		key := ""
		for s := 0; s < 3+g.Intn(8); s++ {
			switch g.Intn(3) {
			case 0:
				n := 1 + g.Intn(4)
				for k := 0; k < n; k++ {
					e := g.Intn(len(tempErrs))
					key += fmt.Sprint("t", e)
					ln.ch <- acceptance{err: tempErrs[e]}
				}
				r.count("temporary errors survived", n)
			default:
				n := 1 + g.Intn(3)
				var l []net.Conn
				for k := 0; k < n; k++ {
					l = append(l, ln.conn())
				}
				key += fmt.Sprint("c", n)
				for k := len(l) - 1; k >= 0; k-- {
					cs = append(cs, b.call(l[k], "after "+key))
				}
			}
			for _, c := range cs {
				c.ask("after " + key)
			}
			if len(cs) > 0 && g.Intn(4) == 0 {
				cs[0].x.hangup()
				cs = cs[1:]
				key += "h"
			}
			stillServing(r, ch, "after "+key)
		}
		c := b.call(ln.conn(), "at the end of "+key)
		cs = append(cs, c)
		if i%2 == 0 {
			e := permErrs[i/2%len(permErrs)]
			ln.ch <- acceptance{err: e}
			key += "p" + fmt.Sprint(i/2%len(permErrs))
			ended(r, ch, ln, "the permanent error "+e.Error())
			r.count("permanent errors", 1)
		} else {
			r.guard("Shutdown", func() { b.l.Shutdown() })
			key += "s"
			ended(r, ch, ln, "a shutdown")
			r.count("shutdowns", 1)
		}
		for _, c := range cs {
			c.ask("after the listener ended, " + key)
			r.count("connections served after a shutdown", 1)
			c.x.hangup()
		}
		r.eval(key)
		if i < 4 {
			r.sample("%s", key)
		}
	}
}

// c18outage: a long row of temporary errors; the pauses must not grow without
// bound.
func c18outage(r *R) {
	b := newBell(r, true)
	ln := newFake("outage")
	ch := serving(b, ln)
	n := 15
	for k := 0; k < n; k++ {
		ln.ch <- acceptance{err: tempErrs[k%len(tempErrs)]}
	}
	c := b.call(ln.conn(), "after a row of temporary errors")
	stillServing(r, ch, "after a row of temporary errors")
	r.count("temporary errors survived", n)
	// It serves as before.
	for k := 0; k < 5; k++ {
		b.call(ln.conn(), "after an outage").x.hangup()
	}
	// Shut down while it pauses.
	for k := 0; k < 7; k++ {
		ln.ch <- acceptance{err: tempErrs[0]}
	}
	eventually(r, func() bool { return len(ln.ch) == 0 }, "Serve stopped accepting after a temporary error")
	b.l.Shutdown()
	ended(r, ch, ln, "a shutdown during a pause")
	r.count("shutdowns", 1)
	c.ask("after a shutdown during a pause")
	c.x.hangup()
	r.eval("outage")
}

// c18shutdown: many listeners served by one Listener.
func c18shutdown(r *R) {
	for i := 0; i < r.scale(40, 800); i++ {
		g := r.sub("shutdown", i)
		b := newBell(r, i%3 == 2)
		n := 1 + g.Intn(6)
		var lns []*fakeListener
		var chs []chan error
		var cs []*caller
		for k := 0; k < n; k++ {
			ln := newFake(fmt.Sprint("l", k))
			if i%4 == 1 {
				// Listeners in different networks can have addresses that look the same.
				ln.name = "l"
			}
			if g.Intn(3) == 0 {
				ln.closeErr = errors.New("close fails, says the monitor")
			}
			lns = append(lns, ln)
			chs = append(chs, serving(b, ln))
			cs = append(cs, b.call(ln.conn(), "on one of several listeners"))
		}
		// One of them ends by itself; the others stay.
		gone := -1
		if n > 1 && g.Intn(2) == 0 {
			gone = g.Intn(n)
			if g.Intn(2) == 0 {
				lns[gone].ch <- acceptance{err: permErrs[0]}
			} else {
				lns[gone].Close()
			}
			ended(r, chs[gone], lns[gone], "the end of one of several listeners")
			for k := range lns {
				if k != gone {
					stillServing(r, chs[k], "after another listener ended")
					if lns[k].closes.Load() > 0 {
						r.fail("a listener was closed because another one ended")
					}
					cs = append(cs, b.call(lns[k].conn(), "after another listener ended"))
				}
			}
		}
		// Connections arrive as it happens.
		var wg sync.WaitGroup
		if i%2 == 1 {
			for k := 0; k < 3; k++ {
				ln := lns[g.Intn(n)]
				wg.Add(1)
				go func() {
					defer wg.Done()
					select {
					case <-ln.closed:
					default:
						a, sc := newPipe("late")
						select {
						case ln.ch <- acceptance{c: sc}:
						case <-ln.closed:
						}
						_ = a
					}
				}()
			}
		}
		times := 1 + g.Intn(3)
		for k := 0; k < times; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.guard("Shutdown", func() { b.l.Shutdown() })
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		await(r, done, "%d calls of Shutdown to return", times)
		for k := range lns {
			if lns[k].closes.Load() == 0 {
				r.fail("Shutdown returned and listener %d of %d is open (some fail to close)", k, n)
			}
			if k != gone {
				ended(r, chs[k], lns[k], fmt.Sprintf("a shutdown of %d listeners", n))
			}
		}
		r.count("shutdowns", 1)
		for _, c := range cs {
			c.ask("after a shutdown")
			r.count("connections served after a shutdown", 1)
			c.x.hangup()
		}
		r.eval(fmt.Sprint("shutdown", i, n, gone, times))
	}
}

// c18blocked: connections whose requests block, or that do not read what is sent
// to them, or say nothing, hold up nobody.
func c18blocked(r *R) {
	for i := 0; i < r.scale(12, 100); i++ {
		b := newBell(r, i%3 == 2)
		ln := newFake("b")
		ch := serving(b, ln)
		var stuck []*caller
		n := 1 + i*3
		for k := 0; k < n; k++ {
			switch k % 3 {
			case 0:
				c := b.call(ln.conn(), "before others block")
				c.x.send(Msg{Tstat, 5, []any{uint32(1)}})
				stuck = append(stuck, c)
			case 1: // says nothing
				ln.conn()
			case 2: // does not read
				a, sc := net.Pipe()
				ln.ch <- acceptance{c: sc}
				go a.Write(Msg{Tversion, NOTAG, []any{uint32(8192), "9P2000"}}.frame())
				defer a.Close()
			}
		}
		eventually(r, func() bool { return int(b.in.Load()) == len(stuck) }, "%d requests were sent and are not being handled at the same time", len(stuck))
		c := b.call(ln.conn(), fmt.Sprintf("while %d other connections block", n))
		for k := 0; k < 5; k++ {
			c.ask("while others block")
		}
		if i%2 == 0 {
			b.l.Shutdown()
			ended(r, ch, ln, "a shutdown while connections block")
			r.count("shutdowns", 1)
		}
		close(b.hold)
		for _, s := range stuck {
			f := s.x.recvFrame("the reply to a request that was being handled")
			if f == nil {
				r.fail("a request being handled at shutdown was not answered: the connection was closed")
			}
			if m, err := decodeFrame(f); err != nil || m.Type != Rstat || m.Tag != 5 {
				r.fail("a request that was being handled is answered %v (%v)", m, err)
			}
			s.ask("after having been blocked")
			r.count("connections served after a shutdown", 1)
			s.x.hangup()
		}
		c.x.hangup()
		if i%2 == 1 {
			b.l.Shutdown()
			ended(r, ch, ln, "a shutdown")
			r.count("shutdowns", 1)
		}
		r.eval(fmt.Sprint("blocked", n, i%2))
	}
}

// c18real: TCP and Unix listeners.
func c18real(r *R) {
	for i := 0; i < r.scale(24, 300); i++ {
		g := r.sub("real", i)
		b := newBell(r, i%3 == 2)
		network, addr := "tcp4", "127.0.0.1:0"
		if i%2 == 1 {
			network, addr = "unix", fmt.Sprintf("%s/sock%d", r.dir, i)
		}
		ln, err := net.Listen(network, addr)
		r.must(err)
		ch := serving(b, ln)
		dial := func() net.Conn {
			c, err := net.Dial(network, ln.Addr().String())
			if err != nil {
				stillServing(r, ch, "connecting")
				r.fail("a %s listener being served does not take connections: %v", network, err)
			}
			return c
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var cs []*caller
		n := 1 + g.Intn(10)
		for k := 0; k < n; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c := b.call(dial(), "on "+network)
				for j := 0; j < 5; j++ {
					c.ask("on " + network)
				}
				mu.Lock()
				cs = append(cs, c)
				mu.Unlock()
			}()
		}
		for k := 0; k < n; k++ { // some that go at once
			c := dial()
			if tc, ok := c.(*net.TCPConn); ok && k%2 == 0 {
				tc.SetLinger(0)
			}
			c.Close()
		}
		wg.Wait()
		b.call(dial(), "on "+network).x.hangup()
		stillServing(r, ch, "serving "+network)
		if i%3 == 0 {
			ln.Close()
			ended(r, ch, nil, "its listener was closed")
		} else {
			b.l.Shutdown()
			ended(r, ch, nil, "a shutdown")
			r.count("shutdowns", 1)
		}
		if c, err := net.Dial(network, ln.Addr().String()); err == nil {
			// Somebody else may have the port by now; this process must not.
			if _, e := ln.Accept(); !errors.Is(e, net.ErrClosed) {
				r.fail("after the end of Serve its %s listener still accepts", network)
			}
			c.Close()
		}
		for _, c := range cs {
			c.ask("after a shutdown, on " + network)
			r.count("connections served after a shutdown", 1)
			c.x.hangup()
		}
		r.eval(fmt.Sprint("real", network, n, i))
	}
}

// c18idle: connections on which nothing happens for long, before and after a
// shutdown.
func c18idle(r *R) {
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		b := newBell(r, i == 5)
		ln, err := net.Listen("tcp4", "127.0.0.1:0")
		r.must(err)
		ch := serving(b, ln)
		c, err := net.Dial("tcp4", ln.Addr().String())
		r.must(err)
		k := b.call(c, "before a rest")
		wg.Add(1)
		go func() {
			defer wg.Done()
			rest := time.Duration(r.scale(4+i, 40+10*i)) * time.Second
			if i%2 == 0 {
				b.l.Shutdown()
				ended(r, ch, nil, "a shutdown")
				time.Sleep(rest)
				k.ask("long after a shutdown")
				k.ask("long after a shutdown")
				r.count("connections served after a shutdown", 1)
			} else {
				time.Sleep(rest)
				k.ask("after a rest")
				stillServing(r, ch, "a rest")
				c, err := net.Dial("tcp4", ln.Addr().String())
				if err != nil {
					r.fail("after a rest of %v a listener being served does not take connections: %v", rest, err)
				}
				b.call(c, "on a connection made after a rest").x.hangup()
				b.l.Shutdown()
				ended(r, ch, nil, "a shutdown")
			}
			k.x.hangup()
			r.count("connections idle for seconds", 1)
			r.eval(fmt.Sprint("idle", i))
		}()
	}
	wg.Wait()
}

// c18storm: everything at once; what counts is that it ends, and the race
// detector.
func c18storm(r *R) {
	for i := 0; i < r.scale(20, 400); i++ {
		g := r.sub("storm", i)
		b := newBell(r, i%2 == 1)
		n := 2 + g.Intn(5)
		var lns []*fakeListener
		var chs []chan error
		for k := 0; k < n; k++ {
			ln := newFake(fmt.Sprint("l", k))
			for j := 0; j < 3; j++ {
				if g.Intn(2) == 0 {
					ln.ch <- acceptance{err: tempErrs[g.Intn(len(tempErrs))]}
				} else {
					_, sc := newPipe("storm")
					ln.ch <- acceptance{c: sc}
				}
			}
			lns = append(lns, ln)
			chs = append(chs, serving(b, ln))
		}
		for spin := g.Intn(2000); spin > 0; spin-- {
			runtime.Gosched()
		}
		// A Serve that has not begun when Shutdown is called is not shut down by
		// that call, so wait for the first Accept.
		for _, ln := range lns {
			eventually(r, func() bool { return ln.accepts.Load() > 0 }, "Serve does not accept")
		}
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			wg.Add(1)
			go func() { defer wg.Done(); b.l.Shutdown() }()
		}
		wg.Wait()
		for k := range chs {
			ended(r, chs[k], lns[k], "a shutdown in the middle of things")
		}
		r.count("shutdowns", 1)
		r.eval(fmt.Sprint("storm", i, n))
	}
}

// c18crowd: thousands of connections at a time, on one listener and on several,
// that come and go.
func c18crowd(r *R) {
	n := r.scale(2600, 5000)
	for i := 0; i < r.scale(2, 6); i++ {
		g := r.sub("crowd", i)
		b := newBell(r, false)
		var lns []*fakeListener
		var chs []chan error
		for k := 0; k <= i%2*3; k++ {
			lns = append(lns, newFake(fmt.Sprint("crowd", k)))
			chs = append(chs, serving(b, lns[k]))
		}
		at := 0
		ask := func(c net.Conn, m Msg, what string) {
			type result struct {
				b   []byte
				err error
			}
			at++
			x := await(r, one(func() result {
				if _, err := c.Write(m.frame()); err != nil {
					return result{nil, err}
				}
				h := make([]byte, 4)
				if _, err := io.ReadFull(c, h); err != nil {
					return result{nil, err}
				}
				b := make([]byte, binary.LittleEndian.Uint32(h))
				copy(b, h)
				_, err := io.ReadFull(c, b[4:])
				return result{b, err}
			}), "reply to %v on %s", m, what)
			if rep, err := decodeFrame(x.b); x.err != nil || err != nil || rep.Tag != m.Tag || rep.Type != rOf(m.Type) {
				r.fail("%s: %v is answered by %v %v %v", what, m, rep, err, x.err)
			}
			r.count("requests served", 1)
		}
		var cs []net.Conn
		connect := func(k int) net.Conn {
			c := lns[k%len(lns)].conn()
			ask(c, Msg{Tversion, NOTAG, []any{uint32(8192), "9P2000"}}, fmt.Sprintf("connection %d, %d are open", k, len(cs)))
			return c
		}
		for k := 0; k < n; k++ {
			cs = append(cs, connect(k))
		}
		for k := 0; k < n; k++ { // some go and others come
			c := g.Intn(n)
			switch g.Intn(3) {
			case 0:
				cs[c].Close()
				cs[c] = connect(k)
			case 1:
				ask(cs[c], Msg{Tread, uint16(k), []any{uint32(1), uint64(0), uint32(100)}}, fmt.Sprintf("one of %d connections", n))
			}
		}
		b.l.Shutdown()
		for k := range lns {
			ended(r, chs[k], lns[k], "Shutdown")
		}
		for k, c := range cs {
			ask(c, Msg{Tread, uint16(k), []any{uint32(1), uint64(0), uint32(100)}}, fmt.Sprintf("connection %d of %d after the shutdown", k, n))
			c.Close()
		}
		r.count("connections served at once", n)
		r.eval(fmt.Sprint("crowd", i))
	}
}

// c18descriptors: the command runs out of descriptors and recovers.
func c18descriptors(r *R) {
	root := r.dir + "/nofile"
	r.must(os.MkdirAll(root, 0755))
	data := pattern(1000)
	mkfile(r, root+"/wtns", data, 0644)
	for i, network := range []string{"tcp4", "unix"} {
		u := startUFSLimited(r, network, root, 0, 40)
		w := ufsWitness(r, u.session("witness", 8192), data)
		var l []net.Conn
		for k := 0; k < 60; k++ {
			c, err := net.Dial(network, u.addr)
			if err != nil {
				break
			}
			l = append(l, c)
			if k%10 == 0 {
				w.check("connections until there are no descriptors left")
			}
		}
		time.Sleep(100 * time.Millisecond)
		w.check("having no descriptors left")
		u.alive("it ran out of descriptors")
		for _, c := range l {
			c.Close()
		}
		for k := 0; k < 5; k++ {
			u.session(fmt.Sprintf("connection %d after running out of descriptors", k), 8192).hangup()
		}
		w.check("having run out of descriptors")
		u.alive("it had run out of descriptors")
		// Now a client opens all it can.
		x := u.session("a client that opens all it can", 8192)
		x.rpc(Tattach, uint32(0), uint32(NOFID), "u", "")
		refused := 0
		for k := uint32(1); k <= 60; k++ {
			for _, m := range []Msg{{Twalk, 0, []any{uint32(0), k, []string{"wtns"}}}, {Topen, 0, []any{k, uint8(OREAD)}}} {
				rep, bad := x.rpc(m.Type, m.F...)
				if bad != "" {
					u.alive("a client opened all it can")
					r.fail("ufs command: %v, with %d files open, is answered %s", m, k-1, bad)
				}
				if rep.isErr() && m.Type == Topen {
					refused++
				}
			}
			if k%10 == 0 {
				w.check("opening all there are descriptors for")
			}
		}
		r.count("opens refused for want of descriptors", refused)
		x.hangup()
		for k := 0; k < 3; k++ {
			y := u.session("a client after one that opened all it can", 8192)
			if m, bad := y.rpc(Tattach, uint32(0), uint32(NOFID), "u", ""); bad != "" || m.isErr() {
				r.fail("after a client that opened all it can: attach: %v %s", m, bad)
			}
			y.hangup()
		}
		w.check("a client having opened all it can")
		u.alive("a client had opened all it can")
		w.x.hangup()
		u.kill()
		r.count("times without descriptors", 1)
		r.count("temporary errors survived", 1)
		r.eval(fmt.Sprint("nofile", i))
	}
}
