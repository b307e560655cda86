package main

// C16: nothing stays open.

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	p "github.com/Harvey-OS/ninep/protocol"
)

func init() {
	checks["C16"] = check{run: c16, level: "exploration"}
}

func c16(r *R) {
	r.rule = "A case is a stretch of ten requests of a random history, after each of which the descriptors of the process below the exported tree are compared in number with the open fids, or one " +
		"connection with files and directories open that is ended in one of many ways (closed at a message boundary or within one, half closed, a frame with an impossible size, failing reads and writes, reset, " +
		"session restarted), after which the descriptors, the connection and its goroutine have to be gone. The garbage collector is off. Distinct: by history or by way and state."
	debug.SetGCPercent(-1)
	w := weights{"attach": 3, "walk": 14, "open": 24, "read": 6, "write": 4, "clunk": 8, "create": 14, "mkdir": 3, "remove": 7, "clone": 5, "wstat": 4, "list": 2, "readdir": 5, "stat": 1, "version": 2, "flush": 1}
	for i := 0; i < r.scale(3, 20); i++ {
		randomCasesFrom(r, caseOpts{props: "C16", cases: r.scale(12, 60), steps: 150, special: true, fds: true, shallow: false, w: w, debug: i%3 == 2}, i*1000)
		runtime.GC()
	}
	dictCases(r, "C16", true, false)
	runtime.GC()
	c16modes(r)
	c16many(r)
	c16race(r)
	c16pipes(r)
	c16ends(r)
	r.need("pipes of the host opened", 20)
	r.need("requests while the host changes the files", 2000)
	r.need("sessions with hundreds of open files", 6)
	r.need("descriptor tables judged with open files", 2000)
	r.need("connections ended", 100)
}

// c16modes: open and create with every mode, of what can be opened and what can't.
func c16modes(r *R) {
	for _, dbg := range []bool{false, true} {
		l := newUFS(r, dbg)
		e := bench(r, l, fmt.Sprintf("modes%v", dbg), "C16", 8192, func(e *env) {
			e.buildTree(true)
			r.must(syscall.Mknod(e.root+"/sock", syscall.S_IFSOCK|0755, 0))
		})
		e.fds = true
		e.deep = false
		inCase(func() {
			for _, f := range []string{"a", "d", "ro", "wo", "none", "empty", "dangling", "sock", "rodir", "nodir", "exe"} {
				for mode := 0; mode < 0x40; mode++ {
					e.reopen(1, f, uint8(mode))
					e.open(1, uint8(mode)) // a second time: refused
					e.read(1, 0, 100)
					e.write(1, 0, []byte("x"))
					if e.fids[1] != nil {
						e.remove1(1, f == "a" || f == "exe")
					}
					if f == "a" || f == "exe" {
						mkfile(r, e.root+"/"+f, []byte("again"), 0755)
						e.begin()
					}
					if mode%5 == 0 && e.fids[1] != nil {
						e.clunk(1)
					}
					r.eval(fmt.Sprint("mode", f, mode, dbg))
				}
			}
			for _, name := range []string{"new", "a", "d", "ro", "rodir", "..", "x/y", strings.Repeat("n", 256), "dangling", "sock"} {
				for mode := 0; mode < 0x40; mode++ {
					if e.fids[1] != nil {
						e.clunk(1)
					}
					e.walk(0, 1)
					e.create(1, name, []uint32{0644, DMDIR | 0755, 0444, 0}[mode%4], uint8(mode))
					r.eval(fmt.Sprint("create", name, mode, dbg))
					if name == "new" {
						e.clunk(1)
						os.RemoveAll(e.root + "/new")
						e.begin()
					}
				}
			}
		})
		e.done()
	}
}

// remove1 removes the file of a fid, or tries to.
func (e *env) remove1(fid uint32, ok bool) {
	if ok && e.g.Intn(3) == 0 {
		e.remove(fid)
		return
	}
	e.clunk(fid)
}

// c16many: a session with very many open files.
// c16pipes: the tree has a named pipe, which the host lets nobody open until
// there is another end to it. A connection that tries ends like any other.
func c16pipes(r *R) {
	for round := 0; round < r.scale(1, 4); round++ {
		for mode := 0; mode < 0x20; mode++ {
			if mode > 3 && mode < 0x10 || mode > 0x13 {
				continue
			}
			for _, way := range []string{"opened", "opened and given up", "created over"} {
				l := newUFS(r, false)
				base := runtime.NumGoroutine()
				e := bench(r, l, fmt.Sprintf("pipe%d-%d-%s", round, mode, way[:6]+way[len(way)-2:]), "C16", 8192, func(e *env) {
					r.must(syscall.Mkfifo(e.root+"/pipe", 0666))
					mkfile(r, e.root+"/f", []byte("x"), 0666)
				})
				x := e.x
				x.rpc(Tattach, uint32(0), uint32(NOFID), "u", "")
				x.rpc(Twalk, uint32(0), uint32(1), []string{"pipe"})
				x.rpc(Twalk, uint32(0), uint32(2), []string{})
				x.rpc(Twalk, uint32(0), uint32(3), []string{"f"})
				x.rpc(Topen, uint32(3), uint8(OREAD))
				m := Msg{Topen, 9, []any{uint32(1), uint8(mode)}}
				if way == "created over" {
					m = Msg{Tcreate, 9, []any{uint32(2), "pipe", uint32(0644), uint8(mode)}}
				}
				x.send(m)
				if way == "opened" {
					x.recvFrame("reply to " + m.String() + " of a named pipe")
					x.rpc(Tread, uint32(1), uint64(0), uint32(10))
					x.rpc(Twrite, uint32(1), uint64(0), []byte("x"))
					x.rpc(Tclunk, uint32(1))
					if l := openFDs(e.outer); len(l) != 1 {
						r.fail("a named pipe was opened (mode %#x) and clunked, and with one other fid open %d files are: %v", mode, len(l), l)
					}
				}
				x.hangup()
				var left []string
				eventuallyf(r, func() bool { left = openFDs(e.outer); return len(left) == 0 && runtime.NumGoroutine() <= base }, func() string {
					return fmt.Sprintf("a client had a named pipe %s (mode %#x) and went away: %d goroutines, %d before; open files: %v", way, mode, runtime.NumGoroutine(), base, left)
				})
				r.count("pipes of the host opened", 1)
				r.eval(fmt.Sprint("pipe", mode, way))
				e.x = nil
				e.done()
			}
		}
	}
}

// c16race: the host's files come and go while requests are made, so requests
// fail half way; none of them may leave a file open.
func c16race(r *R) {
	for i := 0; i < r.scale(6, 60); i++ {
		l := newUFS(r, false)
		e := bench(r, l, fmt.Sprint("race", i), "C16", 8192, func(e *env) {
			r.must(os.Mkdir(e.root+"/sub", 0755))
			mkfile(r, e.root+"/keep", []byte("x"), 0644)
		})
		base := len(openFDs(e.outer))
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			g := r.sub(fmt.Sprint("racer", i), k)
			wg.Add(1)
			go func() {
				defer wg.Done()
				f, s := e.root+"/r", e.root+"/s"
				for {
					select {
					case <-stop:
						return
					default:
					}
					switch {
					case k < 2 || i%3 == 0:
						syscall.Unlink(f)
					case i%3 == 1:
						syscall.Rename(f, s)
						syscall.Unlink(s)
						syscall.Rmdir(f)
					default:
						switch g.Intn(5) {
						case 0:
							syscall.Mkdir(f, 0755)
						case 1:
							syscall.Rmdir(f)
						case 2:
							if fd, err := syscall.Open(f, syscall.O_CREAT|syscall.O_EXCL|syscall.O_RDWR|syscall.O_CLOEXEC, 0666); err == nil {
								syscall.Close(fd)
							}
						case 3:
							syscall.Symlink("keep", f)
						case 4:
							syscall.Unlink(f)
						}
					}
				}
			}()
		}
		n, failed := r.scale(900, 4000), 0
		inCase(func() {
			e.call(Tattach, uint32(0), uint32(NOFID), "me", "")
			for j := 0; j < n; j++ {
				m := e.call(Twalk, uint32(0), uint32(1), []string{})
				if m.isErr() {
					r.broken("%s", e.last)
				}
				if j%5 < 3 {
					m = e.call(Tcreate, uint32(1), "r", uint32(0666), []uint8{OREAD, OWRITE, ORDWR, ORDWR | OTRUNC}[j%4])
				} else {
					if f, err := os.OpenFile(e.root+"/r", os.O_CREATE|os.O_WRONLY, 0666); err == nil {
						f.Close()
					}
					if m = e.call(Twalk, uint32(0), uint32(2), []string{"r"}); !m.isErr() && len(m.F[0].([]QID)) == 1 {
						m = e.call(Topen, uint32(2), []uint8{OREAD, ORDWR, ORDWR | OTRUNC}[j%3])
						if j%7 == 3 {
							e.call(Tremove, uint32(2))
						} else {
							e.call(Tclunk, uint32(2))
						}
					}
				}
				if m.isErr() {
					failed++
				}
				if j%11 == 6 {
					e.call(Tremove, uint32(1))
				} else {
					e.call(Tclunk, uint32(1))
				}
			}
		})
		close(stop)
		wg.Wait()
		if left := openFDs(e.outer); len(left) != base {
			r.fail("%d creates and opens, %d of them failing as the host's files came and went, and all fids clunked: %d files are still open, such as %s", n, failed, len(left)-base, left[len(left)-1])
		}
		r.count("requests while the host changes the files", e.nops)
		r.count("creates and opens that failed as the file went away", failed)
		r.eval(fmt.Sprint("race", i, failed))
		e.done()
	}
}

func c16many(r *R) {
	ways := []string{"hangup", "restart", "clunk", "remove"}
	sizes := []int{65, 257, 1025, 4097}
	if r.thorough {
		sizes = append(sizes, 12000)
	}
	for si, n := range sizes {
		for wi, way := range ways {
			if n > 2000 && !r.thorough && way != "hangup" {
				continue
			}
			l := newUFS(r, (si+wi)%2 == 1)
			e := bench(r, l, fmt.Sprintf("many%d%s", n, way), "C16", 8192, func(e *env) {
				for i := 0; i < 50; i++ {
					mkfile(r, fmt.Sprintf("%s/f%d", e.root, i), []byte("x"), 0644)
				}
				r.must(os.Mkdir(e.root+"/sub", 0755))
			})
			g := e.g
			base := len(openFDs(e.outer))
			inCase(func() {
				e.call(Tattach, uint32(0), uint32(NOFID), "me", "")
				var fids []uint32
				for i := 0; i < n; i++ {
					fid := uint32(i + 1)
					if i%2 == 1 {
						fid = g.Uint32() | 1<<20
					}
					f := fmt.Sprintf("f%d", g.Intn(50))
					if i%9 == 0 {
						f = "sub"
					}
					if m := e.call(Twalk, uint32(0), fid, []string{f}); m.isErr() {
						continue // in use
					}
					if m := e.call(Topen, fid, uint8(OREAD)); m.isErr() {
						r.broken("%s", e.last)
					}
					fids = append(fids, fid)
				}
				if k := len(openFDs(e.outer)) - base; k != len(fids) {
					e.bad("C16", "%d fids are open, %d files", len(fids), k)
				}
				switch way {
				case "restart":
					e.x.rpc(Tversion, uint32(8192), "9P2000")
				case "clunk", "remove":
					typ := uint8(Tclunk)
					if way == "remove" {
						typ = Tremove
					}
					g.Shuffle(len(fids), func(i, j int) { fids[i], fids[j] = fids[j], fids[i] })
					for i, fid := range fids {
						e.call(typ, fid)
						if i%64 == 63 || i == len(fids)-1 {
							if k := len(openFDs(e.outer)) - base; k != len(fids)-i-1 {
								e.bad("C16", "after %s %d fids are open, %d files", e.last, len(fids)-i-1, k)
							}
						}
					}
				case "hangup":
					e.x.hangup()
				}
				var left []string
				eventuallyf(r, func() bool { left = openFDs(e.outer); return len(left) == base }, func() string {
					return fmt.Sprintf("%d files were open; after %s %d still are, such as %s", len(fids), way, len(left), left[0])
				})
				r.count("sessions with hundreds of open files", 1)
				r.eval(fmt.Sprint("many", n, way))
			})
			e.done()
		}
	}
}

var errReset = errors.New("connection reset by monitor")

func c16ends(r *R) {
	ways := []string{"close", "half-close", "half-close with an error", "cut header", "cut body", "size 0", "size 6", "huge size", "write error", "write error after part of a reply", "restart then close", "restart", "tcp close", "tcp reset",
		"tcp half-close", "tcp size 0", "tcp size 6", "close during requests", "many requests and close"}
	for round := 0; round < r.scale(3, 40); round++ {
		for wi, way := range ways {
			for _, dbg := range []bool{false, true} {
				l := newUFS(r, round%2 == 1)
				g := r.sub("ends"+way, round)
				e := newEnv(r, g, fmt.Sprintf("end%d-%d-%v", round, wi, dbg), "C16")
				e.buildTree(true)
				base, base0 := runtime.NumGoroutine(), inCode()
				var closed atomic.Bool
				var a, b *pipeEnd
				var tc *net.TCPConn
				var ln net.Listener
				isTCP := way[:3] == "tcp"
				bare := false // the connection is what the network made it
				if isTCP {
					var err error
					ln, err = net.Listen("tcp4", "127.0.0.1:0")
					r.must(err)
					done := make(chan struct{})
					bare = (round+wi)%2 == 0
					go func() {
						if bare {
							l.Serve(ln)
						} else {
							l.Serve(&watchListener{ln, &closed})
						}
						close(done)
					}()
					setFlags(e.root, dbg) // it is accepted as soon as that
					c, err := net.Dial("tcp4", ln.Addr().String())
					r.must(err)
					tc = c.(*net.TCPConn)
					e.x = ufsConn(r, l, e.root, dbg, tc, nil, way, 8192)
					l.Shutdown()
					await(r, done, "Serve to return after Shutdown")
				} else {
					a, b = newPipe("end")
					b.onClose = func() { closed.Store(true) }
					e.x = ufsConn(r, l, e.root, dbg, a, b, way, 8192)
				}
				e.deep = false
				e.begin()
				inCase(func() {
					e.attach(0, NOFID, "me", "")
					for k, f := range []string{"a", "big", "exe", "d", "d/e", "empty", "b", "ro"} {
						e.walk(0, uint32(10+k), split(f)...)
						m := uint8(OREAD)
						if f == "b" {
							m = ORDWR
						}
						e.open(uint32(10+k), m)
					}
					e.readDir(13, 0, 8192) // in the middle of a listing
					e.walk(0, 30)
					e.create(30, "created", 0600, ORDWR)
					e.write(30, 0, []byte("data"))
					e.walk(0, 31)
					e.create(31, "created-dir", DMDIR|0700, OREAD)
					e.walk(10, 40) // a clone
					e.open(99, OREAD)
					e.create(10, "no", 0600, OREAD)
					e.remove(11)
					if way == "restart" || way == "restart then close" {
						e.version(4096)
						if n := openFDs(e.outer); len(n) > 0 {
							e.bad("C16", "after the session was restarted %d files are still open: %v", len(n), n)
						}
						e.attach(0, NOFID, "me", "")
						e.walk(0, 10, "a")
						e.open(10, OREAD)
					}
					if n := len(openFDs(e.outer)); n == 0 {
						r.broken("nothing was open before the end of the connection")
					}
				})
				x := e.x
				switch way {
				case "close", "restart", "restart then close":
					x.hangup()
				case "half-close":
					a.closeWrite(io.EOF)
				case "half-close with an error":
					a.closeWrite(errReset)
				case "cut header":
					x.sendBytes([]byte{19, 0, 0, 0, Tread, 1}[:1+g.Intn(6)])
					flushAndClose(x, a)
				case "cut body":
					x.sendBytes(Msg{Twrite, 1, []any{uint32(30), uint64(0), gBytes(g, 300)}}.frame()[:8+g.Intn(300)])
					flushAndClose(x, a)
				case "size 0", "tcp size 0":
					x.sendBytes([]byte{0, 0, 0, 0, Tread, 1, 0, 1, 1})
				case "size 6", "tcp size 6":
					x.sendBytes([]byte{6, 0, 0, 0, Tread, 1, 0})
				case "huge size":
					x.sendBytes([]byte{255, 255, 255, 255, Twrite, 1, 0, 1, 2, 3})
					flushAndClose(x, a)
				case "write error", "write error after part of a reply":
					err := errReset
					if way == "write error after part of a reply" {
						b.wlimit.Store(int64(1 + g.Intn(20)))
					}
					b.werr.Store(&err)
					x.send(Msg{Tread, 5, []any{uint32(10), uint64(0), uint32(50)}})
				case "tcp close":
					tc.Close()
				case "tcp reset":
					tc.SetLinger(0)
					tc.Close()
				case "tcp half-close":
					tc.CloseWrite()
				case "close during requests":
					for k := 0; k < 50; k++ {
						x.send(Msg{Tread, uint16(k), []any{uint32(10), uint64(0), uint32(50)}})
					}
					for k := 0; k < g.Intn(40); k++ {
						runtime.Gosched()
					}
					x.hangup()
				case "many requests and close":
					for k := 0; k < 200; k++ {
						fid := uint32(1000 + k)
						if k == 150 {
							fid = NOFID // not much of a fid, it may well be refused
						}
						x.send(Msg{Twalk, uint16(k), []any{uint32(0), fid, []string{"a"}}})
						x.send(Msg{Topen, uint16(k), []any{fid, uint8(OREAD)}})
					}
					flushAndClose(x, a)
				}
				what := fmt.Sprintf("%s, debug %v", way, dbg)
				var left []string
				eventuallyf(r, func() bool { left = openFDs(e.outer); return len(left) == 0 }, func() string {
					return fmt.Sprintf("connection ended (%s): files are still open: %v", what, left)
				})
				if !bare {
					eventuallyf(r, closed.Load, func() string { return fmt.Sprintf("connection ended (%s): the server did not close its end", what) })
				} else if way == "tcp size 0" || way == "tcp size 6" || way == "tcp half-close" {
					for await(r, x.frames, "%s: the server to close its end", what) != nil {
					}
				}
				eventuallyf(r, func() bool { return inCode() <= base0 }, func() string {
					return fmt.Sprintf("connection ended (%s): its goroutine has not ended", what)
				})
				if tc != nil {
					tc.Close()
				}
				x.hangup()
				eventuallyf(r, func() bool { return runtime.NumGoroutine() <= base }, func() string {
					return fmt.Sprintf("connection ended (%s): %d goroutines, %d before", what, runtime.NumGoroutine(), base)
				})
				r.count("connections ended", 1)
				r.count("ended by: "+way, 1)
				r.eval(fmt.Sprint(way, dbg, round))
				e.x = nil
				e.done()
			}
			runtime.GC()
		}
	}
	r.sample("ways: %v", ways)
	// A connection that ends early: before it has negotiated, or right after. Half of
	// them have a file server of one's own that has nothing to close.
	early := []string{"hangup", "end", "end with an error", "bad size", "size 0", "cut header", "cut body", "write error", "refused request", "malformed request"}
	for i := 0; i < r.scale(4, 40)*len(early); i++ {
		way := early[i%len(early)]
		g := r.sub("early", i)
		pool := &nsPool{}
		var l *p.Listener
		var err error
		if i/len(early)%2 == 0 {
			l, err = p.NewListener(pool.create)
			r.must(err)
		} else {
			l = newUFS(r, false)
		}
		base := runtime.NumGoroutine()
		a, b := newPipe("plain")
		r.must(l.Accept(b))
		x := newRaw(r, a, "plain")
		versioned := i/len(early)/2%2 == 1
		if versioned {
			x.send(Msg{Tversion, NOTAG, []any{uint32(8192), "9P2000"}})
			x.recvFrame("reply to Tversion")
		}
		switch way {
		case "hangup":
			x.hangup()
		case "end":
			a.closeWrite(nil)
		case "end with an error":
			a.closeWrite(errReset)
		case "bad size":
			x.sendBytes([]byte{byte(1 + g.Intn(6)), 0, 0, 0, 0, 0, 0})
		case "size 0":
			x.sendBytes([]byte{0, 0, 0, 0, Tversion, 0xff, 0xff})
		case "cut header":
			x.sendBytes([]byte{19, 0, 0, 0, Tversion, 0xff}[:1+g.Intn(6)])
			flushAndClose(x, a)
		case "cut body":
			x.sendBytes([]byte{19, 0, 0, 0, Tversion, 0xff, 0xff, 0, 1, 1}[:7+g.Intn(4)])
			flushAndClose(x, a)
		case "write error":
			err := errReset
			b.werr.Store(&err)
			x.send(Msg{Tversion, NOTAG, []any{uint32(8192), "9P2000"}})
		case "refused request":
			x.send(Msg{Tclunk, 1, []any{uint32(77)}})
			flushAndClose(x, a)
		case "malformed request":
			x.sendBytes([]byte{9, 0, 0, 0, Tclunk, 1, 0, 7, 7})
			flushAndClose(x, a)
		}
		what := fmt.Sprintf("%s, negotiated %v", way, versioned)
		eventuallyf(r, b.isClosed.Load, func() string { return fmt.Sprintf("connection ended (%s): the server did not close its end", what) })
		x.hangup()
		eventuallyf(r, func() bool { return runtime.NumGoroutine() <= base }, func() string {
			return fmt.Sprintf("connection ended (%s): its goroutine did not end", what)
		})
		r.count("connections ended", 1)
		r.count("ended early by: "+way, 1)
		r.eval("early" + what)
	}
}

// inCode counts the goroutines that run code under test.
func inCode() (n int) {
	b := make([]byte, 1<<20)
	for _, g := range strings.Split(string(b[:runtime.Stack(b, true)]), "\n\n") {
		if strings.Contains(g, "Harvey-OS/ninep/protocol.") {
			n++
		}
	}
	return n
}

func flushAndClose(x *raw, a *pipeEnd) {
	x.wq <- nil
	<-x.wdone
	a.closeWrite(nil)
}

func eventuallyf(r *R, cond func() bool, what func() string) {
	for i := 0; i < 50; i++ {
		if cond() {
			return
		}
		time.Sleep(time.Millisecond)
	}
	for i := 0; i < stallTicks*5; i++ {
		if cond() {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	r.tracef("%s", stacks())
	r.fail("%s", what())
}

// watchListener notes when the connection it accepted is closed.
type watchListener struct {
	net.Listener
	closed *atomic.Bool
}

func (w *watchListener) Accept() (net.Conn, error) {
	c, err := w.Listener.Accept()
	if err != nil {
		return nil, err
	}
	return &watchConn{c, w.closed}, nil
}

type watchConn struct {
	net.Conn
	closed *atomic.Bool
}

func (w *watchConn) Close() error { w.closed.Store(true); return w.Conn.Close() }
