package main

// C21: the ufs command as a process.

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	p "github.com/Harvey-OS/ninep/protocol"
)

func init() {
	checks["C21"] = check{run: c21, level: "exploration"}
}

func c21(r *R) {
	r.rule = "A case is a request made to the ufs command, run as a process on a TCP or Unix address with its -root given in some form. Histories are held against the model and the host's tree; the process is killed " +
		"with SIGKILL as soon as a reply comes, or in the middle of a stream of requests, and everything acknowledged has to be in the host's tree; many clients, clients that send garbage, do not read or go away " +
		"in the middle of a message do not stop it from answering a client that does nothing wrong. Distinct: by request history, kill position and client mix."
	idle := c21idle(r)
	c21model(r)
	c21root(r)
	c21kill(r)
	c21stream(r)
	c21many(r)
	c21hostile(r)
	c21client(r)
	c18descriptors(r)
	idle()
	r.need("sessions idle for long", 6)
	r.need("requests judged by the model", 1500)
	r.need("processes killed after an acknowledgement", 40)
	r.need("acknowledged effects found after a kill", 200)
	r.need("requests of the witness", 200)
	r.need("clients at once", 200)
}

// c21idle leaves processes and connections to themselves while everything else
// runs; the function it returns waits until they have been idle for long and
// judges them.
func c21idle(r *R) func() {
	root := r.dir + "/idle"
	r.must(os.MkdirAll(root+"/d", 0777))
	mkfile(r, root+"/f", pattern(3000), 0666)
	start := time.Now()
	var ends []func()
	for _, network := range []string{"tcp4", "unix"} {
		u := startUFS(r, network, root, 0)
		x := u.session("idle", 8192)
		do := func(x *raw, t uint8, f ...any) Msg {
			m, bad := x.rpc(t, f...)
			if bad != "" || m.isErr() {
				u.alive("it had been idle")
				r.fail("ufs command, %v after a client's last request: %v is answered %v %s", time.Since(start).Round(time.Second), Msg{t, 0, f}, m, bad)
			}
			return m
		}
		do(x, Tattach, uint32(0), uint32(NOFID), "u", "")
		do(x, Twalk, uint32(0), uint32(1), []string{"f"})
		do(x, Topen, uint32(1), uint8(ORDWR))
		do(x, Twrite, uint32(1), uint64(0), []byte(network))
		// Nothing sent yet, and half a message.
		quiet := u.dial()
		half := u.dial()
		v := Msg{Tversion, NOTAG, []any{uint32(8192), "9P2000"}}.frame()
		half.Write(v[:9])
		ends = append(ends, func() {
			after := fmt.Sprintf("%v of silence", time.Since(start).Round(time.Second))
			u.alive("it had been idle for " + after)
			y := u.session("a client after "+after, 8192) // to a listener that was idle as long
			do(y, Tattach, uint32(0), uint32(NOFID), "u", "/d")
			y.hangup()
			do(x, Twrite, uint32(1), uint64(1), []byte(network))
			if m := do(x, Tread, uint32(1), uint64(1), uint32(len(network))); string(m.F[0].([]byte)) != network {
				r.fail("ufs command, after %s: read %v", after, m)
			}
			do(x, Twalk, uint32(0), uint32(2), []string{"d"})
			do(x, Tclunk, uint32(1))
			x.hangup()
			h := newRaw(r, half, "completed after "+after)
			h.sendBytes(v[9:])
			if b := h.recvFrame("reply to Tversion, completed after " + after); b == nil {
				r.fail("ufs command, after %s within a message the connection was closed", after)
			} else if m, err := decodeFrame(b); err != nil || m.isErr() {
				r.fail("ufs command, after %s within a Tversion: %v %v", after, m, err)
			}
			do(h, Tattach, uint32(0), uint32(NOFID), "u", "")
			h.hangup()
			q := newRaw(r, quiet, "first request after "+after)
			do(q, Tversion, uint32(8192), "9P2000")
			do(q, Tattach, uint32(0), uint32(NOFID), "u", "")
			q.hangup()
			r.count("sessions idle for long", 3)
			r.eval("idle " + network)
			u.kill()
		})
	}
	return func() {
		if d := time.Duration(r.scale(38, 190))*time.Second - time.Since(start); d > 0 {
			time.Sleep(d)
		}
		for _, f := range ends {
			f()
		}
	}
}

// rootForms are ways to say where the root is, as seen from outer.
var rootForms = []func(e *env) (root, dir string){
	func(e *env) (string, string) { return e.root, "/" },
	func(e *env) (string, string) { return e.root + "/", "/" },
	func(e *env) (string, string) { return e.outer + "//x/./root/../root", "/" },
	func(e *env) (string, string) { return "x/root", e.outer },
	func(e *env) (string, string) { return "./x/root/", e.outer },
	func(e *env) (string, string) { return ".", e.root },
	func(e *env) (string, string) { return "../root", e.root },
}

// c21model: random histories.
func c21model(r *R) {
	for i := 0; i < r.scale(14, 140); i++ {
		network := []string{"tcp4", "unix", "tcp"}[i%3]
		g := r.sub("model", i)
		e := newEnv(r, g, fmt.Sprintf("proc%d", i), "C21")
		e.umaskTo(0)
		e.shared = true
		e.buildTree(i%2 == 1)
		root, dir := rootForms[i%len(rootForms)](e)
		args := []string{}
		if i%4 == 3 {
			args = append(args, "-debug", "1")
		}
		old := ufsUser
		switch i % 3 {
		case 0:
			ufsUser = "harvey" // what it is if nothing is said
		case 1:
			args = append(args, "-user", ufsUser)
		case 2:
			ufsUser = "somebody else"
			args = append(args, "-user", ufsUser)
		}
		u := startUFSIn(r, dir, network, root, 0, 0, args...)
		e.x = u.session("model", 65536)
		e.begin()
		r.tracef("--- ufs -root %s in %s", root, dir)
		ok := inCase(func() {
			key := root
			for s := 0; s < 150; s++ {
				op := e.step(evenWeights)
				key += op[:2] + e.last[:min(len(e.last), 40)]
				if s%40 == 39 {
					e.probeAll(fidPool)
				}
				if s%10 == 9 {
					r.eval(key)
					key = fmt.Sprint(i, s)
				}
				u.alive(e.last)
			}
		})
		if ok {
			r.count("histories completed", 1)
		}
		r.count("requests judged by the model", e.nops)
		u.alive("its clients did nothing wrong")
		u.kill()
		e.done()
		ufsUser = old
	}
}

// c21root: the whole of the host's tree exported, as it is by default.
func c21root(r *R) {
	d := r.dir + "/viaroot"
	r.must(os.MkdirAll(d+"/d", 0777))
	data := pattern(5000)
	mkfile(r, d+"/f", data, 0644)
	for i, root := range []string{"/", "", "//"} {
		u := startUFSIn(r, d, "unix", root, 0, 0)
		x := u.session("root", 65536)
		do := func(t uint8, f ...any) Msg {
			m, bad := x.rpc(t, f...)
			if bad != "" || m.isErr() {
				r.fail("ufs -root %q: %v is answered %v %s", root, Msg{t, 0, f}, m, bad)
			}
			return m
		}
		do(Tattach, uint32(0), uint32(NOFID), "u", "")
		do(Tattach, uint32(9), uint32(NOFID), "u", d)
		names := append([]string{"..", ".."}, split(d)...)
		do(Twalk, uint32(0), uint32(1), append(append([]string{}, names...), "f"))
		do(Topen, uint32(1), uint8(OREAD))
		if m := do(Tread, uint32(1), uint64(0), uint32(8000)); !bytes.Equal(m.F[0].([]byte), data) {
			r.fail("ufs -root %q: a file reads %s", root, abbrev(m.F[0].([]byte)))
		}
		do(Twalk, uint32(0), uint32(2), append(names, "d"))
		do(Tcreate, uint32(2), fmt.Sprint("new", i), uint32(0644), uint8(OWRITE))
		do(Twrite, uint32(2), uint64(0), []byte("hello"))
		if b, err := os.ReadFile(fmt.Sprintf("%s/d/new%d", d, i)); err != nil || string(b) != "hello" {
			r.fail("ufs -root %q: what was written is not there: %q %v", root, b, err)
		}
		w := noTouch
		w.Name = fmt.Sprint("renamed", i)
		do(Twstat, uint32(2), w.encode())
		if _, err := os.Lstat(d + "/d/" + w.Name); err != nil {
			r.fail("ufs -root %q: a renamed file is not there: %v", root, err)
		}
		do(Twalk, uint32(9), uint32(3), []string{"d", w.Name})
		do(Tremove, uint32(3))
		if _, err := os.Lstat(d + "/d/" + w.Name); err == nil {
			r.fail("ufs -root %q: a removed file is there", root)
		}
		m := do(Twalk, uint32(9), uint32(4), []string{"..", "..", "..", "..", "..", "..", "..", "..", "..", "..", "..", ".."})
		q := m.F[0].([]QID)
		if q[len(q)-1].T&0x80 == 0 {
			r.fail("ufs -root %q: the root is not a directory: %v", root, m)
		}
		r.count("requests judged by the model", 12)
		r.eval("root" + root)
		x.hangup()
		u.kill()
	}
}

// c21kill: one acknowledged request, and the process is gone.
func c21kill(r *R) {
	base := r.dir + "/kill"
	r.must(os.MkdirAll(base, 0777))
	var wg sync.WaitGroup
	sem := make(chan int, 4)
	for i := 0; i < r.scale(64, 1000); i++ {
		g := r.sub("kill", i)
		root := fmt.Sprintf("%s/%d", base, i)
		sem <- 1
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			r.must(os.MkdirAll(root+"/d", 0777))
			mkfile(r, root+"/f", pattern(20000), 0666)
			var env []string
			if i%2 == 0 {
				// What is left to another goroutine comes last.
				env = []string{"GOMAXPROCS=1"}
			}
			u := startUFSEnv(r, "/", env, []string{"unix", "tcp4"}[i/2%2], root, 0, 0)
			x := u.session("kill", 65536)
			x.log = false
			var done []string
			do := func(t uint8, f ...any) {
				m, bad := x.rpc(t, f...)
				if bad != "" || m.isErr() {
					r.fail("ufs command: %v is answered %v %s", Msg{t, 0, f}, m, bad)
				}
				done = append(done, Msg{t, 0, f}.String())
			}
			do(Tattach, uint32(0), uint32(NOFID), "u", "")
			do(Twalk, uint32(0), uint32(1), []string{"f"})
			do(Twalk, uint32(0), uint32(2), []string{"d"})
			want := pattern(20000)
			mode := os.FileMode(0666)
			name := "f"
			exists := map[string]bool{"f": true, "d": true}
			mt := int64(-1)
			n := g.Intn(3)
			opened := false
			for k := 0; k <= n; k++ {
				op := (i + k*5) % 8
				w := noTouch
				switch op {
				case 0, 1:
					if !opened {
						do(Topen, uint32(1), uint8(ORDWR))
						opened = true
					}
					d := gBytes(g, 1+g.Intn([]int{10, 30000}[op]))
					o := g.Intn(len(want) + 1)
					do(Twrite, uint32(1), uint64(o), d)
					if o+len(d) > len(want) {
						want = append(want[:o], d...)
					} else {
						copy(want[o:], d)
					}
					mt = -1
				case 2:
					f := fmt.Sprint("new", k)
					do(Twalk, uint32(0), uint32(10+k), []string{})
					do(Tcreate, uint32(10+k), f, uint32(0644), uint8(OWRITE))
					exists[f] = true
				case 3:
					f := fmt.Sprint("dir", k)
					do(Twalk, uint32(0), uint32(10+k), []string{})
					do(Tcreate, uint32(10+k), f, uint32(DMDIR|0755), uint8(OREAD))
					exists[f] = true
				case 4:
					if exists["d"] {
						do(Tremove, uint32(2))
						exists["d"] = false
					}
				case 5:
					w.Name = fmt.Sprint("moved", k)
					do(Twstat, uint32(1), w.encode())
					exists[name] = false
					name = w.Name
					exists[name] = true
				case 6:
					w.Mode = []uint32{0600, 0640, 0644}[g.Intn(3)]
					w.Length = uint64(g.Intn(len(want) + 1))
					do(Twstat, uint32(1), w.encode())
					mode = os.FileMode(w.Mode)
					want = want[:w.Length]
					mt = -1
				case 7:
					w.Mtime = uint32(1e9 + g.Intn(1000))
					do(Twstat, uint32(1), w.encode())
					mt = int64(w.Mtime)
				}
			}
			u.cmd.Process.Kill()
			last := done[len(done)-1]
			<-u.ended
			for f, there := range exists {
				_, err := os.Lstat(root + "/" + f)
				if (err == nil) != there {
					r.fail("ufs was killed when %s had been acknowledged, and %s is there: %v", last, f, err == nil)
				}
				r.count("acknowledged effects found after a kill", 1)
			}
			b, err := os.ReadFile(root + "/" + name)
			if err != nil || !bytes.Equal(b, want) {
				r.fail("ufs was killed when %s had been acknowledged, and the file holds %s, want %s (%v)", last, abbrev(b), abbrev(want), err)
			}
			fi, err := os.Lstat(root + "/" + name)
			r.must(err)
			if fi.Mode().Perm() != mode || mt >= 0 && fi.ModTime().Unix() != mt {
				r.fail("ufs was killed when %s had been acknowledged, and the file has mode %o, time %d, want %o, %d", last, fi.Mode().Perm(), fi.ModTime().Unix(), mode, mt)
			}
			r.count("acknowledged effects found after a kill", 2)
			r.count("processes killed after an acknowledgement", 1)
			r.eval(fmt.Sprint("kill", done))
			x.hangup()
			os.RemoveAll(root)
		}()
	}
	wg.Wait()
}

// c21stream: killed in the middle of a stream of pipelined requests.
func c21stream(r *R) {
	for i := 0; i < r.scale(16, 200); i++ {
		g := r.sub("stream", i)
		root := fmt.Sprintf("%s/stream%d", r.dir, i)
		r.must(os.MkdirAll(root, 0777))
		mkfile(r, root+"/f", nil, 0666)
		var env []string
		if i%2 == 0 {
			env = []string{"GOMAXPROCS=1"}
		}
		u := startUFSEnv(r, "/", env, "unix", root, 0, 0)
		x := u.session("stream", 65536)
		x.log = false
		const n = 600
		// Request k writes its number at its place, or makes a directory.
		go func() {
			x.send(Msg{Tattach, 1, []any{uint32(0), uint32(NOFID), "u", ""}})
			x.send(Msg{Twalk, 1, []any{uint32(0), uint32(1), []string{"f"}}})
			x.send(Msg{Topen, 1, []any{uint32(1), uint8(ORDWR)}})
			for k := 0; k < n; k++ {
				if k%5 == 4 {
					x.send(Msg{Twalk, 1, []any{uint32(0), uint32(10 + k), []string{}}})
					x.send(Msg{Tcreate, uint16(k + 10), []any{uint32(10 + k), fmt.Sprint("d", k), uint32(DMDIR | 0777), uint8(0)}})
				} else {
					x.send(Msg{Twrite, uint16(k + 10), []any{uint32(1), uint64(k * 4), []byte(fmt.Sprintf("%04d", k))}})
				}
			}
		}()
		acked := map[int]bool{}
		until := g.Intn(n)
		for len(acked) <= until {
			b := x.recvFrame("reply in a stream of requests")
			if b == nil {
				u.alive("requests were pipelined")
				r.fail("the connection was closed in a stream of requests")
			}
			m, err := decodeFrame(b)
			if err != nil || m.isErr() {
				r.fail("in a stream of requests: reply %v (%v)", m, err)
			}
			if m.Tag >= 10 {
				acked[int(m.Tag)-10] = true
			}
		}
		u.cmd.Process.Kill()
		<-u.ended
		for b := range x.frames { // those that were on their way
			if m, err := decodeFrame(b); err == nil && m.Tag >= 10 && !m.isErr() {
				acked[int(m.Tag)-10] = true
			}
		}
		b, err := os.ReadFile(root + "/f")
		r.must(err)
		for k := range acked {
			if k%5 == 4 {
				if _, err := os.Lstat(fmt.Sprintf("%s/d%d", root, k)); err != nil {
					r.fail("ufs was killed after %d acknowledgements, and directory %d is not there", len(acked), k)
				}
			} else if len(b) < k*4+4 || string(b[k*4:k*4+4]) != fmt.Sprintf("%04d", k) {
				r.fail("ufs was killed after %d acknowledgements, and write %d is not there", len(acked), k)
			}
			r.count("acknowledged effects found after a kill", 1)
		}
		r.count("processes killed in a stream", 1)
		r.eval(fmt.Sprint("stream", len(acked)))
		x.hangup()
		os.RemoveAll(root)
	}
}

// c21many: many clients at once, each with a file of its own.
func c21many(r *R) {
	for i, network := range []string{"tcp4", "unix"} {
		root := fmt.Sprintf("%s/many%d", r.dir, i)
		r.must(os.MkdirAll(root, 0777))
		u := startUFS(r, network, root, 0)
		var wg sync.WaitGroup
		n := r.scale(500, 1500)
		var lim syscall.Rlimit
		if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim) == nil {
			n = min(n, int(lim.Max/4))
		}
		for k := 0; k < n; k++ {
			g := r.sub("many"+network, k)
			x := u.session(fmt.Sprint("client ", k), 65536)
			x.log = false
			wg.Add(1)
			go func() {
				defer wg.Done()
				do := func(t uint8, f ...any) Msg {
					m, bad := x.rpc(t, f...)
					if bad != "" || m.isErr() {
						u.alive("it had many clients")
						r.fail("ufs command, client %d of %d: %v is answered %v %s", k, n, Msg{t, 0, f}, m, bad)
					}
					return m
				}
				do(Tattach, uint32(0), uint32(NOFID), "u", "")
				do(Twalk, uint32(0), uint32(1), []string{})
				do(Tcreate, uint32(1), fmt.Sprint("c", k), uint32(0666), uint8(ORDWR))
				var want []byte
				for j := 0; j < 12; j++ {
					d := gBytes(g, 1+g.Intn(3000))
					do(Twrite, uint32(1), uint64(len(want)), d)
					want = append(want, d...)
					o := g.Intn(len(want))
					m := do(Tread, uint32(1), uint64(o), uint32(3000))
					if w := want[o:min(len(want), o+3000)]; !bytes.Equal(m.F[0].([]byte), w) {
						r.fail("ufs command, client %d of %d: read %s, want %s", k, n, abbrev(m.F[0].([]byte)), abbrev(w))
					}
				}
				if b, err := os.ReadFile(fmt.Sprintf("%s/c%d", root, k)); err != nil || !bytes.Equal(b, want) {
					r.fail("ufs command, client %d of %d: what it wrote is not there (%v)", k, n, err)
				}
				r.count("clients at once", 1)
				r.eval(fmt.Sprint("many", network, k, len(want)))
			}()
			defer x.hangup()
		}
		wg.Wait()
		u.alive("it had many clients")
		u.kill()
	}
}

// c21hostile: whatever the others do.
func c21hostile(r *R) {
	wroot := r.dir + "/hostile"
	data := pattern(1000)
	for i, network := range []string{"tcp4", "unix"} {
		os.RemoveAll(wroot)
		hostileTree(r, wroot)
		mkfile(r, wroot+"/wtns", data, 0444)
		u := startUFS(r, network, wroot, 0, "-debug", fmt.Sprint(i))
		w := ufsWitness(r, u.session("witness", 8192), data)
		var stop atomic.Bool
		var wg sync.WaitGroup
		var held []net.Conn
		// These stay as they are for as long as the process runs.
		for k := 0; k < r.scale(24, 200); k++ {
			c := u.dial()
			held = append(held, c)
			v := Msg{Tversion, NOTAG, []any{uint32(8192), "9P2000"}}.frame()
			switch k % 6 {
			case 1:
				c.Write(v[:3])
			case 2:
				c.Write(v[:12])
			case 3:
				c.Write(v)
			case 4:
				c.Write(append(v, Msg{Tattach, 1, []any{uint32(0), uint32(NOFID), "u", ""}}.frame()...))
			case 5:
				c.Write([]byte{0, 0, 0, 16, Twrite, 1, 0})
			}
			r.count("clients that stay and are silent", 1)
			if k < 8 {
				w.check("silent clients")
				x := u.session("a client after a silent one", 8192)
				if m, bad := x.rpc(Tattach, uint32(0), uint32(NOFID), "u", ""); bad != "" || m.isErr() {
					r.fail("after a silent client: attach: %v %s", m, bad)
				}
				x.hangup()
			}
		}
		for k := 0; k < r.scale(60, 800); k++ {
			g := r.sub("hostile"+network, k)
			c := u.dial()
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if tc, ok := c.(*net.TCPConn); ok && k%2 == 0 {
						tc.SetLinger(0) // reset
					}
					c.Close()
				}()
				c.SetDeadline(time.Now().Add(20 * time.Second))
				switch k % 6 {
				case 0: // garbage
					for j := 0; j < 20; j++ {
						if _, err := c.Write(gBytes(g, 1+g.Intn(500))); err != nil {
							return
						}
					}
				case 1: // requests, the last cut off
					c.Write(Msg{Tversion, NOTAG, []any{uint32(8192), "9P2000"}}.frame())
					for j := 0; j < 40; j++ {
						f := hostileReq(g).frame()
						if j == 39 {
							f = f[:g.Intn(len(f))]
						}
						if _, err := c.Write(f); err != nil {
							return
						}
					}
				case 2: // does not read what it asks for
					c.Write(Msg{Tversion, NOTAG, []any{uint32(1 << 20), "9P2000"}}.frame())
					c.Write(Msg{Tattach, 1, []any{uint32(0), uint32(NOFID), "u", ""}}.frame())
					c.Write(Msg{Twalk, 1, []any{uint32(0), uint32(1), []string{"big"}}}.frame())
					c.Write(Msg{Topen, 1, []any{uint32(1), uint8(OREAD)}}.frame())
					c.SetDeadline(time.Now().Add(300 * time.Millisecond))
					for j := 0; j < 5000; j++ {
						if _, err := c.Write(Msg{Tread, 1, []any{uint32(1), uint64(0), uint32(300000)}}.frame()); err != nil {
							break
						}
					}
				case 3: // bad sizes
					c.Write([]byte{byte(g.Intn(7)), 0, 0, 0, Tversion, 0xff, 0xff})
					c.Read(make([]byte, 10))
				case 4: // no negotiation
					for j := 0; j < 20; j++ {
						m := hostileReq(g)
						if m.Type != Tversion {
							c.Write(m.frame())
						}
					}
				case 5: // nothing
					c.SetDeadline(time.Now().Add(100 * time.Millisecond))
					c.Read(make([]byte, 10))
				}
				r.count("hostile clients", 1)
			}()
			if k%10 == 0 {
				w.check("hostile clients")
			}
		}
		go func() { wg.Wait(); stop.Store(true) }()
		for n := 0; !stop.Load() || n < 50; n++ {
			w.check("hostile clients")
			u.alive("there were hostile clients")
			if n > 200 {
				time.Sleep(time.Millisecond)
			}
			runtime.Gosched()
		}
		for _, c := range held {
			c.Close()
		}
		// A new client is served as before.
		x := u.session("a client after hostile ones", 8192)
		if m, bad := x.rpc(Tattach, uint32(0), uint32(NOFID), "u", ""); bad != "" || m.isErr() {
			r.fail("after hostile clients: attach: %v %s", m, bad)
		}
		x.hangup()
		w.check("hostile clients")
		r.eval("hostile" + network)
		u.kill()
	}
}

// c21client: the library's client and the command together.
func c21client(r *R) {
	root := r.dir + "/client"
	r.must(os.MkdirAll(root+"/d", 0777))
	for i, network := range []string{"tcp4", "unix"} {
		u := startUFS(r, network, root, 0)
		c, err := p.NewClient(func(x *p.Client) error {
			cn := u.dial()
			x.FromNet, x.ToNet, x.Msize = cn, cn, 8192
			return nil
		})
		r.must(err)
		try := func(t uint8, f ...any) []any {
			var res []any
			var err error
			r.guard("client call", func() { res, err = sutCall(c, t, f) })
			if err != nil {
				u.alive(Msg{t, 0, f}.String())
				r.fail("client and ufs command: %v fails: %v", Msg{t, 0, f}, err)
			}
			r.eval(fmt.Sprint("client", i, Msg{t, 0, f}))
			return res
		}
		if v := try(Tversion, uint32(8192), "9P2000"); v[0].(uint32) > 8192 || v[1] != "9P2000" {
			r.fail("client and ufs command: version %v", v)
		}
		try(Tattach, uint32(0), uint32(NOFID), "u", "")
		var wg sync.WaitGroup
		for k := 0; k < 20; k++ {
			g := r.sub("client"+network, k)
			wg.Add(1)
			go func() {
				defer wg.Done()
				f := uint32(c.GetFID())
				try(Twalk, uint32(0), f, []string{"d"})
				name := fmt.Sprintf("k%d", k)
				try(Tcreate, f, name, uint32(0644), uint8(ORDWR))
				d := gBytes(g, 5000)
				if n := try(Twrite, f, uint64(7), d)[0]; n != uint32(len(d)) {
					r.fail("client and ufs command: a write of %d bytes is answered %v", len(d), n)
				}
				if b := try(Tread, f, uint64(7), uint32(5000))[0].([]byte); !bytes.Equal(b, d) {
					r.fail("client and ufs command: read %s, want %s", abbrev(b), abbrev(d))
				}
				if b, err := os.ReadFile(filepath.Join(root, "d", name)); err != nil || !bytes.Equal(b[7:], d) {
					r.fail("client and ufs command: what was written is not there (%v)", err)
				}
				try(Tremove, f)
				if _, err := os.Lstat(filepath.Join(root, "d", name)); err == nil {
					r.fail("client and ufs command: a removed file is there")
				}
				r.count("files made and removed by the library's client", 1)
			}()
		}
		wg.Wait()
		u.kill()
		var err2 error
		done := make(chan struct{})
		go func() { _, err2 = sutCall(c, Tclunk, []any{uint32(0)}); close(done) }()
		await(r, done, "a call to return after ufs was killed")
		if err2 == nil {
			r.fail("a call succeeded after ufs was killed")
		}
	}
}

var _ = exec.Command
var _ = strings.Join
