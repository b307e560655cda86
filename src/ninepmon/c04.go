package main

// C04: whatever a client sends.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	p "github.com/Harvey-OS/ninep/protocol"
)

func init() {
	checks["C04"] = check{run: c04, level: "exploration"}
}

func c04(r *R) {
	r.rule = "A case is a malformed request in an intact frame (every truncation and extension of messages of all types, lengths and counts that lie, random bytes), a byte stream that is partly or wholly " +
		"garbage, or a history of well-formed requests with hostile values to the file server (debugging and tracing on and off, in this process and in the ufs command with little memory). The file server's log has " +
		"to equal what the reference decoder makes of the bytes, a witness connection has to be served correctly throughout, and the process has to live. Distinct: by bytes sent."
	debug.SetGCPercent(400)
	c04frames(r)
	c04streams(r)
	c04ufs(r)
	c04removal(r)
	c04memory(r)
	r.need("malformed requests refused", 5000)
	r.need("garbage streams", 200)
	r.need("hostile requests answered", 5000)
	r.need("requests of the witness", 1000)
}

// witness is a connection that has to be served whatever others do.
type witness struct {
	r    *R
	x    *raw
	n    uint32
	want []byte
}

func (w *witness) check(why string) {
	w.n++
	off := uint64(w.n % 900)
	m, bad := w.x.rpc(Tread, uint32(7), off, uint32(100))
	if bad != "" {
		w.r.fail("another connection is disturbed after %s: %s", why, bad)
	}
	if m.isErr() || !bytes.Equal(m.F[0].([]byte), w.want[off:off+100]) {
		w.r.fail("another connection is disturbed after %s: read is answered %v", why, m)
	}
	w.r.count("requests of the witness", 1)
}

// ufsWitness sets up a witness on a server.
func ufsWitness(r *R, x *raw, want []byte) *witness {
	x.log = false
	for _, m := range []Msg{{Tattach, 1, []any{uint32(0), uint32(NOFID), "w", ""}}, {Twalk, 1, []any{uint32(0), uint32(7), []string{"wtns"}}}, {Topen, 1, []any{uint32(7), uint8(OREAD)}}} {
		if rep, bad := x.rpc(m.Type, m.F...); bad != "" || rep.isErr() {
			r.fail("witness: %v is answered %v %s", m, rep, bad)
		}
	}
	return &witness{r: r, x: x, want: want}
}

// nsWitness sets up a witness on a recording server.
func nsWitness(r *R, l *p.Listener, pool *nsPool) *witness {
	n := pool.num()
	x, _, _ := attachPipe(r, l, "witness", segAll)
	s := pool.take(r, n)
	data := pattern(1000)
	s.mu.Lock()
	s.answer = func(n int, h handled) rep {
		if h.typ == Tread {
			o := h.args[1].(uint64)
			return rep{f: []any{data[o : o+uint64(h.args[2].(uint32))]}}
		}
		return rep{f: []any{uint32(8192), "9P2000"}}
	}
	s.mu.Unlock()
	x.log = false
	if m, bad := x.rpc(Tversion, uint32(8192), "9P2000"); bad != "" || m.isErr() {
		r.fail("witness: version: %v %s", m, bad)
	}
	return &witness{r: r, x: x, want: data}
}

func zeroAnswer(n int, h handled) rep {
	if h.typ == Tversion {
		return rep{f: h.args}
	}
	return rep{f: zeroMsg(rOf(h.typ)).F}
}

func c04frames(r *R) {
	g := r.rng
	for round := 0; round < r.scale(4, 60); round++ {
		pool := &nsPool{}
		l, err := p.NewListener(pool.create, func(l *p.Listener) error { l.Trace = tracerFor(round%2 == 1); return nil })
		r.must(err)
		w := nsWitness(r, l, pool)
		n0 := pool.num()
		x, _, _ := attachPipe(r, l, "hostile", segRand(r.sub("seg", round)))
		s := pool.take(r, n0)
		s.mu.Lock()
		s.answer = zeroAnswer
		s.mu.Unlock()
		x.log = false
		if m, bad := x.rpc(Tversion, uint32(8192), "9P2000"); bad != "" || m.isErr() {
			r.fail("version: %v %s", m, bad)
		}
		done := 1
		cases := 0
		send := func(t uint8, body []byte) {
			f, derr := decodeBody(t, body)
			tag := g16(g)
			x.sendBytes(rawFrame(t, tag, body))
			b := x.recvFrame(fmt.Sprintf("reply to %s %s", tname(t), abbrev(body)))
			if b == nil {
				r.fail("%s with body %s: the connection was closed", tname(t), abbrev(body))
			}
			m, err := decodeFrame(b)
			if err != nil || m.Tag != tag {
				r.fail("%s tag=%d with body %s: reply %v (%v)", tname(t), tag, abbrev(body), m, err)
			}
			seen := s.got()
			if derr == nil {
				done++
				if len(seen) != done || !eqFields(seen[done-1].args, f) || m.Type != rOf(t) {
					r.fail("%s with body %s is well-formed but was answered %v, handled: %d", tname(t), abbrev(body), m, len(seen)-done+1)
				}
				r.count("well-formed requests in between", 1)
			} else {
				if m.Type != Rerror {
					r.fail("%s with malformed body %s (%v) was answered %v", tname(t), abbrev(body), derr, m)
				}
				if len(seen) != done {
					r.fail("%s with malformed body %s (%v) reached the file server as %v", tname(t), abbrev(body), derr, seen[len(seen)-1])
				}
				r.count("malformed requests refused", 1)
				r.eval(string(rawFrame(t, 0, body)))
			}
			cases++
			if cases%50 == 0 {
				w.check(fmt.Sprintf("%s with body %s", tname(t), abbrev(body)))
				s.mu.Lock()
				if len(s.seen) > 20000 {
					s.seen = s.seen[:0]
					done = 0
				}
				s.mu.Unlock()
			}
		}
		for _, t := range tTypes {
			for v := 0; v < 3; v++ {
				m := gMsg(g, t, small)
				if v == 0 {
					m = zeroMsg(t)
				}
				b := m.body()
				if len(b) > 1500 && v > 0 {
					b = zeroMsg(t).body()
				}
				for n := 0; n < len(b); n++ {
					send(t, b[:n])
				}
				for _, k := range []int{1, 2, 3, 4, 100} {
					send(t, append(append([]byte{}, b...), gBytes(g, k)...))
				}
				// Every byte and every two bytes made large.
				for n := 0; n < len(b) && n < 200; n++ {
					for _, v := range []byte{0xff, 0x7f, 0x80, b[n] + 1, b[n] - 1} {
						c := append([]byte{}, b...)
						c[n] = v
						send(t, c)
					}
					if n+1 < len(b) {
						c := append([]byte{}, b...)
						c[n], c[n+1] = 0xff, 0xff
						send(t, c)
					}
				}
				for n := 0; n < 150; n++ {
					send(t, mutate(g, b))
				}
				for n := 0; n < 60; n++ {
					send(t, gBytes(g, g.Intn(80)))
				}
			}
		}
		// Big ones: well-formed, cut short by a little, a little longer, and bytes
		// that mean nothing.
		if round < 2 {
			for _, t := range tTypes {
				m := zeroMsg(t)
				for k, c := range schema[t] {
					switch c {
					case 's':
						m.F[k] = strings.Repeat("s", 65535)
					case 'S':
						m.F[k] = []string{strings.Repeat("s", 65535), "", strings.Repeat("t", 65535)}
					case 'd':
						m.F[k] = make([]byte, 1<<20)
					case 'D':
						m.F[k] = make([]byte, 65535)
					}
				}
				b := m.body()
				send(t, b)
				for _, k := range []int{1, 2, 4, 100} {
					if len(b) >= k {
						send(t, b[:len(b)-k])
					}
					send(t, append(append([]byte{}, b...), gBytes(g, k)...))
				}
				for _, n := range []int{1 << 15, 1<<16 - 7, 1 << 16, 1 << 17, 1 << 20, 1<<24 + 3} {
					send(t, append(append([]byte{}, zeroMsg(t).body()...), make([]byte, n)...))
				}
			}
		}
		if round == 0 {
			r.sample("%d bodies on one connection", cases)
		}
		w.check("malformed requests")
		x.hangup()
		w.x.hangup()
	}
}

// c04streams: streams that are garbage in part.
func c04streams(r *R) {
	for i := 0; i < r.scale(400, 8000); i++ {
		g := r.sub("stream", i)
		pool := &nsPool{}
		l, err := p.NewListener(pool.create, func(l *p.Listener) error { l.Trace = tracerFor(i%3 == 1); return nil })
		r.must(err)
		w := nsWitness(r, l, pool)
		n0 := pool.num()
		a, b := newPipe("stream")
		b.seg = segRand(r.sub("seg", i))
		r.must(l.Accept(b))
		s := pool.take(r, n0)
		s.mu.Lock()
		s.answer = zeroAnswer
		s.mu.Unlock()
		stream := Msg{Tversion, NOTAG, []any{uint32(8192), "9P2000"}}.frame()
		for k := g.Intn(30); k >= 0; k-- {
			switch g.Intn(9) {
			case 0:
				stream = append(stream, gBytes(g, g.Intn(60))...)
			case 1: // a size that lies
				f := gMsg(g, tTypes[1+g.Intn(len(tTypes)-1)], small).frame()
				n := binary.LittleEndian.Uint32(f)
				n = []uint32{0, 1, 4, 6, 7, n - 1, n + 1, n + 7, 1 << 16, 1 << 24, 1 << 31, 0xffffffff, g32(g)}[g.Intn(13)]
				binary.LittleEndian.PutUint32(f, n)
				stream = append(stream, f...)
			case 2:
				t := uint8(g.Intn(256))
				if t == Tversion {
					t = Tstat
				}
				stream = append(stream, rawFrame(t, g16(g), gBytes(g, g.Intn(40)))...)
			case 3:
				stream = append(stream, rawFrame(tTypes[1+g.Intn(len(tTypes)-1)], g16(g), mutate(g, gMsg(g, tTypes[g.Intn(len(tTypes))], small).body()))...)
			default:
				stream = append(stream, gMsg(g, tTypes[1+g.Intn(len(tTypes)-1)], small).frame()...)
			}
		}
		// What it means.
		var want []handled
		var tags []uint16
		for rest := stream; len(rest) >= 7; {
			n := binary.LittleEndian.Uint32(rest)
			if n < 7 || uint64(n) > uint64(len(rest)) {
				break
			}
			tags = append(tags, binary.LittleEndian.Uint16(rest[5:]))
			if isT(rest[4]) {
				if f, err := decodeBody(rest[4], rest[7:n]); err == nil {
					want = append(want, handled{rest[4], f})
				}
			}
			rest = rest[n:]
		}
		x := newRaw(r, a, "stream")
		x.log = false
		x.sendBytes(stream)
		x.wq <- nil
		<-x.wdone
		a.closeWrite(nil)
		for k, t := range tags {
			f := x.recvFrame(fmt.Sprintf("reply %d to stream %s", k, abbrev(stream)))
			if f == nil {
				r.fail("stream %s: connection ended after %d replies to %d intact requests", abbrev(stream), k, len(tags))
			}
			m, err := decodeFrame(f)
			if err != nil || m.Tag != t {
				r.fail("stream %s: reply %d is %v (%v), the request has tag %d", abbrev(stream), k, m, err, t)
			}
		}
		for f := x.recvFrame("end of the stream"); f != nil; f = x.recvFrame("end of the stream") {
			// What it says to a frame that is none is its own business.
		}
		seen := s.got()
		if len(seen) != len(want) {
			r.fail("stream %x: %d requests were handled, it contains %d well-formed ones; last %v", stream, len(seen), len(want), seen[len(seen)-1])
		}
		for k := range want {
			if want[k].typ != seen[k].typ || !eqFields(want[k].args, seen[k].args) {
				r.fail("stream %x: request %d was handled as %v, it is %v", stream, k, seen[k], want[k])
			}
		}
		w.check("a garbage stream")
		w.x.hangup()
		x.hangup()
		r.count("garbage streams", 1)
		r.eval(string(stream))
		if i < 3 {
			r.sample("stream of %d bytes, %d intact frames, %d well-formed: %s", len(stream), len(tags), len(want), abbrev(stream))
		}
	}
}

var hostileStr = []string{"", "/", ".", "..", "a", "d", "../..", "f", "\x00", "big", "empty", strings.Repeat("x", 300), strings.Repeat("../", 2000), strings.Repeat("A", 65535), "%s%n%d", "new", "witness", "d/e", "/a", "\xff", "lnk", "self", "pipe"}

// hostileReq is a well-formed request with hostile values.
func hostileReq(g *rand.Rand) Msg {
	fids := []uint32{0, 1, 2, 3, 4, 5, NOFID, 0x80000000}
	fid := func() uint32 { return fids[g.Intn(len(fids))] }
	name := func() string { return hostileStr[g.Intn(len(hostileStr))] }
	m := Msg{Tag: g16(g)}
	set := func(t uint8, f ...any) Msg { m.Type, m.F = t, f; return m }
	switch g.Intn(26) {
	case 0:
		v := "9P2000"
		if g.Intn(3) == 0 {
			v = []string{"", "9P2000.L", "9P", "9P2000.u", "unknown", strings.Repeat("9P2000", 1000)}[g.Intn(6)]
		}
		return set(Tversion, []uint32{0, 1, 7, 10, 11, 12, 100, 8192, 65536, 1 << 20, 1 << 30, 1 << 31, 0xffffffff, g32(g)}[g.Intn(14)], v)
	case 1, 2:
		return set(Tattach, fid(), []uint32{NOFID, NOFID, NOFID, 0, 5}[g.Intn(5)], name(), []string{"", "", "/", name()}[g.Intn(4)])
	case 3, 4, 5, 6:
		l := []string{}
		for k := g.Intn(5); k > 0; k-- {
			l = append(l, name())
		}
		if g.Intn(60) == 0 {
			for k := 0; k < 3000; k++ {
				l = append(l, []string{"d", ".."}[k%2])
			}
		}
		return set(Twalk, fid(), fid(), l)
	case 7, 8, 9, 10:
		return set(Topen, fid(), []uint8{0, 0, 0, 1, 2, 3, 16, 18, g8(g)}[g.Intn(9)])
	case 11, 12:
		return set(Tcreate, fid(), name(), []uint32{0644, 0777, DMDIR | 0755, g32(g)}[g.Intn(4)], g8(g))
	case 13, 14, 15, 16:
		return set(Tread, fid(), []uint64{0, 0, 1, 100, g64(g)}[g.Intn(5)], []uint32{0, 1, 100, 8192, 1<<31 - 1, 1 << 31, 0xffffffff, g32(g)}[g.Intn(8)])
	case 17, 18:
		o := []uint64{0, 1, 1 << 63, 1<<64 - 1, 1 << 62, uint64(g.Intn(100000))}[g.Intn(6)]
		return set(Twrite, fid(), o, gBytes(g, []int{0, 1, 100, 9000, 70000}[g.Intn(5)]))
	case 19:
		return set(Tclunk, fid())
	case 20:
		return set(Tremove, fid())
	case 21:
		return set(Tstat, fid())
	case 22, 23, 24:
		d := noTouch
		switch g.Intn(6) {
		case 0:
			d = gDir(g, 300)
		case 1:
			d.Name = name()
		case 2:
			d.Length = []uint64{0, 1, 1 << 20, 1 << 63, 1<<64 - 2}[g.Intn(5)]
		case 3:
			d.Mode = g32(g)
		case 4:
			d.Mtime, d.Atime = g32(g), g32(g)
		case 5:
			b := gBytes(g, g.Intn(200))
			if g.Intn(2) == 0 {
				b = mutate(g, d.encode())
			}
			if len(b) > 65535 {
				b = b[:65535]
			}
			return set(Twstat, fid(), b)
		}
		b := d.encode()
		if len(b) > 65535 {
			b = b[:65535]
		}
		return set(Twstat, fid(), b)
	}
	return set(Tflush, g16(g))
}

// hostileSession sends a history of hostile requests; every one gets its reply.
func hostileSession(r *R, x *raw, g *rand.Rand, n int, alive func(string)) {
	x.log = false
	for k := 0; k < n; k++ {
		m := hostileReq(g)
		if k == 0 {
			m = Msg{Tattach, 1, []any{uint32(0), uint32(NOFID), "u", ""}}
		}
		x.send(m)
		b := x.recvFrame(fmt.Sprintf("reply to %v", m))
		if b == nil {
			alive(m.String())
			r.fail("%v: the connection was closed", m)
		}
		rep, err := decodeFrame(b)
		if err != nil || rep.Tag != m.Tag || rep.Type != Rerror && rep.Type != rOf(m.Type) {
			r.fail("%v: reply %v (%v)", m, rep, err)
		}
		r.count("hostile requests answered", 1)
		if rep.Type != Rerror {
			r.count("hostile requests answered with success", 1)
		}
		r.eval(fmt.Sprintf("%v", m))
	}
}

func hostileTree(r *R, root string) {
	os.MkdirAll(root+"/d/e", 0777)
	os.MkdirAll(root+"/empty", 0777)
	mkfile(r, root+"/a", pattern(100), 0666)
	mkfile(r, root+"/big", pattern(300000), 0666)
	mkfile(r, root+"/d/f", pattern(10), 0666)
	r.must(syscall.Mkfifo(root+"/pipe", 0666))
	os.Symlink("a", root+"/lnk")
	os.Symlink("self", root+"/self")
}

func c04ufs(r *R) {
	l := [2]*p.Listener{newUFS(r, false), newUFS(r, true)}
	wroot := r.dir + "/witness"
	r.must(os.MkdirAll(wroot, 0755))
	data := pattern(1000)
	mkfile(r, wroot+"/wtns", data, 0644)
	var mu sync.Mutex
	for i := 0; i < r.scale(60, 1500); i++ {
		a, b := newPipe("w")
		w := ufsWitness(r, ufsConn(r, l[i%2], wroot, i%4 > 1, a, b, "witness", 8192), data)
		var wg sync.WaitGroup
		var busy atomic.Bool
		busy.Store(true)
		k := 1 + i%3
		root := fmt.Sprintf("%s/h%d", r.dir, i)
		hostileTree(r, root)
		for c := 0; c < k; c++ {
			wg.Add(1)
			a, b := newPipe("h")
			x := ufsConn(r, l[i%2], root, (i/2+c)%2 == 1, a, b, "hostile", 8192)
			go func(c int) {
				defer wg.Done()
				hostileSession(r, x, r.sub(fmt.Sprint("host", c), i), 150, func(string) {})
				x.hangup()
			}(c)
		}
		go func() { wg.Wait(); busy.Store(false) }()
		for n := 0; busy.Load() || n < 5; n++ {
			mu.Lock()
			w.check("hostile requests")
			mu.Unlock()
			runtime.Gosched()
		}
		w.x.hangup()
		os.RemoveAll(root)
	}
}

// c04removal: files vanish under the server while it lists and reads them.
func c04removal(r *R) {
	l := newUFS(r, false)
	for i := 0; i < r.scale(15, 200); i++ {
		g := r.sub("removal", i)
		root := fmt.Sprintf("%s/rm%d", r.dir, i)
		r.must(os.MkdirAll(root+"/d", 0755))
		n := 1 + g.Intn(200)
		if i%5 == 4 { // very many, of which all vanish at once
			n = 100 + g.Intn(3000)
		}
		for k := 0; k < n; k++ {
			mkfile(r, fmt.Sprintf("%s/d/f%d", root, k), nil, 0644)
		}
		a, b := newPipe("rm")
		x := ufsConn(r, l, root, i%2 == 1, a, b, "rm", 8192)
		x.log = false
		ask := func(t uint8, f ...any) Msg {
			m, bad := x.rpc(t, f...)
			if bad != "" {
				r.fail("with files vanishing: %s", bad)
			}
			r.count("hostile requests answered", 1)
			return m
		}
		ask(Tattach, uint32(0), uint32(NOFID), "u", "")
		ask(Twalk, uint32(0), uint32(1), []string{"d"})
		ask(Topen, uint32(1), uint8(OREAD))
		ask(Twalk, uint32(0), uint32(2), []string{"d", "f0"})
		ask(Topen, uint32(2), uint8(OREAD))
		off := uint64(0)
		for k := 0; k < 2*n; k++ {
			m := ask(Tread, uint32(1), off, uint32(8192))
			if !m.isErr() {
				off += uint64(len(m.F[0].([]byte)))
			}
			if i%5 == 4 && k == 3 {
				for j := g.Intn(5); j < n; j++ {
					os.Remove(fmt.Sprintf("%s/d/f%d", root, j))
				}
				k = max(k, 2*n-20)
			}
			if g.Intn(3) > 0 {
				os.Remove(fmt.Sprintf("%s/d/f%d", root, g.Intn(n)))
			}
			if k == n {
				os.RemoveAll(root + "/d")
				off = 0
			}
			if k%5 == 0 {
				ask(Tstat, uint32(2))
				ask(Tread, uint32(2), uint64(0), uint32(10))
				ask(Twalk, uint32(1), uint32(3), []string{fmt.Sprintf("f%d", g.Intn(n))})
				ask(Tclunk, uint32(3))
				ask(Twstat, uint32(2), noTouch.encode())
			}
		}
		// All of the root.
		os.RemoveAll(root)
		for k := 0; k < 40; k++ {
			m := hostileReq(g)
			if m.Type != Tversion {
				ask(m.Type, m.F...)
			}
		}
		r.count("listings of vanishing files", 1)
		r.eval(fmt.Sprint("rm", i, n))
		x.hangup()
	}
}

// c04memory: the ufs command with little memory.
func c04memory(r *R) {
	data := pattern(1000)
	for _, dbg := range []string{"0", "1"} {
		root := r.dir + "/mem" + dbg // what they do to it stays
		hostileTree(r, root)
		mkfile(r, root+"/wtns", data, 0444)
		u := startUFS(r, "unix", root, 3<<20, "-debug", dbg)
		w := ufsWitness(r, u.session("witness", 8192), data)
		var cs []net.Conn
		for i := 0; i < 24; i++ {
			// Frames that say they are up to 4 GB long.
			c := u.dial()
			sz := []uint32{0xffffffff, 0xfffffff0, 1 << 31, 1<<31 - 1, 1 << 30}[i%5]
			f := rawFrame(Twrite, 1, gBytes(r.rng, 100))
			if i%2 == 0 {
				c.Write(Msg{Tversion, NOTAG, []any{uint32(0xffffffff), "9P2000"}}.frame())
			}
			binary.LittleEndian.PutUint32(f, sz)
			c.Write(f)
			cs = append(cs, c)
			w.check("a frame that says it has gigabytes")
			r.eval(fmt.Sprint("mem", i, dbg))
		}
		// Reads of as much as there can be.
		for i := 0; i < 24; i++ {
			x := u.session("reader", 0xffffffff)
			x.log = false
			for _, m := range []Msg{{Tattach, 1, []any{uint32(0), uint32(NOFID), "u", ""}}, {Twalk, 1, []any{uint32(0), uint32(1), []string{"big"}}}, {Topen, 1, []any{uint32(1), uint8(OREAD)}}} {
				if _, bad := x.rpc(m.Type, m.F...); bad != "" {
					u.alive(m.String())
					r.fail("%s", bad)
				}
			}
			for _, c := range []uint32{1<<31 - 1, 1 << 31, 0xffffffff, 1 << 30} {
				if _, bad := x.rpc(Tread, uint32(1), uint64(0), c); bad != "" {
					u.alive(fmt.Sprintf("a read of %d bytes was asked for", c))
					r.fail("%s", bad)
				}
				r.count("hostile requests answered", 1)
				r.eval(fmt.Sprint("memread", i, c, dbg))
			}
			w.check("reads of gigabytes")
			cs = append(cs, x.c)
		}
		// Counts inside messages that lie.
		x := u.session("liar", 65536)
		for _, f := range [][]byte{rawFrame(Twalk, 1, []byte{0, 0, 0, 0, 1, 0, 0, 0, 0xff, 0xff}), rawFrame(Twrite, 1, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff}), rawFrame(Twrite, 1, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0x7f}),
			rawFrame(Twstat, 1, []byte{0, 0, 0, 0, 0xff, 0xff}), rawFrame(Tattach, 1, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff})} {
			for k := 0; k < 40; k++ {
				x.sendBytes(f)
				b := x.recvFrame("reply to a message whose count lies")
				if b == nil {
					u.alive("a message whose count lies came")
					r.fail("message %x: the connection was closed", f)
				}
				if m, err := decodeFrame(b); err != nil || m.Type != Rerror {
					r.fail("message %x was answered %v (%v)", f, m, err)
				}
				r.count("malformed requests refused", 1)
			}
			w.check("a count that lies")
		}
		for i := 0; i < r.scale(10, 100); i++ {
			hostileSession(r, u.session("hostile", 65536), r.sub("memh"+dbg, i), 100, func(s string) { u.alive(s) })
			u.alive("hostile requests were sent")
			// They may have removed the witness's file, but it is open.
			w.check("hostile requests")
		}
		for _, c := range cs {
			c.Close()
		}
		w.check("everything was closed")
		u.alive("everything was done")
		u.kill()
	}
}
