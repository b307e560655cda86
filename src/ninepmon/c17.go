package main

// C17: connections are isolated from each other, see each other's acknowledged
// effects, and share no memory without synchronisation.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	p "github.com/Harvey-OS/ninep/protocol"
)

func init() {
	checks["C17"] = check{run: c17, level: "exploration", races: true}
}

func c17(r *R) {
	r.rule = "A case is one request, or one read or write of a shared file, on one of up to 16 connections busy at once. Every connection, using the same fid numbers as the others in a tree of its own, is held against " +
		"a model of a server it has to itself; one-byte files read and written by all are judged by an exact linearizability check of the recorded history; creates, removes, renames, truncations and mode changes are " +
		"looked for through every other connection after their acknowledgement. All of it under the race detector. Distinct: by request history and by history of a shared file."
	l := [2]*p.Listener{newUFS(r, false), newUFS(r, true)}
	for i := 0; i < r.scale(10, 200); i++ {
		c17models(r, l[i%2], i)
	}
	for i := 0; i < r.scale(24, 500); i++ {
		c17registers(r, l[i%2], i)
	}
	for i := 0; i < r.scale(6, 100); i++ {
		c17visible(r, l[i%2], i)
	}
	for i := 0; i < r.scale(16, 300); i++ {
		c17streams(r, i)
	}
	c17stuck(r)
	for i := 0; i < r.scale(4, 60); i++ {
		c17churn(r, l[i%2], i)
	}
	r.need("requests judged by the model", 4000)
	r.need("operations on shared files", 4000)
	r.need("shared histories with overlapping operations", 20)
	r.need("effects looked for through another connection", 1000)
	r.need("connections made and dropped", 100)
}

// c17models: each connection against its own model, all at once.
func c17models(r *R, l *p.Listener, round int) {
	setUmask(0)
	n := []int{2, 4, 8, 16}[round%4]
	var envs []*env
	for k := 0; k < n; k++ {
		g := r.sub("models", round*100+k)
		e := newEnv(r, g, fmt.Sprintf("m%d-%d", round, k), "C17")
		e.shared = true
		e.buildTree(k%2 == 1)
		e.connect(l, fmt.Sprintf("m%d", k), k%4 == 3, []uint32{65536, 8192, 256, 1 << 20}[g.Intn(4)], g.Intn(3))
		e.begin()
		envs = append(envs, e)
	}
	var wg sync.WaitGroup
	for k, e := range envs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			inCase(func() {
				key := ""
				for s := 0; s < 70; s++ {
					op := e.step(evenWeights)
					key += op[:2] + e.last[:min(len(e.last), 40)]
					if s%20 == 19 {
						e.probeAll(fidPool)
					}
					if s%10 == 9 {
						r.eval(key)
						key = fmt.Sprint(round, k, s)
					}
					if e.g.Intn(4) == 0 {
						runtime.Gosched()
					}
				}
			})
			r.count("requests judged by the model", e.nops)
			if e.g.Intn(2) == 0 {
				e.x.hangup() // while the others go on
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	awaitWork(r, done, "the connections to finish their histories")
	for _, e := range envs {
		e.done()
	}
	r.count("rounds of concurrent models", 1)
}

// awaitWork waits for goroutines that have stall oracles of their own.
func awaitWork(r *R, done chan struct{}, what string) {
	if _, ok := awaitOK(done, 10*stallTicks); !ok {
		r.broken("waited too long for %s\n%s", what, stacks())
	}
}

// A shared one-byte file is an atomic register.
type regOp struct {
	write      bool
	v          byte
	start, end int64
	conn       int
}

// atomicRegister decides whether a history of a register whose writes are of
// distinct values, 0 being there at first, can be put in an order that agrees
// with real time (Gibbons and Korach). It says what is wrong, or "".
func atomicRegister(h []regOp) string {
	type zone struct {
		v            byte
		minEnd, maxS int64 // least end, greatest start
		w            *regOp
		desc         []regOp
	}
	zs := map[byte]*zone{}
	get := func(v byte) *zone {
		z := zs[v]
		if z == nil {
			z = &zone{v: v, minEnd: 1 << 62, maxS: -1 << 62}
			zs[v] = z
		}
		return z
	}
	h = append([]regOp{{write: true, v: 0, start: -2, end: -1, conn: -1}}, h...)
	for i := range h {
		o := &h[i]
		z := get(o.v)
		z.minEnd, z.maxS = min(z.minEnd, o.end), max(z.maxS, o.start)
		if o.write {
			if z.w != nil {
				panic("value written twice")
			}
			z.w = o
		}
		z.desc = append(z.desc, *o)
	}
	var fw, bw []*zone
	for _, z := range zs {
		if z.w == nil {
			return fmt.Sprintf("value %d was read and never written: %+v", z.v, z.desc)
		}
		for _, o := range z.desc {
			if !o.write && o.end < z.w.start {
				return fmt.Sprintf("value %d was read before it was written: %+v, written %+v", z.v, o, *z.w)
			}
		}
		if z.minEnd < z.maxS {
			fw = append(fw, z)
		} else {
			bw = append(bw, z)
		}
	}
	sort.Slice(fw, func(i, j int) bool { return fw[i].minEnd < fw[j].minEnd })
	for i := 1; i < len(fw); i++ {
		if fw[i].minEnd < fw[i-1].maxS {
			return fmt.Sprintf("values %d and %d were each seen after the other: %+v and %+v", fw[i-1].v, fw[i].v, fw[i-1].desc, fw[i].desc)
		}
	}
	for _, b := range bw {
		for _, f := range fw {
			// all of b happened while f's value had to be there
			if f.minEnd < b.maxS && b.minEnd < f.maxS {
				return fmt.Sprintf("value %d was written and lost, or read again later, while %d was there: %+v and %+v", b.v, f.v, b.desc, f.desc)
			}
		}
	}
	return ""
}

func c17registers(r *R, l *p.Listener, round int) {
	dir := filepath.Join(r.dir, fmt.Sprintf("reg%d", round))
	r.must(os.MkdirAll(dir, 0777))
	defer os.RemoveAll(dir)
	const files = 4
	for f := 0; f < files; f++ {
		mkfile(r, fmt.Sprintf("%s/r%d", dir, f), []byte{0, 0, 0, 0, 0, 0, 0, 0}, 0666)
	}
	var clock atomic.Int64
	var hist [files][]regOp
	var next [files]atomic.Int32
	var mu sync.Mutex
	n := []int{2, 3, 5, 8}[round%4]
	reopens := round%3 == 2
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		g := r.sub("reg", round*100+k)
		a, b := newPipe(fmt.Sprintf("r%d", k))
		b.delay = func() {
			if time.Now().UnixNano()&7 == 0 {
				runtime.Gosched()
			}
		}
		x := ufsConn(r, l, dir, k%5 == 4, a, b, fmt.Sprintf("r%d", k), 8192)
		x.log = false
		wg.Add(1)
		go func() {
			defer wg.Done()
			do := func(t uint8, f ...any) Msg {
				m, bad := x.rpc(t, f...)
				if bad != "" {
					r.fail("shared file, connection %d: %s", k, bad)
				}
				if m.isErr() {
					r.fail("shared file, connection %d: %v is answered %v", k, Msg{t, 0, f}, m)
				}
				return m
			}
			do(Tattach, uint32(100), uint32(NOFID), "u", "")
			for f := uint32(0); f < files; f++ {
				do(Twalk, uint32(100), f, []string{fmt.Sprintf("r%d", f)})
				do(Topen, f, uint8(ORDWR))
			}
			for i := 0; i < 100; i++ {
				f := g.Intn(files)
				if round%2 == 0 {
					f = g.Intn(2) // more contention
				}
				fid := uint32(f)
				if reopens && g.Intn(6) == 0 {
					do(Tclunk, fid)
					do(Twalk, uint32(100), fid, []string{fmt.Sprintf("r%d", f)})
					do(Topen, fid, uint8(ORDWR))
				}
				o := regOp{conn: k}
				if v := next[f].Load(); g.Intn(3) == 0 && v < 250 {
					if v = next[f].Add(1); v < 255 {
						o.write, o.v = true, byte(v)
					}
				}
				if o.write {
					o.start = clock.Add(1)
					m := do(Twrite, fid, uint64(3), []byte{o.v})
					o.end = clock.Add(1)
					if m.F[0] != uint32(1) {
						r.fail("shared file: a write of one byte is answered %v", m)
					}
				} else {
					o.start = clock.Add(1)
					m := do(Tread, fid, uint64(3), uint32(1))
					o.end = clock.Add(1)
					d := m.F[0].([]byte)
					if len(d) != 1 {
						r.fail("shared file: a read of one byte is answered %v", m)
					}
					o.v = d[0]
				}
				mu.Lock()
				hist[f] = append(hist[f], o)
				mu.Unlock()
			}
			x.hangup()
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	awaitWork(r, done, "the readers and writers of shared files")
	for f := range hist {
		h := hist[f]
		if s := atomicRegister(h); s != "" {
			for _, o := range h {
				r.tracef("conn %d write=%v value %d [%d,%d]", o.conn, o.write, o.v, o.start, o.end)
			}
			r.fail("shared one-byte file, %d connections: %s", n, s)
		}
		over := 0
		sort.Slice(h, func(i, j int) bool { return h[i].start < h[j].start })
		key := fmt.Sprint(n)
		for i, o := range h {
			if i > 0 && o.start < h[i-1].end {
				over++
			}
			key += fmt.Sprint(o.conn, o.write, o.v, " ")
		}
		if over > 0 {
			r.count("shared histories with overlapping operations", 1)
		}
		r.count("operations on shared files", len(h))
		r.count("overlapping operations on shared files", over)
		if len(h) > 0 {
			r.eval(key)
		}
	}
}

// c17visible: an acknowledged effect is there for the others, and fids are not.
func c17visible(r *R, l *p.Listener, round int) {
	setUmask(0)
	dir := filepath.Join(r.dir, fmt.Sprintf("vis%d", round))
	r.must(os.MkdirAll(dir+"/d", 0777))
	defer os.RemoveAll(dir)
	g := r.sub("vis", round)
	const n = 4
	var xs []*raw
	for k := 0; k < n; k++ {
		a, b := newPipe(fmt.Sprintf("v%d", k))
		xs = append(xs, ufsConn(r, l, dir, k == 3, a, b, fmt.Sprintf("v%d", k), 8192))
		if m, bad := xs[k].rpc(Tattach, uint32(1), uint32(NOFID), "u", ""); bad != "" || m.isErr() {
			r.fail("attach: %v %s", m, bad)
		}
	}
	try := func(k int, t uint8, f ...any) Msg {
		m, bad := xs[k].rpc(t, f...)
		if bad != "" {
			r.fail("%s", bad)
		}
		return m
	}
	do := func(k int, t uint8, f ...any) Msg {
		m := try(k, t, f...)
		if m.isErr() {
			r.fail("connection %d: %v is answered %v", k, Msg{t, 0, f}, m)
		}
		return m
	}
	type file struct {
		data []byte
		mode uint32
	}
	files := map[string]*file{}
	look := func(by int, name, after string) {
		f := files[name]
		m := try(by, Twalk, uint32(1), uint32(50), []string{"d", name})
		exists := !m.isErr() && len(m.F[0].([]QID)) == 2
		if exists != (f != nil) {
			r.fail("after %s was acknowledged on another connection, a walk to %s on connection %d is answered %v", after, name, by, m)
		}
		r.count("effects looked for through another connection", 1)
		if !exists {
			if m := try(by, Tclunk, uint32(50)); !m.isErr() {
				r.fail("a walk that visited less than it was asked for established its fid: clunk %v", m)
			}
			return
		}
		st := do(by, Tstat, uint32(50))
		d, _, err := decodeDir(st.F[0].([]byte), true)
		if err != nil {
			r.fail("stat: %v", err)
		}
		if d.Length != uint64(len(f.data)) || d.Mode&0777 != f.mode || d.Name != name {
			r.fail("after %s was acknowledged on another connection, stat of %s on connection %d is %+v, want length %d, mode %o", after, name, by, d, len(f.data), f.mode)
		}
		do(by, Topen, uint32(50), uint8(OREAD))
		if m := do(by, Tread, uint32(50), uint64(0), uint32(4000)); !bytes.Equal(m.F[0].([]byte), f.data) {
			r.fail("after %s was acknowledged on another connection, %s reads %s on connection %d, want %s", after, name, abbrev(m.F[0].([]byte)), by, abbrev(f.data))
		}
		do(by, Tclunk, uint32(50))
	}
	names := []string{"a", "b", "c", "e", "f"}
	for i := 0; i < 60; i++ {
		k := g.Intn(n)
		name := names[g.Intn(len(names))]
		f := files[name]
		after := ""
		fidN := uint32(10 + g.Intn(3))
		walk := func() { do(k, Twalk, uint32(1), fidN, []string{"d", name}) }
		changed := []string{name}
		op := g.Intn(6)
		if f == nil {
			op = 0
		}
		switch op {
		case 0:
			do(k, Twalk, uint32(1), fidN, []string{"d"})
			mode := []uint32{0644, 0600, 0666}[g.Intn(3)]
			do(k, Tcreate, fidN, name, mode, uint8(ORDWR))
			if f == nil {
				files[name] = &file{mode: mode}
			} else {
				f.data = nil
			}
			after = "creation of " + name
		case 1:
			walk()
			do(k, Topen, fidN, uint8(OWRITE))
			d := gBytes(g, 1+g.Intn(200))
			o := g.Intn(len(f.data) + 1)
			do(k, Twrite, fidN, uint64(o), d)
			f.data = append(append(append([]byte{}, f.data[:o]...), d...), f.data[min(len(f.data), o+len(d)):]...)
			after = "a write to " + name
		case 2:
			walk()
			do(k, Tremove, fidN)
			delete(files, name)
			after = "removal of " + name
		case 3:
			walk()
			do(k, Topen, fidN, uint8(OWRITE|OTRUNC))
			f.data = nil
			after = "truncation of " + name
		case 4, 5:
			walk()
			d := noTouch
			if op == 4 {
				f.mode = []uint32{0644, 0600, 0666, 0444}[g.Intn(4)]
				if f.mode == 0444 {
					f.mode = 0640
				}
				d.Mode = f.mode
				after = "a mode change of " + name
			} else {
				to := names[g.Intn(len(names))]
				if files[to] == nil {
					d.Name = to
					files[to] = f
					delete(files, name)
					changed = append(changed, to)
				}
				after = "renaming " + name + " to " + to
			}
			do(k, Twstat, fidN, d.encode())
		}
		// The fid is nobody else's.
		for by := 0; by < n; by++ {
			if by != k {
				if m := try(by, Tstat, fidN); !m.isErr() {
					r.fail("fid %d of connection %d is answered for on connection %d: %v", fidN, k, by, m)
				}
				for _, c := range changed {
					look(by, c, after)
				}
			}
		}
		if op != 2 {
			do(k, Tclunk, fidN)
		}
		r.eval(fmt.Sprint(k, after, len(files)))
		if i%20 == 19 { // somebody starts over; the others do not notice
			b := g.Intn(n)
			do(b, Tversion, uint32(8192), "9P2000")
			if m := try(b, Tstat, uint32(1)); !m.isErr() {
				r.fail("a fid survived a new version negotiation: %v", m)
			}
			for by := 0; by < n; by++ {
				if by != b {
					do(by, Tstat, uint32(1))
				}
			}
			do(b, Tattach, uint32(1), uint32(NOFID), "u", "")
		}
	}
	for _, x := range xs {
		x.hangup()
	}
}

// c17streams: pipelined requests on many connections of one listener; each has
// its own file server.
func c17streams(r *R, round int) {
	pool := &nsPool{}
	l, err := p.NewListener(pool.create, func(l *p.Listener) error { l.Trace = tracerFor(round%2 == 1); return nil })
	r.must(err)
	n := []int{2, 4, 8, 12}[round%4]
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		g := r.sub("streams", round*100+k)
		items := []item{versionItem(g)}
		for i := 0; i < 25; i++ {
			items = append(items, gItem(g, small))
		}
		before := pool.num()
		a, b := newPipe(fmt.Sprint("s", k))
		b.seg = segRand(rand.New(rand.NewSource(g.Int63())))
		r.must(l.Accept(b))
		s := pool.take(r, before)
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.stream(g, l, func() *scriptNS { return s }, func() net.Conn { return a }, items, k%2, []string{"chunks", "bytes", "all"}[k%3])
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	awaitWork(r, done, "the streams")
	r.count("rounds of concurrent streams", 1)
}

// c17churn: connections come and go, in the middle of requests too, while one
// goes on undisturbed.
func c17churn(r *R, l *p.Listener, round int) {
	g := r.sub("churn", round)
	root := fmt.Sprintf("%s/churn%d", r.dir, round)
	hostileTree(r, root)
	defer os.RemoveAll(root)
	wroot := root + "-w"
	r.must(os.MkdirAll(wroot, 0755))
	defer os.RemoveAll(wroot)
	data := pattern(1000)
	mkfile(r, wroot+"/wtns", data, 0644)
	a, b := newPipe("w")
	w := ufsWitness(r, ufsConn(r, l, wroot, false, a, b, "witness", 8192), data)
	var wg sync.WaitGroup
	var busy atomic.Bool
	busy.Store(true)
	for k := 0; k < 6; k++ {
		gg := r.sub("churner", round*10+k)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 8; i++ {
				a, b := newPipe("h")
				x := ufsConn(r, l, root, i%2 == 1, a, b, "churn", 8192)
				x.log = false
				hostileSession(r, x, gg, 10+gg.Intn(20), func(string) {})
				if gg.Intn(2) == 0 {
					f := hostileReq(gg).frame()
					x.sendBytes(f[:1+gg.Intn(len(f)-1)])
				}
				if gg.Intn(3) == 0 {
					b.w.close(errors.New("gone"))
				}
				x.hangup()
				r.count("connections made and dropped", 1)
			}
		}()
	}
	go func() { wg.Wait(); busy.Store(false) }()
	for n := 0; busy.Load() || n < 5; n++ {
		w.check("connections came and went")
		if g.Intn(8) == 0 {
			runtime.Gosched()
		}
	}
	w.x.hangup()
}

var _ = strings.Join

// c17stuck: connections whose client stops in the middle of a request, or does
// not take its reply, are waited for by nobody but themselves.
func c17stuck(r *R) {
	for i := 0; i < r.scale(10, 60); i++ {
		setUmask(0)
		l := newUFS(r, i%2 == 1)
		root := fmt.Sprintf("%s/stuck%d", r.dir, i)
		r.must(os.MkdirAll(root+"/d", 0755))
		mkfile(r, root+"/big", pattern(1<<20), 0644)
		setFlags(root, i%3 == 2)
		g := r.sub("stuck", i)
		dial := func(name string, direct bool) net.Conn {
			if direct {
				a, b := net.Pipe()
				r.must(l.Accept(b))
				return a
			}
			a, b := newPipe(name)
			r.must(l.Accept(b))
			return a
		}
		kinds := []string{"new", "version", "version half sent", "header", "body", "reply", "reply of a megabyte", "reply half taken", "error reply", "write half sent"}
		get := func(c net.Conn) Msg {
			type res struct {
				m   Msg
				err error
			}
			ch := make(chan res, 1)
			go func() {
				b := make([]byte, 4)
				if _, err := io.ReadFull(c, b); err != nil {
					ch <- res{err: err}
					return
				}
				n := int(b[0]) | int(b[1])<<8 | int(b[2])<<16
				b = append(b, make([]byte, n-4)...)
				if _, err := io.ReadFull(c, b[4:]); err != nil {
					ch <- res{err: err}
					return
				}
				m, err := decodeFrame(b)
				ch <- res{m, err}
			}()
			x := await(r, ch, "a reply on a connection")
			if x.err != nil {
				r.fail("a connection ended, or has a malformed reply: %v", x.err)
			}
			return x.m
		}
		put := func(c net.Conn, b []byte) {
			done := make(chan struct{})
			go func() { c.Write(b); close(done) }()
			await(r, done, "a connection to take a request")
		}
		rpc := func(c net.Conn, t uint8, f ...any) Msg {
			put(c, Msg{t, 9, f}.frame())
			return get(c)
		}
		good := dial("before", i%2 == 0)
		if m := rpc(good, Tversion, uint32(1<<20), "9P2000"); m.isErr() {
			r.fail("%v", m)
		}
		if m := rpc(good, Tattach, uint32(1), uint32(NOFID), "me", ""); m.isErr() {
			r.fail("%v", m)
		}
		var stuck []net.Conn
		finish := map[net.Conn]func(){}
		n := 0
		look := func(when string) {
			for _, c := range []net.Conn{good, dial("after", i%2 == 1)} {
				if c != good {
					for _, m := range []Msg{rpc(c, Tversion, uint32(8192), "9P2000"), rpc(c, Tattach, uint32(1), uint32(NOFID), "me", "")} {
						if m.isErr() {
							r.fail("%s a new connection's request is answered %v", when, m)
						}
					}
				}
				n++
				name := fmt.Sprint("n", n)
				for k, q := range []Msg{{Twalk, 0, []any{uint32(1), uint32(2), []string{"d"}}}, {Tcreate, 0, []any{uint32(2), name, uint32(0644), uint8(ORDWR)}}, {Twrite, 0, []any{uint32(2), uint64(0), []byte(name)}},
					{Tread, 0, []any{uint32(2), uint64(0), uint32(100)}}, {Tstat, 0, []any{uint32(2)}}, {Tremove, 0, []any{uint32(2)}}} {
					m := rpc(c, q.Type, q.F...)
					if m.isErr() || k == 3 && string(m.F[0].([]byte)) != name {
						r.fail("%s %v is answered %v on another connection", when, q, m)
					}
				}
				r.count("requests answered beside stuck connections", 6)
				if c != good {
					c.Close()
				}
			}
		}
		g.Shuffle(len(kinds), func(a, b int) { kinds[a], kinds[b] = kinds[b], kinds[a] })
		for _, kind := range kinds {
			c := dial("stuck"+kind, true)
			stuck = append(stuck, c)
			v := Msg{Tversion, 9, []any{uint32(2 << 20), "9P2000"}}.frame()
			send := func(m Msg) { m.Tag = 9; put(c, m.frame()) }
			part := func(m Msg, k int) {
				m.Tag = 9
				f := m.frame()
				put(c, f[:k])
				finish[c] = func() {
					put(c, f[k:])
					if m := get(c); m.isErr() {
						r.fail("after others were served a connection that had sent part of a request gets %v", m)
					}
				}
			}
			taken := func(want uint8) func() {
				return func() {
					if m := get(c); m.Type != want {
						r.fail("after others were served a connection that had not taken a reply gets %v", m)
					}
				}
			}
			switch kind {
			case "new":
			case "version":
				put(c, v)
				finish[c] = taken(Rversion)
			case "version half sent":
				part(Msg{Tversion, 9, []any{uint32(2 << 20), "9P2000"}}, len(v)/2)
			default:
				put(c, v)
				get(c)
				rpc(c, Tattach, uint32(1), uint32(NOFID), "me", "")
				rpc(c, Twalk, uint32(1), uint32(2), []string{"big"})
				rpc(c, Topen, uint32(2), uint8(ORDWR))
				switch kind {
				case "header":
					part(Msg{Tstat, 0, []any{uint32(2)}}, 1+g.Intn(6))
				case "body":
					part(Msg{Twalk, 0, []any{uint32(1), uint32(3), []string{"big"}}}, 7+g.Intn(10))
				case "write half sent":
					part(Msg{Twrite, 0, []any{uint32(2), uint64(100), pattern(5000)}}, 2000)
				case "reply":
					send(Msg{Tstat, 0, []any{uint32(2)}})
					finish[c] = taken(Rstat)
				case "reply of a megabyte":
					send(Msg{Tread, 0, []any{uint32(2), uint64(0), uint32(1 << 20)}})
					finish[c] = taken(Rread)
				case "error reply":
					send(Msg{Tstat, 0, []any{uint32(77)}})
					finish[c] = taken(Rerror)
				case "reply half taken":
					send(Msg{Tread, 0, []any{uint32(2), uint64(0), uint32(1000)}})
					b := make([]byte, 3)
					io.ReadFull(c, b)
					rest := io.MultiReader(bytes.NewReader(b), c)
					finish[c] = func() {
						done := make(chan []byte, 1)
						go func() {
							b := make([]byte, 1011)
							io.ReadFull(rest, b)
							done <- b
						}()
						if m, err := decodeFrame(await(r, done, "the rest of a reply")); err != nil || m.Type != Rread {
							r.fail("after others were served a connection that had taken half a reply gets %v %v", m, err)
						}
					}
				}
			}
			look("with a connection stuck (" + kind + ")")
			r.eval("stuck " + kind)
		}
		for k, c := range stuck {
			if k%2 == 0 && finish[c] != nil {
				finish[c]()
			}
			c.Close()
			look("after connections that were stuck have ended")
		}
		good.Close()
	}
	r.need("requests answered beside stuck connections", 500)
}
