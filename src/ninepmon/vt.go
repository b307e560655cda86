package main

// Monitors that run on virtual time: in a bubble of testing/synctest, where the
// clock leaps ahead whenever every goroutine waits. Hours and days pass between
// requests, within messages, before replies and during accept errors, and
// nothing may come of it.

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	p "github.com/Harvey-OS/ninep/protocol"
)

func init() {
	checks["C03V"] = check{run: c03v, level: "exploration"}
	checks["C05V"] = check{run: c03v, level: "exploration"}
	checks["C07V"] = check{run: c07v, level: "exploration"}
	checks["C08V"] = check{run: c08v, level: "exploration"}
	checks["C18V"] = check{run: c18v, level: "exploration"}
	checks["C06V"] = check{run: c06v, level: "exploration"}
	for id, w := range map[string]weights{
		"C10": evenWeights.with("version", 1),
		"C11": {"attach": 1, "walk": 12, "open": 16, "read": 24, "write": 24, "create": 6, "clunk": 4, "wstat": 3},
		"C12": {"attach": 1, "walk": 8, "open": 10, "readdir": 40, "list": 10, "create": 6, "remove": 2, "clunk": 4},
		"C13": {"attach": 2, "walk": 20, "open": 6, "stat": 20, "list": 5, "write": 4, "create": 6, "wstat": 6, "remove": 2, "clunk": 3},
		"C14": {"attach": 1, "walk": 14, "open": 6, "wstat": 24, "write": 3, "stat": 4, "create": 3, "clunk": 3},
		"C15": {"attach": 1, "walk": 14, "create": 20, "mkdir": 8, "remove": 12, "open": 3, "write": 3, "stat": 3, "clunk": 3},
		"C16": {"attach": 3, "walk": 14, "open": 24, "read": 6, "write": 4, "clunk": 8, "create": 14, "mkdir": 3, "remove": 7, "clone": 5, "list": 2, "readdir": 5, "version": 2},
		"C19": evenWeights.with("version", 1),
		"C22": {"attach": 2, "walk": 40, "clone": 8, "create": 3, "remove": 3, "open": 3, "clunk": 6, "wstat": 2},
	} {
		checks[id+"V"] = check{run: func(r *R) {
			if id == "C16" {
				debug.SetGCPercent(-1)
				c16v(r)
			}
			randomCases(r, caseOpts{props: id, cases: r.scale(16, 150), steps: 100, w: w, special: true, probes: map[string]int{"C10": 6}[id], fds: id == "C16", debug: id == "C19"})
			r.need("pauses", 200)
		}, level: "exploration"}
	}
}

// virtual is set in a process whose monitors run in a bubble.
var virtual bool

var pauses = []time.Duration{time.Second, 6 * time.Second, 11 * time.Second, 31 * time.Second, 61 * time.Second, 2*time.Minute + time.Second,
	5*time.Minute + time.Second, 11 * time.Minute, 31 * time.Minute, time.Hour + time.Second, 25 * time.Hour, 8 * 24 * time.Hour, 400 * 24 * time.Hour}

// subrun has a part of a check run in a process of its own and takes over its
// result.
func subrun(r *R, id, label string, mk func(dir string) *exec.Cmd) {
	d := filepath.Join(r.dir, "x"+id)
	for _, s := range []string{"w", "res"} {
		r.must(os.MkdirAll(filepath.Join(d, s), 0755))
	}
	cmd := mk(filepath.Join(d, "w"))
	out, err := cmd.CombinedOutput()
	if b, e := os.ReadFile(filepath.Join(d, "res", "violation.json")); e == nil {
		var v violation
		if e := json.Unmarshal(b, &v); e != nil {
			v.What = "violation (report unreadable)"
		}
		for _, l := range v.Trace {
			r.tracef("%s", l)
		}
		r.fail("%s%s", label, v.What)
	}
	var x result
	b, e := os.ReadFile(filepath.Join(d, "res", "result.json"))
	if err != nil || e != nil {
		if t := string(out); strings.Contains(firstStack(t), "Harvey-OS/ninep/") && !strings.Contains(t, "HARNESS:") {
			r.tracef("%s", t[:min(len(t), 16000)])
			r.fail("%sthe code under test brought the process down", label)
		}
		r.broken(id+": %v %v\n%s", err, e, out[:min(len(out), 8000)])
	}
	r.must(json.Unmarshal(b, &x))
	const given = "cases given up for a breach of another property"
	if x.Counts[given] > 0 {
		r.count(given, int(x.Counts[given]))
	} else if len(x.Starved) > 0 {
		r.broken("%s: too little was observed: %v", id, x.Starved)
	}
	for k, v := range x.Counts {
		r.count(label+k, int(v))
	}
	for i := int64(0); i < x.Evaluations; i++ {
		if i < x.Distinct {
			r.eval(fmt.Sprint(id, i))
		} else {
			r.eval("")
		}
	}
	os.RemoveAll(d)
}

// vt runs the part of the check that is on virtual time.
func vt(r *R) {
	subrun(r, r.id+"V", "virtual time: ", func(dir string) *exec.Cmd {
		cmd := exec.Command(filepath.Join(r.dir, "..", "ninepmon-vt"), "-test.run", "^TestVirtual$", "-test.timeout", "0")
		cmd.Env = append(os.Environ(), "NINEPMON_VT="+r.id+"V", "NINEPMON_DIR="+dir)
		cmd.Dir = dir
		return cmd
	})
}

// c03v: pauses before, within and after requests.
func c03v(r *R) {
	for i, d := range pauses {
		for _, kind := range []string{"before the version", "between requests", "in the header", "in the body", "in the file server", "before the reply is read", "in every message"} {
			pool := &nsPool{}
			l, err := p.NewListener(pool.create, func(l *p.Listener) error { l.Trace = tracerFor(i%2 == 1); return nil })
			r.must(err)
			cc, sc := net.Pipe()
			r.must(l.Accept(sc))
			s := pool.take(r, 0)
			g := r.sub("v"+kind, i)
			n := 0
			s.mu.Lock()
			s.answer = func(_ int, h handled) rep {
				n++
				if kind == "in the file server" && n%3 == 0 {
					time.Sleep(d)
				}
				return zeroAnswer(0, h)
			}
			s.mu.Unlock()
			want := 0
			ask := func(m Msg, when string, refused bool) {
				f := m.frame()
				write := func(b []byte) {
					if _, err := cc.Write(b); err != nil {
						r.fail("a pause of %v %s: the connection no longer takes requests: %v", d, kind, err)
					}
				}
				cut := 0
				switch {
				case when == "in the header":
					cut = 1 + g.Intn(6)
				case when == "in the body" && len(f) > 7:
					cut = 7 + g.Intn(len(f)-7)
				case when == "in every message":
					cut = 1 + g.Intn(len(f)-1)
				}
				wrote := make(chan struct{})
				go func() {
					defer close(wrote)
					if cut > 0 {
						write(f[:cut])
						time.Sleep(d)
					}
					write(f[cut:])
				}()
				<-wrote
				if when == "before the reply is read" {
					time.Sleep(d)
				}
				got := make(chan []byte, 1)
				go func() {
					b := make([]byte, 4)
					if _, err := io.ReadFull(cc, b); err != nil {
						got <- nil
						return
					}
					sz := int(b[0]) | int(b[1])<<8 | int(b[2])<<16
					b = append(b, make([]byte, max(sz-4, 0))...)
					if _, err := io.ReadFull(cc, b[4:]); err != nil {
						got <- nil
						return
					}
					got <- b
				}()
				var b []byte
				select {
				case b = <-got:
				case <-time.After(d + time.Minute):
					r.fail("a pause of %v %s: no reply to %v", d, kind, m)
				}
				if b == nil {
					r.fail("a pause of %v %s: the connection ended without a reply to %v", d, kind, m)
				}
				if refused {
					rep, err := decodeFrame(b)
					if err != nil || rep.Type != Rerror || rep.Tag != m.Tag {
						r.fail("%v, %v after the connection was made and before any Tversion, was answered %v %v", m, d, rep, err)
					}
				} else {
					want++
					if why := judgeReply(item{tag: m.Tag, m: &m, answer: zeroAnswer(0, handled{m.Type, m.F})}, b); why != "" {
						r.fail("a pause of %v %s: %v: %s", d, kind, m, why)
					}
				}
				if seen := s.got(); len(seen) != want || want > 0 && !refused && (seen[want-1].typ != m.Type || !eqFields(seen[want-1].args, m.F)) {
					r.fail("a pause of %v %s: after %v the file server has seen %d requests, %d were to reach it", d, kind, m, len(seen), want)
				}
				r.count("replies judged", 1)
			}
			if kind == "before the version" {
				time.Sleep(d)
				ask(Msg{Tclunk, 3, []any{uint32(1)}}, "", true)
				time.Sleep(d)
				ask(Msg{Tstat, 4, []any{uint32(1)}}, "", true)
			}
			ask(Msg{Tversion, NOTAG, []any{uint32(8192), "9P2000"}}, "", false)
			for k := 0; k < 6; k++ {
				m := gMsg(g, tTypes[1+g.Intn(len(tTypes)-1)], small)
				when := ""
				if k == 2 || k == 4 || kind == "in every message" {
					when = kind
					r.count("pauses", 1)
				}
				if kind == "between requests" {
					time.Sleep(d)
				}
				ask(m, when, false)
			}
			r.eval(fmt.Sprint(kind, d))
			cc.Close()
		}
	}
}

// c07v: answers and requests that take long, and idle clients.
func c07v(r *R) {
	for i, d := range pauses {
		for _, kind := range []string{"before the answers", "between calls", "before requests are read", "within an answer"} {
			cc, sc := net.Pipe()
			c := newClient(r, cc, i%4 == 1)
			if kind == "before requests are read" {
				time.Sleep(d)
			}
			var s *srv
			if kind != "before requests are read" {
				s = newSrv(r, sc)
			}
			g := r.sub("v"+kind, i)
			for round := 0; round < 3; round++ {
				n := []int{1, 9, 4}[round]
				ch := launch(r, c, g, n, uint32(1+100*round))
				if s == nil {
					time.Sleep(d)
					s = newSrv(r, sc)
				}
				var q []Msg
				for k := 0; k < n; k++ {
					select {
					case m := <-s.reqs:
						q = append(q, m)
					case o := <-ch:
						r.fail("a pause of %v %s: call %s%s returned %s %v before it was answered", d, kind, tname(o.t), fieldsStr(o.f), fieldsStr(o.res), o.err)
					case <-time.After(time.Minute):
						r.fail("a pause of %v %s: the client has not sent request %d of %d", d, kind, k, n)
					}
				}
				if kind == "before the answers" {
					select {
					case <-time.After(d):
					case o := <-ch:
						r.fail("call %s%s returned %s %v while the server took %v to answer", tname(o.t), fieldsStr(o.f), fieldsStr(o.res), o.err, d)
					}
				}
				go func() {
					for k := len(q) - 1; k >= 0; k-- {
						if kind == "within an answer" && k == 0 {
							s.mu.Lock()
							delete(s.out, q[k].Tag)
							s.mu.Unlock()
							f := answerFor(q[k].Type, q[k].F).msg(q[k].Type, q[k].Tag).frame()
							h := 1 + g.Intn(len(f)-1)
							s.c.Write(f[:h])
							time.Sleep(d)
							s.c.Write(f[h:])
							continue
						}
						s.answer(q[k])
					}
				}()
				for k := 0; k < n; k++ {
					select {
					case o := <-ch:
						if a := answerFor(o.t, o.f); !a.same(o.res, o.err) {
							r.fail("a pause of %v %s: call %s%s returned %s %v, the server answered %s %v", d, kind, tname(o.t), fieldsStr(o.f), fieldsStr(o.res), o.err, fieldsStr(a.f), a.err)
						}
					case <-time.After(d + time.Minute):
						r.fail("a pause of %v %s: a call was answered and does not return", d, kind)
					}
					r.count("calls answered", 1)
				}
				if kind == "between calls" {
					time.Sleep(d)
				}
			}
			r.count("pauses", 1)
			r.eval(fmt.Sprint(kind, d))
			cc.Close()
			sc.Close()
		}
	}
	r.need("calls answered", 500)
}

// c08v: the connection is lost after a long time; the calls notice at once.
func c08v(r *R) {
	for i, d := range pauses {
		for _, kind := range []string{"closed", "closed while nobody calls", "never read, then closed", "stray reply", "cut reply", "client's end closed"} {
			cc, sc := net.Pipe()
			c := newClient(r, cc, i%4 == 1)
			var s *srv
			if kind != "never read, then closed" {
				s = newSrv(r, sc)
			}
			g := r.sub("v"+kind, i)
			n := 1 + i%7
			var ch chan outcome
			if kind != "closed while nobody calls" {
				ch = launch(r, c, g, n, 1)
			} else {
				n = 0
			}
			select {
			case <-time.After(d):
			case o := <-ch:
				r.fail("call %s%s returned %s %v, nothing had happened for less than %v", tname(o.t), fieldsStr(o.f), fieldsStr(o.res), o.err, d)
			}
			switch kind {
			case "stray reply":
				sc.Write(rawFrame(Rclunk, 60000, nil))
			case "cut reply":
				m := <-s.reqs
				f := answerFor(m.Type, m.F).msg(m.Type, m.Tag).frame()
				sc.Write(f[:len(f)-1])
				time.Sleep(d)
				sc.Close()
			case "client's end closed":
				cc.Close()
			default:
				sc.Close()
			}
			if i%2 == 0 && kind != "stray reply" {
				time.Sleep(time.Minute)
			}
			t0 := time.Now()
			later := launch(r, c, g, 2, 1000)
			for k := 0; k < n+2; k++ {
				from := ch
				if k >= n {
					from = later
				}
				select {
				case o := <-from:
					if o.err == nil {
						r.fail("%s after %v: call %s%s succeeded with %s", kind, d, tname(o.t), fieldsStr(o.f), fieldsStr(o.res))
					}
				case <-time.After(time.Minute):
					r.fail("%s after %v: a call has not returned a minute later", kind, d)
				}
				r.count("calls failed", 1)
			}
			_ = t0
			r.count("pauses", 1)
			r.eval(fmt.Sprint(kind, d))
			sc.Close()
			cc.Close()
		}
	}
	r.need("calls failed", 200)
}

// c18v: errors and quiet for hours, then connections.
func c18v(r *R) {
	for i, d := range pauses {
		b := newBell(r, i%2 == 1)
		ln := newFake("quiet")
		ch := serving(b, ln)
		time.Sleep(d)
		stillServing(r, ch, fmt.Sprintf("after %v of quiet", d))
		c1 := b.call(ln.conn(), fmt.Sprintf("after %v of quiet", d))
		for k := 0; k < 5; k++ {
			ln.ch <- acceptance{err: tempErrs[(i+k)%len(tempErrs)]}
			time.Sleep(d)
			c1.ask("between temporary errors")
		}
		stillServing(r, ch, fmt.Sprintf("after temporary errors %v apart", d))
		c2 := b.call(ln.conn(), "after temporary errors far apart")
		r.count("temporary errors survived", 5)
		time.Sleep(d)
		c1.ask(fmt.Sprintf("after another %v", d))
		if i%2 == 0 {
			b.l.Shutdown()
			ended(r, ch, ln, "a shutdown")
		} else {
			ln.ch <- acceptance{err: permErrs[i%len(permErrs)]}
			ended(r, ch, ln, "a permanent error")
		}
		time.Sleep(d)
		c1.ask(fmt.Sprintf("%v after the listener ended", d))
		c2.ask(fmt.Sprintf("%v after the listener ended", d))
		r.count("pauses", 4)
		r.eval(fmt.Sprint("quiet", d))
		c1.x.hangup()
		c2.x.hangup()
	}
	// Very long rows of temporary errors: Serve goes on, and the pauses it makes do
	// not grow without bound.
	for _, n := range []int{1, 5, 10, 20, 40, 63, 64, 65, 70, 100, 128, 500, r.scale(3000, 50000)} {
		b := newBell(r, n%2 == 1)
		ln := newFake("row")
		ch := serving(b, ln)
		c := b.call(ln.conn(), "at first")
		for k := 0; k < n; k++ {
			select {
			case ln.ch <- acceptance{err: tempErrs[k%len(tempErrs)]}:
			case err := <-ch:
				r.fail("Serve ended with %v after %d temporary errors", err, k)
			}
			if k%50 == 49 || n < 200 {
				for w := 0; len(ln.ch) > 0; w++ {
					if w > 600 {
						r.fail("a minute after temporary error number %d Serve has not called Accept again", k)
					}
					time.Sleep(100 * time.Millisecond)
					if len(ln.ch) > 1 {
						w--
					}
				}
			}
		}
		c2 := b.call(ln.conn(), fmt.Sprintf("after %d temporary errors in a row", n))
		c.ask("during a row of errors")
		stillServing(r, ch, "after a row of errors")
		r.count("temporary errors survived", n)
		b.l.Shutdown()
		ended(r, ch, ln, "a shutdown")
		r.eval(fmt.Sprint("row", n))
		c.x.hangup()
		c2.x.hangup()
	}
	r.need("temporary errors survived", 3000)
}

// c06v: calls between the real client and server with long pauses between them
// and in the handler.
func c06v(r *R) {
	for i, d := range pauses {
		for v := 0; v < 3; v++ {
			s := &scriptNS{}
			g := r.sub("v", i*3+v)
			c, done := callPair(r, g, s, v == 1, v == 2, []int{0, 1, 0}[v])
			for k := 0; k < 12; k++ {
				t := tTypes[1+g.Intn(len(tTypes)-1)]
				f := gMsg(g, t, small).F
				a := gRep(g, t, small)
				if k == 0 {
					t, f, a = Tversion, []any{uint32(8192), "9P2000"}, rep{f: []any{uint32(8192), "9P2000"}}
				}
				s.mu.Lock()
				before := len(s.seen)
				s.answer = func(int, handled) rep {
					if v != 1 && k%4 == 1 {
						time.Sleep(d)
						r.count("pauses", 1)
					}
					return a
				}
				s.mu.Unlock()
				ch := make(chan outcome, 1)
				go func() {
					res, err := sutCall(c, t, f)
					ch <- outcome{t, f, res, err}
				}()
				var o outcome
				select {
				case o = <-ch:
				case <-time.After(d + time.Minute):
					r.fail("call %s%s does not return, with pauses of %v", tname(t), fieldsStr(f), d)
				}
				seen := s.got()
				if len(seen) != before+1 || seen[before].typ != t || !eqFields(seen[before].args, f) {
					r.fail("call %s%s, with pauses of %v: the handler saw %v", tname(t), fieldsStr(f), d, seen[before:])
				}
				if a.err != nil && (o.err == nil || len(a.err.Error()) <= 65535 && o.err.Error() != a.err.Error()) || a.err == nil && (o.err != nil || !eqFields(o.res, a.f)) {
					r.fail("call %s%s, with pauses of %v, returned %s %v, the handler %s %v", tname(t), fieldsStr(f), d, fieldsStr(o.res), o.err, fieldsStr(a.f), a.err)
				}
				if v != 0 && k%4 == 3 {
					time.Sleep(d)
					r.count("pauses", 1)
				}
				r.count("calls", 1)
			}
			r.eval(fmt.Sprint(d, v))
			done()
		}
	}
	r.need("pauses", 100)
}

// c16v: connections with open files that are idle, or blocked by a client that
// does not read, for a long time and then end.
func c16v(r *R) {
	for i, d := range pauses {
		for _, kind := range []string{"idle", "within a request", "reply not read"} {
			l := newUFS(r, i%2 == 1)
			e := newEnv(r, r.sub("v"+kind, i), fmt.Sprint("v", kind[:2], i), "C16")
			e.umaskTo(0)
			e.buildTree(false)
			cc, sc := net.Pipe()
			w := &watchConn{Conn: sc, closed: new(atomic.Bool)}
			e.x = ufsConn(r, l, e.root, i%3 == 2, cc, w, "v", 8192)
			e.fds = true
			e.begin()
			inCase(func() {
				e.attach(1, NOFID, "me", "")
				e.walk(1, 2, "a")
				e.open(2, OREAD)
				e.walk(1, 3, "d")
				e.open(3, OREAD)
				e.walk(1, 4)
				e.create(4, "new", 0644, OWRITE)
				e.judgeFDs()
			})
			n := len(openFDs(e.outer))
			switch kind {
			case "within a request":
				e.x.sendBytes(Msg{Twrite, 5, []any{uint32(4), uint64(0), []byte("data")}}.frame()[:20])
				time.Sleep(d)
			case "idle":
				time.Sleep(d)
			case "reply not read":
				// Nothing reads at this end from now on: the server's writes wait.
				e.x.hangup()
				time.Sleep(time.Second)
				cc, sc = net.Pipe()
				w = &watchConn{Conn: sc, closed: new(atomic.Bool)}
				r.must(l.Accept(w))
				cc.Write(Msg{Tversion, NOTAG, []any{uint32(8192), "9P2000"}}.frame())
				io.ReadFull(cc, make([]byte, len(Msg{Rversion, 0, []any{uint32(8192), "9P2000"}}.frame())))
				cc.Write(Msg{Tattach, 1, []any{uint32(1), uint32(NOFID), "me", ""}}.frame())
				io.ReadFull(cc, make([]byte, 20))
				cc.Write(Msg{Tcreate, 2, []any{uint32(1), "newer", uint32(0644), uint8(OWRITE)}}.frame())
				time.Sleep(d)
				n = 1
			}
			if got := openFDs(e.outer); len(got) != n && !w.closed.Load() {
				r.fail("after %v (%s) the connection holds %v open, for %d open fids", d, kind, got, n)
			}
			if kind != "reply not read" {
				e.x.hangup()
			}
			cc.Close()
			for k := 0; len(openFDs(e.outer)) > 0 || !w.closed.Load(); k++ {
				if k > 600 {
					r.fail("%v of a client that is %s, then it closed the connection: a minute later the server has open %v and has closed the connection: %v", d, kind, openFDs(e.outer), w.closed.Load())
				}
				time.Sleep(100 * time.Millisecond)
			}
			e.x = nil
			e.done()
			r.count("pauses", 1)
			r.count("connections ended", 1)
			r.eval(kind + fmt.Sprint(d))
		}
	}
}
