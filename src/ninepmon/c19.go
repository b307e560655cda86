package main

// C19: the debug layer.

import (
	"bytes"
	"errors"
	"fmt"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/Harvey-OS/ninep/pkg/debugfs"
	p "github.com/Harvey-OS/ninep/protocol"
)

func init() {
	checks["C19"] = check{run: c19, level: "exploration"}
}

// sink takes the log. It is not io.Discard, for which package log would not even
// format anything.
type sink struct{ n atomic.Int64 }

func (s *sink) Write(b []byte) (int, error) { s.n.Add(int64(len(b))); return len(b), nil }

type failSink struct{}

func (failSink) Write(b []byte) (int, error) { return 0, errors.New("disk full") }

func c19(r *R) {
	r.rule = "A case is one operation made through the debug layer, directly, through a server, and as a request to two file servers on equal trees, one with debugging on and one with it off. Arguments, results and errors " +
		"have to be the same on both sides of the layer, the operation has to reach the server exactly once, replies of the two file servers have to agree (apart from file numbers, times and the names of the two " +
		"trees) and so have the trees afterwards. Stat data is anything that fits, malformed or not. Distinct: by operation and arguments."
	s := &sink{}
	log.SetOutput(s)
	c19direct(r)
	c19served(r)
	for i := 0; i < r.scale(150, 3000); i++ {
		c19lockstep(r, i)
	}
	log.SetOutput(failSink{})
	c19direct(r)
	log.SetOutput(s)
	dictCases(r, "C19", true, true)
	randomCases(r, caseOpts{props: "C19", cases: r.scale(60, 600), steps: 120, w: evenWeights.with("version", 1), special: true, debug: true, fds: true})
	r.count("bytes of debugging output", int(s.n.Load()))
	r.need("operations through the layer", 5000)
	r.need("requests answered alike", 3000)
	r.need("malformed stat data", 500)
}

// gStat is stat data, well-formed or not.
func gStat(r *R, g *rand.Rand) []byte {
	b := gDir(g, 100).encode()
	switch g.Intn(6) {
	case 0:
		b = b[:g.Intn(len(b))]
	case 1:
		b = mutate(g, b)
	case 2:
		b = gBytes(g, g.Intn(300))
	case 3:
		b = append(b, gBytes(g, 1+g.Intn(40))...)
	case 4:
		b = nil
	default:
		return b
	}
	r.count("malformed stat data", 1)
	return b[:min(len(b), 60000)]
}

// errKeep is an error whose identity counts.
type errKeep struct{ s string }

func (e *errKeep) Error() string { return e.s }

func c19direct(r *R) {
	g := r.sub("direct", 0)
	for i := 0; i < r.scale(20000, 300000); i++ {
		t := tTypes[i%len(tTypes)]
		f := gMsg(g, t, small).F
		if t == Twstat {
			f[1] = gStat(r, g)
		}
		want := rep{f: gMsg(g, rOf(t), small).F}
		if t == Tstat {
			want.f = []any{gStat(r, g)}
		}
		if g.Intn(4) == 0 {
			want.err = &errKeep{gStr(g, 300)}
			if g.Intn(3) > 0 {
				want.err = gErr(g, 300)
			}
		}
		m := Msg{t, 0, f}
		sent, answer := m.body(), Msg{rOf(t), 0, want.f}.body()
		n := 0
		ns := &recNS{h: func(typ uint8, a []any) ([]any, error) {
			n++
			if typ != t || !eqFields(a, f) {
				r.fail("%v reached the wrapped server as %v", m, Msg{typ, 0, a})
			}
			return want.f, want.err
		}}
		d := &debugfs.DebugFileServer{FileServer: ns}
		var res []any
		var err error
		r.guard("the debug layer, "+m.String(), func() { res, err = nsCall(d, t, f) })
		if n != 1 {
			r.fail("%v reached the wrapped server %d times", m, n)
		}
		if err != want.err {
			r.fail("%v: the wrapped server's error %v came back as %v", m, want.err, err)
		}
		if err == nil && !eqFields(res, want.f) {
			r.fail("%v: the wrapped server answered %s, which came back as %s", m, fieldsStr(want.f), fieldsStr(res))
		}
		if !bytes.Equal(m.body(), sent) {
			r.fail("%v: the layer changed the caller's data", m)
		}
		if !bytes.Equal(Msg{rOf(t), 0, want.f}.body(), answer) {
			r.fail("%v: the layer changed the wrapped server's data", m)
		}
		r.count("operations through the layer", 1)
		r.eval(m.String())
	}
}

// closeNS counts closes.
type closeNS struct {
	recNS
	closes atomic.Int64
}

func (c *closeNS) Close() error { c.closes.Add(1); return nil }

// c19served: the same through connections.
func c19served(r *R) {
	for i := 0; i < r.scale(20, 300); i++ {
		g := r.sub("served", i)
		var mu sync.Mutex
		var seen []handled
		var answers []rep
		var ns [2]*closeNS
		k := 0
		mk := func(j int) *closeNS {
			pos := 0
			c := &closeNS{}
			c.h = func(t uint8, a []any) ([]any, error) {
				if t == Tversion {
					return a, nil
				}
				mu.Lock()
				defer mu.Unlock()
				if j == 1 {
					seen = append(seen, handled{t, a})
				}
				pos++
				x := answers[pos-1]
				return x.f, x.err
			}
			return c
		}
		l, err := p.NewListener(func() p.NineServer {
			ns[k] = mk(k)
			k++
			if k == 2 {
				return &debugfs.DebugFileServer{FileServer: ns[1]}
			}
			return ns[0]
		})
		r.must(err)
		var both [2]*raw
		for i, n := range []string{"plain", "debug"} {
			x, _, _ := attachPipe(r, l, n, segAll)
			x.log = false
			both[i] = x
			// An answer before the next one is made.
			if m, bad := x.rpc(Tversion, uint32(8192), "9P2000"); bad != "" || m.isErr() {
				r.fail("%v %s", m, bad)
			}
		}
		plain, dbg := both[0], both[1]
		n := 0
		for s := 0; s < 60; s++ {
			t := tTypes[g.Intn(len(tTypes))]
			if t == Tversion {
				continue
			}
			m := gMsg(g, t, small)
			a := gRep(g, t, small)
			switch t {
			case Twstat:
				m.F[1] = gStat(r, g)
			case Tstat:
				if a.err == nil {
					a.f = []any{gStat(r, g)}
				}
			}
			mu.Lock()
			answers = append(answers, a)
			n++
			mu.Unlock()
			plain.send(m)
			dbg.send(m)
			f0 := plain.recvFrame("reply to " + m.String())
			f1 := dbg.recvFrame("reply, with the debug layer, to " + m.String())
			if !bytes.Equal(f0, f1) {
				r.fail("%v is answered %s, and with the debug layer %s", m, abbrev(f0), abbrev(f1))
			}
			mu.Lock()
			if len(seen) != n || seen[n-1].typ != m.Type || !eqFields(seen[n-1].args, m.F) {
				r.fail("%v reached the wrapped server as %v (%d operations for %d requests)", m, seen[len(seen)-1], len(seen), n)
			}
			mu.Unlock()
			r.count("operations through the layer", 1)
			r.eval(m.String())
		}
		plain.hangup()
		dbg.hangup()
		for j, what := range []string{"a file server", "a file server wrapped in the debug layer"} {
			eventually(r, func() bool { return ns[j].closes.Load() > 0 }, "%s is not closed when its connection ends", what)
		}
	}
}

// mask takes out of a reply what may differ between two equal trees.
func mask(m Msg, root string) Msg {
	o := Msg{m.Type, m.Tag, append([]any{}, m.F...)}
	for i, f := range o.F {
		switch x := f.(type) {
		case QID:
			o.F[i] = QID{T: x.T}
		case []QID:
			l := []QID{}
			for _, q := range x {
				l = append(l, QID{T: q.T})
			}
			o.F[i] = l
		case string:
			o.F[i] = strings.ReplaceAll(x, root, "ROOT")
		case []byte:
			if m.Type != Rstat && m.Type != Rread {
				continue
			}
			var out []byte
			for b := x; ; {
				if len(b) == 0 {
					o.F[i] = out
					break
				}
				d, n, err := decodeDir(b, true)
				if err != nil {
					break
				}
				d.QID = QID{T: d.QID.T}
				d.Atime, d.Mtime = 0, 0
				d.Name = strings.ReplaceAll(d.Name, filepath.Base(root), "ROOT")
				out = append(out, d.encode()...)
				b = b[n:]
			}
		}
	}
	return o
}

func c19lockstep(r *R, i int) {
	l := newUFS(r, i%3 == 2)
	g := r.sub("lockstep", i)
	var roots [2]string
	var xs [2]*raw
	setUmask(0)
	for k := range roots {
		roots[k] = fmt.Sprintf("%s/lock%d-%d", r.dir, i, k)
		hostileTree(r, roots[k])
		defer os.RemoveAll(roots[k])
		a, b := newPipe("l")
		xs[k] = ufsConn(r, l, roots[k], k == 1, a, b, []string{"plain", "debug"}[k], 8192)
		xs[k].log = false
	}
	for s := 0; s < 120; s++ {
		m := hostileReq(g)
		switch {
		case s == 0:
			m = Msg{Tattach, 1, []any{uint32(0), uint32(NOFID), "u", ""}}
		case m.Type == Tattach && g.Intn(2) == 0:
			m.F[3] = ""
		case m.Type == Twalk && g.Intn(2) == 0:
			m.F[2] = []string{[]string{"a", "d", "big", "new", "empty"}[g.Intn(5)]}
		case m.Type == Tversion && g.Intn(3) > 0:
			continue
		}
		fb := m.frame()
		if g.Intn(20) == 0 {
			fb = rawFrame(m.Type, m.Tag, mutate(g, m.body()))
		}
		var rp [2]Msg
		for k, x := range xs {
			x.sendBytes(fb)
			b := x.recvFrame("reply to " + m.String())
			if b == nil {
				r.fail("%s server, %v: the connection was closed", x.name, m)
			}
			var err error
			if rp[k], err = decodeFrame(b); err != nil {
				r.fail("%s server, %v: reply %v", x.name, m, err)
			}
		}
		r.tracef("%v -> %v, %v", m, rp[0], rp[1])
		a, b := mask(rp[0], roots[0]), mask(rp[1], roots[1])
		if a.Type != b.Type || a.Tag != b.Tag || !eqFields(a.F, b.F) {
			if a.Type == Rread && b.Type == Rread && len(a.F[0].([]byte)) > 0 && isDirData(a.F[0].([]byte)) && isDirData(b.F[0].([]byte)) {
				r.count("directories listed in another order", 1)
				break // the positions differ from here on
			}
			r.fail("%v is answered %v with debugging off and %v with it on", m, a, b)
		}
		r.count("requests answered alike", 1)
		if a.Type != Rerror {
			r.count("requests answered alike with success", 1)
		}
		r.eval(m.String())
	}
	var ts [2]tree
	for k, x := range xs {
		x.hangup()
		ts[k] = snap(r, roots[k])
	}
	for p, a := range ts[0] {
		b, ok := ts[1][p]
		if !ok || a.mode != b.mode || a.content != b.content {
			r.fail("after the same requests the trees differ at %q with debugging off and on: %v %v", p, a, b)
		}
	}
	if len(ts[0]) != len(ts[1]) {
		r.fail("after the same requests the trees differ with debugging off and on")
	}
}

func isDirData(b []byte) bool {
	for len(b) > 0 {
		_, n, err := decodeDir(b, true)
		if err != nil {
			return false
		}
		b = b[n:]
	}
	return true
}
