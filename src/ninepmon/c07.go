package main

// C07 and C08: the client, against a server that is the monitor.

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	p "github.com/Harvey-OS/ninep/protocol"
)

func init() {
	checks["C07"] = check{run: c07, level: "exploration", races: true}
	checks["C07X"] = check{run: c07x, level: "exploration"}
	checks["C08"] = check{run: c08, level: "exploration", races: true}
	checks["C08X"] = check{run: c08x, level: "exploration"}
}

// answerFor is the answer of the scripted server to a request: it depends on
// everything in the request, so no other request has the same.
func answerFor(t uint8, f []any) rep {
	h := fnv.New64a()
	h.Write([]byte{t})
	h.Write(Msg{t, 0, f}.body())
	x := h.Sum64()
	g := rand.New(rand.NewSource(int64(x >> 1)))
	if x%7 == 0 {
		return rep{err: fmt.Errorf("no %d to %016x", t, x)}
	}
	m := gMsg(g, rOf(t), small)
	if len(m.F) > 0 {
		switch v := m.F[len(m.F)-1].(type) {
		case []byte:
			m.F[len(m.F)-1] = append(v, []byte(fmt.Sprintf("%016x", x))...)
		case []QID:
			m.F[len(m.F)-1] = append(v, QID{1, 2, x})
		case QID:
			m.F[len(m.F)-1] = QID{v.T, v.V, x}
		}
	}
	return rep{f: m.F}
}

func (a rep) msg(t uint8, tag uint16) Msg {
	if a.err != nil {
		return Msg{Rerror, tag, []any{a.err.Error()}}
	}
	return Msg{rOf(t), tag, a.f}
}

// same says whether the outcome of a call is this answer.
func (a rep) same(f []any, err error) bool {
	if a.err != nil {
		return err != nil && err.Error() == a.err.Error()
	}
	return err == nil && eqFields(f, a.f)
}

// srv is the server's side of a client's connection.
type srv struct {
	r     *R
	c     net.Conn
	mu    sync.Mutex
	out   map[uint16]Msg // outstanding
	reqs  chan Msg
	stray []Msg    // written without a request
	order []uint64 // arrival and answer order, for telling interleavings apart
	max   int
	seen  int
}

func newSrv(r *R, c net.Conn) *srv {
	s := &srv{r: r, c: c, out: map[uint16]Msg{}, reqs: make(chan Msg, 1<<17)}
	go s.reader()
	return s
}

// reader takes in requests and checks their tags.
func (s *srv) reader() {
	defer close(s.reqs)
	for {
		h := make([]byte, 4)
		if _, err := io.ReadFull(s.c, h); err != nil {
			return
		}
		n := binary.LittleEndian.Uint32(h)
		if n < 7 || n > 1<<27 {
			s.r.fail("the client sent a message that says it has %d bytes", n)
		}
		b := make([]byte, n)
		copy(b, h)
		if _, err := io.ReadFull(s.c, b[4:]); err != nil {
			return
		}
		m, err := decodeFrame(b)
		if err != nil || !isT(m.Type) {
			s.r.fail("the client sent something that is not an intact request: %v: %s", err, abbrev(b))
		}
		if m.Tag == NOTAG || m.Tag == 0 {
			s.r.fail("the client sent %v with the reserved tag", m)
		}
		s.mu.Lock()
		if o, ok := s.out[m.Tag]; ok {
			s.mu.Unlock()
			s.r.fail("the client sent %v while %v with the same tag is outstanding", m, o)
		}
		s.out[m.Tag] = m
		s.seen++
		s.max = max(s.max, len(s.out))
		s.order = append(s.order, uint64(m.Tag))
		s.mu.Unlock()
		s.reqs <- m
	}
}

func (s *srv) isStray(o outcome) bool {
	for _, m := range s.stray {
		if o.err == nil && m.Type == rOf(o.t) && eqFields(m.F, o.res) {
			return true
		}
	}
	return false
}

func (s *srv) outstanding() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.out) }

// answer sends the proper reply.
func (s *srv) answer(m Msg) {
	s.mu.Lock()
	delete(s.out, m.Tag)
	s.order = append(s.order, 1<<32|uint64(m.Tag))
	s.mu.Unlock()
	s.c.Write(answerFor(m.Type, m.F).msg(m.Type, m.Tag).frame())
}

// answerAll answers everything that comes, in an order of its choosing.
func (s *srv) answerAll(g *rand.Rand, policy int, hold int) {
	s.answerUntil(g, policy, hold, nil)
}

// answerUntil does so until stop is closed.
func (s *srv) answerUntil(g *rand.Rand, policy int, hold int, stop chan struct{}) {
	var q []Msg
	for {
		// Take in what is there.
		if len(q) == 0 {
			select {
			case m, ok := <-s.reqs:
				if !ok {
					return
				}
				q = append(q, m)
			case <-stop:
				return
			}
		}
		deadline := 0
	more:
		for {
			select {
			case m, ok := <-s.reqs:
				if !ok {
					return
				}
				q = append(q, m)
			default:
				if len(q) < hold && deadline < 30 {
					deadline++
					runtime.Gosched()
					if deadline > 10 {
						time.Sleep(50 * time.Microsecond)
					}
					continue
				}
				break more
			}
		}
		n := 1 + g.Intn(len(q))
		switch policy {
		case 0:
			n = len(q)
		case 1: // last first
			for i, j := 0, len(q)-1; i < j; i, j = i+1, j-1 {
				q[i], q[j] = q[j], q[i]
			}
		case 2, 3:
			g.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
		case 4: // starve one
			sort.Slice(q, func(i, j int) bool { return q[i].Tag > q[j].Tag })
		}
		for _, m := range q[:n] {
			s.answer(m)
			if policy == 3 && g.Intn(4) == 0 {
				time.Sleep(time.Duration(g.Intn(100)) * time.Microsecond)
			}
		}
		q = append([]Msg{}, q[n:]...)
	}
}

// transport makes the two ends for a client and its server.
func transport(r *R, g *rand.Rand, kind int) (cl, sv net.Conn) {
	switch kind % 3 {
	case 0:
		a, b := newPipe("cs")
		a.seg, b.seg = segRand(rand.New(rand.NewSource(g.Int63()))), segAll
		if kind%2 == 1 {
			a.delay = func() { runtime.Gosched() }
		}
		return a, b
	case 1:
		return net.Pipe()
	}
	ln, err := net.Listen("tcp4", "127.0.0.1:0")
	r.must(err)
	defer ln.Close()
	c, err := net.Dial("tcp4", ln.Addr().String())
	r.must(err)
	s, err := ln.Accept()
	r.must(err)
	return c, s
}

func newClient(r *R, c net.Conn, trace bool) *p.Client {
	return newClientTo(r, c, c, trace)
}

// pieces is a writer that is not made for concurrent writes, as an io.Writer
// need not be: it passes on what it is given in pieces.
type pieces struct{ io.WriteCloser }

func (w pieces) Write(b []byte) (int, error) {
	for n := 0; n < len(b); {
		k := min(5, len(b)-n)
		if m, err := w.WriteCloser.Write(b[n : n+k]); err != nil {
			return n + m, err
		}
		n += k
		if n < 20 {
			runtime.Gosched()
		}
	}
	return len(b), nil
}

func newClientTo(r *R, c io.ReadCloser, to io.WriteCloser, trace bool) *p.Client {
	cl, err := p.NewClient(func(x *p.Client) error {
		x.FromNet, x.ToNet, x.Msize = c, to, 8192
		x.Trace = tracerFor(trace)
		return nil
	})
	if err != nil {
		r.fail("NewClient: %v", err)
	}
	return cl
}

// gCall makes a call nobody else makes.
func gCall(g *rand.Rand, id uint32) (uint8, []any) {
	t := tTypes[g.Intn(len(tTypes))]
	m := gMsg(g, t, small)
	switch t {
	case Tversion:
		m.F[1] = fmt.Sprintf("v%d", id)
	case Tflush:
		m.F[0] = uint16(id)
	default:
		m.F[0] = id
	}
	return t, m.F
}

func c07(r *R) {
	r.rule = "A case is one call on a client shared by up to hundreds of goroutines. The server is the monitor: it decodes every request, keeps the set of outstanding tags, and answers in an order of its " +
		"own (first, last, random first, holding back until many are outstanding) with a reply computed from the whole request, so that a reply to another request shows. Runs under the race detector; all tags outstanding " +
		"at once and more calls than there are tags are run without it. Distinct: by interleaving of arrivals and answers."
	patient := make(chan struct{})
	go func() { c07patient(r); close(patient) }()
	for i := 0; i < r.scale(60, 1200); i++ {
		g := r.sub("round", i)
		cc, sc := transport(r, g, i)
		s := newSrv(r, sc)
		var to io.WriteCloser = cc
		if i%6 == 3 || i%12 == 5 {
			to = pieces{cc}
		}
		c := newClientTo(r, cc, to, i%5 == 4)
		workers := []int{1, 2, 3, 8, 32, 200}[i%6]
		per := max(3, 400/workers)
		go s.answerAll(rand.New(rand.NewSource(g.Int63())), i%5, []int{1, 2, workers / 2, workers}[g.Intn(4)])
		type kept struct {
			f []any
			a rep
			t uint8
		}
		var mu sync.Mutex
		var keep []kept
		var wg sync.WaitGroup
		done := make(chan struct{})
		var flushed atomic.Int64
		for w := 0; w < workers; w++ {
			wg.Add(1)
			gg := rand.New(rand.NewSource(g.Int63()))
			go func(w int) {
				defer wg.Done()
				for k := 0; k < per; k++ {
					id := uint32(w*100000 + k + 1)
					t, f := gCall(gg, id)
					if t == Tflush { // only 16 bits
						flushed.Add(1)
					}
					var res []any
					var err error
					r.guard("client call", func() { res, err = sutCall(c, t, f) })
					a := answerFor(t, f)
					if !a.same(res, err) {
						r.fail("call %s%s of goroutine %d got %s %v, the server answered %s %v (%d goroutines)", tname(t), fieldsStr(f), w, fieldsStr(res), err, fieldsStr(a.f), a.err, workers)
					}
					mu.Lock()
					keep = append(keep, kept{res, a, t})
					mu.Unlock()
					r.count("calls answered", 1)
					if gg.Intn(8) == 0 {
						runtime.Gosched()
					}
				}
			}(w)
		}
		go func() { wg.Wait(); close(done) }()
		await(r, done, "%d goroutines to make %d calls each", workers, per)
		for _, k := range keep {
			if k.a.err == nil && !eqFields(k.f, k.a.f) {
				r.fail("the result of a %s changed after it was returned: %s, was %s", tname(k.t), fieldsStr(k.f), fieldsStr(k.a.f))
			}
		}
		s.mu.Lock()
		r.count("requests seen by the server", s.seen)
		if s.seen != workers*per {
			r.fail("%d calls made %d requests", workers*per, s.seen)
		}
		if s.max > 1 {
			r.count("rounds with several outstanding", 1)
		}
		if i < 6 {
			r.sample("%d goroutines, policy %d, at most %d outstanding", workers, i%5, s.max)
		}
		for k := 0; k+20 <= len(s.order); k += 20 {
			r.eval(fmt.Sprint(workers, s.order[k:k+20]))
		}
		s.mu.Unlock()
		cc.Close()
		sc.Close()
	}
	c07fids(r)
	c07few(r, r.scale(2000, 30000))
	c07last(r)
	c08crowd(r)
	await(r, patient, "the answers that take their time")
	norace(r, "C07X")
	r.count("rounds with all tags outstanding", 1)
	r.need("calls answered", 10000)
	r.need("rounds with several outstanding", 10)
	r.need("fids", 10000)
	r.need("calls answered late", 18)
	r.need("calls answered last", 2000)
	r.need("calls answered while other clients lose their connections", 1000)
}

// c07few: few tags are left, as others have been taken with GetTag: the tag of
// an answered call is in use again at once.
func c07few(r *R, calls int) {
	for v := 0; v < 6; v++ {
		g := r.sub("few", v)
		cc, sc := newPipe("few")
		s := newSrv(r, sc)
		c := newClient(r, cc, v == 5)
		left := []int{1, 2, 3, 1, 7, 2}[v]
		ch := reflect.ValueOf(c).Elem().FieldByName("Tags")
		if ch.Kind() != reflect.Chan {
			return // kept in another way
		}
		n0 := ch.Len() - left
		mine := await(r, one(func() map[uint16]bool {
			mine := map[uint16]bool{}
			for i := 0; i < n0; i++ {
				mine[uint16(c.GetTag())] = true
			}
			return mine
		}), "%d tags", n0)
		go s.answerAll(rand.New(rand.NewSource(g.Int63())), []int{0, 2, 1, 3, 2, 0}[v], 1)
		var wg sync.WaitGroup
		var n atomic.Int64
		for w := 0; w < []int{2, 16, 8, 4, 40, 3}[v]; w++ {
			wg.Add(1)
			gg := rand.New(rand.NewSource(g.Int63()))
			go func() {
				defer wg.Done()
				for {
					k := n.Add(1)
					if k > int64(calls) {
						return
					}
					t, f := uint8(Tclunk), []any{uint32(k)}
					if k%8 == 0 {
						t, f = gCall(gg, uint32(k))
					}
					res, err := sutCall(c, t, f)
					if a := answerFor(t, f); !a.same(res, err) {
						r.fail("with %d tags left call %s%s got %s %v, the server answered %s %v", left, tname(t), fieldsStr(f), fieldsStr(res), err, fieldsStr(a.f), a.err)
					}
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		for last := int64(-1); ; {
			if _, ok := awaitOK(done, stallTicks); ok {
				break
			}
			now := n.Load()
			if now == last {
				r.tracef("%s", stacks())
				r.fail("stalled at call number %d with %d tags left", now, left)
			}
			last = now
		}
		s.mu.Lock()
		for _, t := range s.order {
			if mine[uint16(t)] {
				r.fail("a request was sent with tag %d, which GetTag had given to somebody else", uint16(t))
			}
		}
		if s.max > left {
			r.broken("%d outstanding, %d tags left", s.max, left)
		}
		s.mu.Unlock()
		r.count("calls answered with few tags left", calls)
		r.eval(fmt.Sprint("few", v))
		cc.Close()
		sc.Close()
	}
}

// c07last: the last thing a server does is to answer. What it has answered
// arrives, although the connection is lost right afterwards.
func c07last(r *R) {
	for i := 0; i < r.scale(200, 3000); i++ {
		g := r.sub("last", i)
		cc, sc := transport(r, g, []int{0, 0, 2}[i%3])
		s := newSrv(r, sc)
		c := newClient(r, cc, i%7 == 6)
		n := []int{1, 2, 10, 60}[i%4]
		ch := launch(r, c, g, n, 1)
		var all []byte
		for k := 0; k < n; k++ {
			m := await(r, s.reqs, "request %d of %d", k, n)
			all = append(all, answerFor(m.Type, m.F).msg(m.Type, m.Tag).frame()...)
		}
		sc.Write(all)
		sc.Close()
		for k := 0; k < n; k++ {
			o := await(r, ch, "the result of a call that was answered")
			if a := answerFor(o.t, o.f); !a.same(o.res, o.err) {
				r.fail("%d calls were answered and the connection was closed by the server then: %s%s got %s %v, the answer was %s %v", n, tname(o.t), fieldsStr(o.f), fieldsStr(o.res), o.err, fieldsStr(a.f), a.err)
			}
			r.count("calls answered last", 1)
		}
		r.eval(fmt.Sprint("last", i))
		cc.Close()
	}
}

// c07patient: answers that take long.
func c07patient(r *R) {
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		g := r.sub("patient", k)
		cc, sc := transport(r, g, k)
		s := newSrv(r, sc)
		c := newClient(r, cc, k == 5)
		rest := time.Duration(r.scale(9, 100)-k) * time.Second
		go func() {
			var late []Msg
			timer := time.After(rest)
			for {
				select {
				case m, ok := <-s.reqs:
					if !ok {
						return
					}
					if m.F[0].(uint32) < 10 {
						late = append(late, m)
						continue
					}
					s.answer(m)
				case <-timer:
					for _, m := range late {
						s.answer(m)
					}
					late = nil
				}
			}
		}()
		call := func(id uint32) {
			f := []any{id, uint64(k), uint32(5)}
			res, err := sutCall(c, Tread, f)
			if a := answerFor(Tread, f); !a.same(res, err) {
				r.fail("call Tread%s got %s %v, the server answered %s %v, some calls after %v", fieldsStr(f), fieldsStr(res), err, fieldsStr(a.f), a.err, rest)
			}
			r.count("calls answered", 1)
		}
		for id := uint32(1); id <= 3; id++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				call(id)
				r.count("calls answered late", 1)
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for id := uint32(10); id < 20; id++ {
				call(id)
				time.Sleep(rest / 8)
			}
			sc.Close()
		}()
	}
	wg.Wait()
}

func c07fids(r *R) {
	cc, sc := newPipe("fid")
	defer sc.Close()
	c := newClient(r, cc, false)
	const n, per = 50, 2000
	ch := make(chan []p.FID, n)
	for i := 0; i < n; i++ {
		go func() {
			var l []p.FID
			for k := 0; k < per; k++ {
				l = append(l, c.GetFID())
			}
			ch <- l
		}()
	}
	seen := map[p.FID]bool{}
	for i := 0; i < n; i++ {
		for _, f := range await(r, ch, "GetFID") {
			if seen[f] {
				r.fail("GetFID returned %d twice", f)
			}
			if f == p.FID(NOFID) {
				r.fail("GetFID returned NOFID")
			}
			seen[f] = true
		}
	}
	r.count("fids", len(seen))
	// One after the other, until there have been very many.
	many := r.scale(1<<24, 1<<29)
	bits := map[uint32]*[1 << 11]uint64{}
	ch2 := make(chan p.FID, 1)
	go func() {
		for f := range seen {
			b := bits[uint32(f)>>17]
			if b == nil {
				b = new([1 << 11]uint64)
				bits[uint32(f)>>17] = b
			}
			b[uint32(f)>>6&(1<<11-1)] |= 1 << (f & 63)
		}
		for k := 0; k < many; k++ {
			f := c.GetFID()
			b := bits[uint32(f)>>17]
			if b == nil {
				b = new([1 << 11]uint64)
				bits[uint32(f)>>17] = b
			}
			w := &b[uint32(f)>>6&(1<<11-1)]
			if *w>>(f&63)&1 != 0 || f == p.FID(NOFID) {
				ch2 <- f
				return
			}
			*w |= 1 << (f & 63)
		}
		close(ch2)
	}()
	for t := 0; ; t++ {
		f, got := p.FID(0), false
		select {
		case f, got = <-ch2:
		case <-time.After(time.Second):
			if t > 600 {
				r.fail("stalled: waited 600 s for GetFID")
			}
			continue
		}
		if got {
			r.fail("GetFID returned %d twice, or it is NOFID", f)
		}
		break
	}
	r.count("fids", many)
	cc.Close()
}

// c07many makes more calls than there are tags, one after the other and a few
// at a time.
func c07many(r *R) {
	for v := 0; v < 2; v++ {
		cc, sc := newPipe("many")
		s := newSrv(r, sc)
		c := newClient(r, cc, false)
		go s.answerAll(r.sub("many", v), v*2, 1)
		var wg sync.WaitGroup
		workers := []int{1, 7}[v]
		total := r.scale(140000, 300000)
		if v == 1 {
			total = r.scale(70000, 300000)
		}
		done := make(chan struct{})
		var n atomic.Int64
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					k := n.Add(1)
					if k > int64(total) {
						return
					}
					f := []any{uint32(k)}
					res, err := sutCall(c, Tclunk, f)
					if a := answerFor(Tclunk, f); !a.same(res, err) {
						r.fail("call number %d on one client, Tclunk%s, got %v, the server answered %v", k, fieldsStr(f), err, a.err)
					}
				}
			}()
		}
		go func() { wg.Wait(); close(done) }()
		for last := int64(-1); ; {
			if _, ok := awaitOK(done, stallTicks); ok {
				break
			}
			now := n.Load()
			if now == last {
				r.tracef("%s", stacks())
				r.fail("stalled at call number %d on one client", now)
			}
			last = now
		}
		r.count("calls answered", total)
		s.mu.Lock()
		tags := map[uint64]bool{}
		for _, t := range s.order {
			tags[t&0xffff] = true
		}
		s.mu.Unlock()
		r.count("distinct tags used", len(tags))
		r.eval(fmt.Sprint("many", v, total))
		cc.Close()
		sc.Close()
	}
}

// c07sub runs the part with more goroutines than the race detector allows.
// norace runs a part without the race detector.
func norace(r *R, id string) {
	bin := filepath.Join(r.dir, "..", "ninepmon-norace")
	d := filepath.Join(r.dir, "x")
	for _, s := range []string{"w", "res"} {
		r.must(os.MkdirAll(filepath.Join(d, s), 0755))
	}
	cmd := exec.Command(bin, "-id", id, "-child", filepath.Join(d, "w"))
	cmd.Env = os.Environ()
	out, err := cmd.CombinedOutput()
	if b, e := os.ReadFile(filepath.Join(d, "res", "violation.json")); e == nil {
		var s string
		if i := strings.Index(string(b), `"what": "`); i >= 0 {
			s = string(b[i+9:])
			s = s[:strings.Index(s, "\n")]
		}
		r.tracef("%s", b)
		r.fail("%s", strings.TrimSuffix(s, `",`))
	}
	if err != nil {
		if t := string(out); strings.Contains(firstStack(t), "Harvey-OS/ninep/") && !strings.Contains(t, "HARNESS:") {
			r.tracef("%s", t[:min(len(t), 16000)])
			r.fail("the client brought the process down")
		}
		r.broken(id+": %v\n%s", err, out[:min(len(out), 4000)])
	}
	var x result
	if b, e := os.ReadFile(filepath.Join(d, "res", "result.json")); e == nil && json.Unmarshal(b, &x) == nil {
		for k, v := range x.Counts {
			if id == "C08X" {
				r.count(k, int(v))
			} else {
				r.count("without the race detector: "+k, int(v))
			}
		}
		for i := int64(0); i < x.Evaluations; i++ {
			if i < x.Distinct {
				r.eval(fmt.Sprint(id, i))
			} else {
				r.eval("")
			}
		}
		for _, l := range x.Samples {
			r.sample("%s", l)
		}
	}
}

func c07x(r *R) {
	c07many(r)
	c07few(r, r.scale(40000, 1000000))
	for v := 0; v < r.scale(1, 4); v++ {
		cc, sc := newPipe("all")
		s := newSrv(r, sc)
		c := newClient(r, cc, false)
		// Find out how many it lets be outstanding, then answer in some order. Once
		// all are answered it has to let as many be outstanding again: the tag of an
		// answered request, whatever the answer, can be used again.
		const n = 65534 + 400
		type out struct {
			id  int
			err error
			res []any
		}
		first := 0
		for round := 0; round < r.scale(2, 4); round++ {
			g := r.sub("calls", v*10+round)
			type callOf struct {
				t uint8
				f []any
			}
			calls := make([]callOf, n)
			ch := make(chan out, n)
			s.mu.Lock()
			s.order = nil
			s.mu.Unlock()
			for i := 0; i < n; i++ {
				t, f := uint8(Tclunk), []any{uint32(i)}
				if v+round > 0 {
					t, f = gCall(g, uint32(i))
				}
				calls[i] = callOf{t, f}
				go func(i int, t uint8, f []any) {
					res, err := sutCall(c, t, f)
					ch <- out{i, err, res}
				}(i, t, f)
			}
			last, same := -1, 0
			for same < 30 || last < first && same < 1500 {
				k := s.outstanding()
				if k == last {
					same++
				} else {
					same = 0
				}
				last = k
				time.Sleep(20 * time.Millisecond)
			}
			r.count("requests outstanding at once", last)
			r.sample("%d callers, %d requests outstanding before the first answer", n, last)
			if last < first {
				r.fail("a client let %d requests be outstanding, after %d calls all of which were answered it lets only %d be: replies have not made their tags usable again", first, round*n, last)
			}
			first = last
			stop, stopped := make(chan struct{}), make(chan struct{})
			go func() {
				s.answerUntil(r.sub("all", v), 2, 5000, stop)
				close(stopped)
			}()
			got := make([]bool, n)
			for i := 0; i < n; i++ {
				o := await(r, ch, "the result of call number %d of %d made at once", i, n)
				if got[o.id] {
					r.broken("twice")
				}
				got[o.id] = true
				x := calls[o.id]
				if a := answerFor(x.t, x.f); !a.same(o.res, o.err) {
					r.fail("with all tags outstanding call %s%s got %s %v, the server answered %s %v", tname(x.t), fieldsStr(x.f), fieldsStr(o.res), o.err, fieldsStr(a.f), a.err)
				}
				r.eval(fmt.Sprint(v, round, o.id))
			}
			close(stop)
			<-stopped
		}
		cc.Close()
		sc.Close()
	}
}

// C08

// outcome of a call
type outcome struct {
	t   uint8
	f   []any
	res []any
	err error
}

// launch makes n calls at once.
func launch(r *R, c *p.Client, g *rand.Rand, n int, base uint32) chan outcome {
	ch := make(chan outcome, n)
	for i := 0; i < n; i++ {
		t, f := gCall(g, base+uint32(i))
		go func() {
			r.guard("client call", func() {
				res, err := sutCall(c, t, f)
				ch <- outcome{t, f, res, err}
			})
		}()
	}
	return ch
}

func c08(r *R) {
	r.rule = "A case is a client with 0 to 40 calls outstanding and a fault: the connection cut at every byte of a reply or of a request, read and write errors, a peer that does not read, replies with " +
		"tags nobody waits for, of the wrong type, with bodies that do not decode, with impossible sizes, twice, garbage; all at random moments too. Every call, also later ones, has to return, with success only " +
		"if its own well-formed reply was sent. The faults at random moments run under the race detector. Distinct: by fault, position and number of calls."
	norace(r, "C08X")
	c08gone(r)
	c08tags(r)
	c08crowd(r)
	c08write(r)
	c08random(r)
	c08silent(r)
	c08both(r)
	noClients(r, "every connection of this check is closed")
	r.need("connections lost both ways at once", 300)
	r.need("faults", 700)
	r.need("clients gone after the loss", 60)
	r.need("calls failed that had no tag yet, or no answer", 15)
	r.need("clients lost among others", 300)
	r.need("calls answered while other clients lose their connections", 1000)
	r.need("calls failed", 1500)
	r.need("requests that could not be sent", 50)
}

func c08x(r *R) {
	n := 0
	// scenario: k calls outstanding, some of them answered, then the fault; lost says
	// that no reply can come any more.
	type faultFn func(s *srv, cc net.Conn, sc net.Conn, pending []Msg, g *rand.Rand) (lost bool, sent map[uint16]bool)
	var todo []func()
	run := func(name string, kind int, k, answered, n int, fault faultFn) {
		g := r.sub("c08"+name, n)
		cc, sc := transport(r, g, kind)
		s := newSrv(r, sc)
		c := newClient(r, cc, n%4 == 3)
		answered = min(answered, k)
		ch := launch(r, c, g, k, 1)
		var pend []Msg
		for i := 0; i < k; i++ {
			pend = append(pend, await(r, s.reqs, "request %d of %d to be sent (%s)", i, k, name))
		}
		ok := map[string]bool{}
		key := func(t uint8, f []any) string { return string(t) + string(Msg{t, 0, f}.body()) }
		for i := 0; i < answered; i++ {
			s.answer(pend[i])
			ok[key(pend[i].Type, pend[i].F)] = true
		}
		lost, sent := fault(s, cc, sc, pend[answered:], g)
		for _, m := range pend[answered:] {
			if sent[m.Tag] {
				ok[key(m.Type, m.F)] = true
			}
		}
		if !lost {
			// The server goes on as it should with those still outstanding.
			for _, m := range pend[answered:] {
				if _, did := sent[m.Tag]; !did {
					ok[key(m.Type, m.F)] = true
					s.answer(m)
				}
			}
			go s.answerAll(rand.New(rand.NewSource(g.Int63())), 0, 1)
		} else {
			go func() {
				for range s.reqs {
				}
			}()
		}
		judge := func(o outcome, when string) {
			a := answerFor(o.t, o.f)
			if o.err == nil || o.err.Error() == fmt.Sprint(a.err) {
				if when == "later" && s.isStray(o) {
					// The stray reply came in after this call was made, and has its tag.
					r.count("calls a stray reply matched", 1)
					return
				}
				if o.err == nil && !a.same(o.res, o.err) {
					r.fail("%s: %s call %s%s succeeded with %s, no such reply was sent", name, when, tname(o.t), fieldsStr(o.f), fieldsStr(o.res))
				}
				if o.err == nil && !ok[key(o.t, o.f)] && (lost || when == "outstanding") {
					r.fail("%s: %s call %s%s succeeded, its reply was never sent", name, when, tname(o.t), fieldsStr(o.f))
				}
				r.count("calls answered after all", 1)
			} else {
				r.count("calls failed", 1)
			}
		}
		for i := 0; i < k; i++ {
			judge(await(r, ch, "outstanding call %d of %d to return after %s (%d answered before)", i, k, name, answered), "outstanding")
		}
		ch = launch(r, c, g, 3, 100000)
		for i := 0; i < 3; i++ {
			o := await(r, ch, "a later call to return after %s", name)
			judge(o, "later")
			if lost && o.err == nil {
				r.fail("%s: a later call succeeded though the connection is lost", name)
			}
		}
		r.count("faults", 1)
		r.count("fault: "+strings.SplitN(name, ":", 2)[0], 1)
		r.eval(fmt.Sprint(name, kind, k, answered))
		cc.Close()
		sc.Close()
	}
	scenario := func(name string, kind int, k, answered int, fault faultFn) {
		n++
		no := n
		todo = append(todo, func() { run(name, kind, k, answered, no, fault) })
	}
	drop := func(s *srv, m Msg) {
		s.mu.Lock()
		delete(s.out, m.Tag)
		s.mu.Unlock()
	}
	ks := []int{0, 1, 2, 12}
	if r.thorough {
		ks = []int{0, 1, 2, 5, 40}
	}
	for kind := 0; kind < 3; kind++ {
		for _, k := range ks {
			for _, an := range []int{0, 1, k / 2, k} {
				scenario("close", kind, k, an, func(s *srv, cc, sc net.Conn, p []Msg, g *rand.Rand) (bool, map[uint16]bool) {
					sc.Close()
					return true, nil
				})
				scenario("client side closed", kind, k, an, func(s *srv, cc, sc net.Conn, p []Msg, g *rand.Rand) (bool, map[uint16]bool) {
					cc.Close()
					return true, nil
				})
			}
			// Unsolicited and nonsensical replies.
			for _, tag := range []uint16{0, 1, 2, 1000, 65533, 65534, NOTAG} {
				for _, body := range []Msg{{Rclunk, tag, nil}, {Rerror, tag, []any{"what"}}, {Rread, tag, []any{[]byte("data")}}, {Tclunk, tag, []any{uint32(1)}}} {
					b := body
					scenario(fmt.Sprintf("unsolicited:%d %d", tag, b.Type), kind, k, k, func(s *srv, cc, sc net.Conn, p []Msg, g *rand.Rand) (bool, map[uint16]bool) {
						s.stray = append(s.stray, b)
						sc.Write(b.frame())
						return false, nil
					})
				}
				if tag == 0 || tag == NOTAG || tag > 1000 {
					scenario(fmt.Sprintf("unsolicited with others outstanding:%d", tag), kind, k, 0, func(s *srv, cc, sc net.Conn, p []Msg, g *rand.Rand) (bool, map[uint16]bool) {
						sc.Write(Msg{Rclunk, tag, nil}.frame())
						return false, nil
					})
				}
			}
			// The server answers a request nobody made, and nothing after that.
			for _, tag := range []uint16{0, 3000, 65534, NOTAG} {
				for v := 0; v < 2; v++ {
					scenario(fmt.Sprintf("stray reply, then silence:%d %d", tag, v), kind, k, k/2*v, func(s *srv, cc, sc net.Conn, p []Msg, g *rand.Rand) (bool, map[uint16]bool) {
						f := Msg{Rclunk, tag, nil}.frame()
						if v == 1 {
							f = Msg{Rerror, tag, []any{"no"}}.frame()
						} else if len(p) > 0 {
							f = answerFor(p[0].Type, p[0].F).msg(p[0].Type, tag).frame()
						}
						sc.Write(f)
						return true, nil
					})
				}
			}
			scenario("twice, then silence", kind, k, 0, func(s *srv, cc, sc net.Conn, p []Msg, g *rand.Rand) (bool, map[uint16]bool) {
				sent := map[uint16]bool{}
				f := Msg{Rclunk, 77, nil}.frame()
				if len(p) > 0 {
					sent[p[0].Tag] = true
					f = answerFor(p[0].Type, p[0].F).msg(p[0].Type, p[0].Tag).frame()
				}
				sc.Write(append(append([]byte{}, f...), f...))
				return true, sent
			})
			for sz := uint32(0); sz < 7; sz++ {
				scenario(fmt.Sprintf("size, then silence:%d", sz), kind, k, 0, func(s *srv, cc, sc net.Conn, p []Msg, g *rand.Rand) (bool, map[uint16]bool) {
					b := make([]byte, 7+g.Intn(20))
					binary.LittleEndian.PutUint32(b, sz)
					b[4] = Rclunk
					if len(p) > 0 {
						binary.LittleEndian.PutUint16(b[5:], p[0].Tag)
					}
					sc.Write(b)
					return true, nil
				})
				scenario(fmt.Sprintf("size:%d", sz), kind, k, 0, func(s *srv, cc, sc net.Conn, p []Msg, g *rand.Rand) (bool, map[uint16]bool) {
					b := make([]byte, 12)
					binary.LittleEndian.PutUint32(b, sz)
					b[4] = Rclunk
					if len(p) > 0 {
						binary.LittleEndian.PutUint16(b[5:], p[0].Tag)
					}
					sc.Write(b)
					sc.Close()
					return true, nil
				})
			}
			for v := 0; v < r.scale(3, 20); v++ {
				scenario(fmt.Sprintf("garbage:%d", v), kind, k, 0, func(s *srv, cc, sc net.Conn, p []Msg, g *rand.Rand) (bool, map[uint16]bool) {
					b := gBytes(g, 7+g.Intn(200))
					b[2], b[3] = 0, 0
					sc.Write(b)
					sc.Close()
					return true, map[uint16]bool{binary.LittleEndian.Uint16(b[5:]): true} // by chance
				})
			}
			if k == 0 {
				continue
			}
			// The same reply twice.
			scenario("twice", kind, k, 0, func(s *srv, cc, sc net.Conn, p []Msg, g *rand.Rand) (bool, map[uint16]bool) {
				s.answer(p[0])
				sc.Write(answerFor(p[0].Type, p[0].F).msg(p[0].Type, p[0].Tag).frame())
				return false, map[uint16]bool{p[0].Tag: true}
			})
			// Wrong types.
			for t := 0; t < 256; t++ {
				if _, ok := schema[uint8(t)]; !ok && t%16 != 3 && t != 106 && t != 0 && t != 255 || kind != t%3 && !r.thorough {
					continue
				}
				scenario(fmt.Sprintf("wrong type:%d", t), kind, k, 0, func(s *srv, cc, sc net.Conn, p []Msg, g *rand.Rand) (bool, map[uint16]bool) {
					sent := map[uint16]bool{}
					for _, m := range p[:1+g.Intn(len(p))] {
						drop(s, m)
						if uint8(t) == rOf(m.Type) {
							s.answer(m)
							sent[m.Tag] = true
							continue
						}
						sent[m.Tag] = false
						var body []byte
						if _, ok := schema[uint8(t)]; ok && t != Rerror {
							body = gMsg(g, uint8(t), small).body()
						} else if t == Rerror {
							body = Msg{Rerror, 0, []any{"an error"}}.body()
						} else if g.Intn(2) == 0 {
							body = answerFor(m.Type, m.F).msg(m.Type, 0).body()
						}
						sc.Write(rawFrame(uint8(t), m.Tag, body))
					}
					return false, sent
				})
			}
			// Bodies that do not decode.
			for v := 0; v < r.scale(25, 200); v++ {
				scenario(fmt.Sprintf("undecodable:%d", v), kind, k, 0, func(s *srv, cc, sc net.Conn, p []Msg, g *rand.Rand) (bool, map[uint16]bool) {
					sent := map[uint16]bool{}
					for _, m := range p[:1+g.Intn(len(p))] {
						drop(s, m)
						rt := rOf(m.Type)
						b := gMsg(g, rt, small).body()
						if g.Intn(4) == 0 {
							rt = Rerror
							b = gMsg(g, Rerror, small).body()
						}
						for {
							c := mutate(g, b)
							if v%3 == 0 && len(b) > 0 {
								c = b[:g.Intn(len(b))]
							} else if v%3 == 1 {
								c = append(append([]byte{}, b...), gBytes(g, 1+g.Intn(4))...)
							}
							if _, err := decodeBody(rt, c); err != nil {
								b = c
								break
							}
							b = gMsg(g, rt, small).body()
						}
						sent[m.Tag] = false
						sc.Write(rawFrame(rt, m.Tag, b))
					}
					return false, sent
				})
			}
		}
	}
	// The reply cut at every byte.
	for at := 0; at < 60; at++ {
		for kind := 0; kind < 3; kind++ {
			if kind > 0 && at%5 != 0 && !r.thorough {
				continue
			}
			scenario(fmt.Sprintf("reply cut:%d", at), kind, 3, 0, func(s *srv, cc, sc net.Conn, p []Msg, g *rand.Rand) (bool, map[uint16]bool) {
				m := p[g.Intn(len(p))]
				f := answerFor(m.Type, m.F).msg(m.Type, m.Tag).frame()
				if at < len(f) {
					sc.Write(f[:at])
				} else {
					sc.Write(f[:len(f)-1])
				}
				if pe, ok := sc.(*pipeEnd); ok && at%2 == 1 {
					pe.closeWrite(lossErrs[at/2%len(lossErrs)])
				} else {
					sc.Close()
				}
				return true, nil
			})
		}
	}
	// A whole reply that says it has more bytes, which never come, or fewer.
	for by := -12; by < 40; by++ {
		for kind := 0; kind < 3; kind++ {
			if by == 0 || kind > 0 && by%5 != 0 && !r.thorough {
				continue
			}
			scenario(fmt.Sprintf("reply of another size:%d", by), kind, 3, by&1, func(s *srv, cc, sc net.Conn, p []Msg, g *rand.Rand) (bool, map[uint16]bool) {
				m := p[g.Intn(len(p))]
				f := answerFor(m.Type, m.F).msg(m.Type, m.Tag).frame()
				n := len(f) + by
				if n < 7 {
					n = len(f) + 1
				} else if by == 39 {
					n = len(f) + 1<<20
				}
				binary.LittleEndian.PutUint32(f, uint32(n))
				sc.Write(f)
				if pe, ok := sc.(*pipeEnd); ok && by%2 != 0 {
					pe.closeWrite(lossErrs[(by+12)/2%len(lossErrs)])
				} else {
					sc.Close()
				}
				return true, nil
			})
		}
	}
	// More calls after the loss than there are tags.
	for kind := 0; kind < 3; kind++ {
		todo = append(todo, func() {
			g := r.sub("after", kind)
			cc, sc := transport(r, g, kind)
			c := newClient(r, cc, false)
			sc.Close()
			done := make(chan struct{})
			var at atomic.Int64
			const total = 70000
			go func() {
				defer close(done)
				r.guard("client call", func() {
					for k := 0; k < total; k++ {
						if _, err := sutCall(c, Tclunk, []any{uint32(k)}); err == nil {
							r.fail("call number %d after the loss of the connection succeeded", k)
						}
						at.Add(1)
					}
				})
			}()
			for last := int64(-1); ; {
				if _, ok := awaitOK(done, stallTicks); ok {
					break
				}
				if n := at.Load(); n == last {
					r.tracef("%s", stacks())
					r.fail("call number %d after the loss of the connection has not returned", n)
				} else {
					last = n
				}
			}
			r.count("calls failed", total)
			r.count("faults", 1)
			r.eval(fmt.Sprint("after", kind))
			cc.Close()
		})
	}
	parallel(8, todo)
}

// parallel runs independent cases.
func parallel(n int, todo []func()) {
	ch := make(chan func(), len(todo))
	for _, f := range todo {
		ch <- f
	}
	close(ch)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for f := range ch {
				f()
			}
		}()
	}
	wg.Wait()
}

// c08write: the request cannot be sent.
func c08write(r *R) {
	var todo []func()
	defer func() { parallel(8, todo) }()
	for at := 0; at < 60; at++ {
		todo = append(todo, func() {
			g := r.sub("write", at)
			a, b := newPipe("w")
			e := lossErrs[at%len(lossErrs)]
			a.wlimit.Store(int64(at))
			a.werr.Store(&e)
			c := newClient(r, a, at%4 == 3)
			n := 1 + at%5
			ch := launch(r, c, g, n, 1)
			// One that is certain not to go out whole.
			n++
			big := make(chan outcome, n)
			go func(few chan outcome) {
				for i := 0; i < n-1; i++ {
					big <- <-few
				}
			}(ch)
			go func() {
				f := []any{uint32(9), uint64(9), make([]byte, 100)}
				res, err := sutCall(c, Twrite, f)
				big <- outcome{Twrite, f, res, err}
			}()
			ch = big
			for i := 0; i < n; i++ {
				o := await(r, ch, "a call to return whose request could not be sent (writes fail after %d bytes)", at)
				if o.err == nil {
					r.fail("call %s%s succeeded, its request could not be sent", tname(o.t), fieldsStr(o.f))
				}
				r.count("calls failed", 1)
			}
			ch = launch(r, c, g, 2, 50)
			for i := 0; i < 2; i++ {
				if o := await(r, ch, "a later call to return after writes failed"); o.err == nil {
					r.fail("a call succeeded after writes failed")
				}
				r.count("calls failed", 1)
			}
			r.count("requests that could not be sent", n)
			r.count("faults", 1)
			r.eval(fmt.Sprint("write", at))
			b.Close()
			a.Close()
		})
	}
	// A peer that does not read: the write blocks until the connection goes.
	for v := 0; v < 12; v++ {
		todo = append(todo, func() {
			g := r.sub("noread", v)
			a, b := net.Pipe()
			c := newClient(r, a, v%4 == 3)
			n := 1 + v%6
			ch := launch(r, c, g, n, 1)
			if v%3 == 1 {
				time.Sleep(time.Millisecond)
			}
			if v%3 == 2 {
				b.Read(make([]byte, 5)) // part of a request
			}
			b.Close()
			for i := 0; i < n; i++ {
				if o := await(r, ch, "a call to return whose peer never read the request and went away"); o.err == nil {
					r.fail("call %s%s succeeded, nobody read its request", tname(o.t), fieldsStr(o.f))
				}
				r.count("calls failed", 1)
			}
			ch = launch(r, c, g, 1, 50)
			if o := await(r, ch, "a later call to return"); o.err == nil {
				r.fail("a call succeeded after the peer went away")
			}
			r.count("requests that could not be sent", n)
			r.count("faults", 1)
			r.eval(fmt.Sprint("noread", v))
			a.Close()
		})
	}
}

// c08random: callers at full speed and the connection lost at some moment.
func c08random(r *R) {
	var todo []func()
	defer func() { parallel(4, todo) }()
	for i := 0; i < r.scale(120, 3000); i++ {
		todo = append(todo, func() {
			g := r.sub("random", i)
			cc, sc := transport(r, g, i)
			s := newSrv(r, sc)
			c := newClient(r, cc, i%5 == 4)
			go s.answerAll(rand.New(rand.NewSource(g.Int63())), i%4, 1+g.Intn(4))
			var wg sync.WaitGroup
			workers := 1 + g.Intn(20)
			var okN, failN atomic.Int64
			for w := 0; w < workers; w++ {
				wg.Add(1)
				gg := rand.New(rand.NewSource(g.Int63()))
				go func(w int) {
					defer wg.Done()
					bad := 0
					for k := 0; bad < 3; k++ {
						t, f := gCall(gg, uint32(w*100000+k))
						var res []any
						var err error
						r.guard("client call", func() { res, err = sutCall(c, t, f) })
						a := answerFor(t, f)
						switch {
						case a.same(res, err):
							okN.Add(1)
						case err == nil:
							r.fail("call %s%s returned %s, the server's answer is %s %v (connection being lost)", tname(t), fieldsStr(f), fieldsStr(res), fieldsStr(a.f), a.err)
						default:
							bad++
							failN.Add(1)
						}
					}
				}(w)
			}
			for spin := g.Intn(3000); spin > 0; spin-- {
				runtime.Gosched()
			}
			switch g.Intn(4) {
			case 0:
				cc.Close()
			case 1:
				if pe, ok := sc.(*pipeEnd); ok {
					pe.closeWrite(lossErrs[i%len(lossErrs)])
				} else {
					sc.Close()
				}
			case 2:
				if pe, ok := cc.(*pipeEnd); ok {
					pe.wlimit.Store(int64(g.Intn(300)))
					e := lossErrs[i%len(lossErrs)]
					pe.werr.Store(&e)
				} else {
					sc.Close()
				}
			default:
				sc.Close()
			}
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			await(r, done, "%d goroutines to see the connection lost", workers)
			r.count("calls failed", int(failN.Load()))
			r.count("calls answered before the connection was lost", int(okN.Load()))
			r.count("faults", 1)
			r.eval(fmt.Sprint("random", i, okN.Load()))
			cc.Close()
			sc.Close()
		})
	}
}

// c08silent: nobody makes a call when the connection goes; the first one after it fails.
func c08silent(r *R) {
	var todo []func()
	defer func() { parallel(8, todo) }()
	for i := 0; i < r.scale(40, 400); i++ {
		todo = append(todo, func() {
			g := r.sub("silent", i)
			cc, sc := transport(r, g, i)
			c := newClient(r, cc, i%4 == 3)
			switch i % 3 {
			case 0:
				sc.Close()
			case 1:
				sc.Write(gBytes(g, 3))
				sc.Close()
			case 2:
				cc.Close()
			}
			if i%2 == 0 {
				time.Sleep(time.Millisecond)
			}
			n := 1 + i%4
			ch := launch(r, c, g, n, 1)
			for k := 0; k < n; k++ {
				if o := await(r, ch, "a call to return that was made after the connection was lost"); o.err == nil {
					r.fail("call %s%s succeeded on a lost connection", tname(o.t), fieldsStr(o.f))
				}
				r.count("calls failed", 1)
			}
			r.count("faults", 1)
			r.eval(fmt.Sprint("silent", i))
			sc.Close()
		})
	}
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "timed out" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// lossErrs is what reads and writes of a connection that is gone fail with.
var lossErrs = []error{
	errors.New("i/o error of the monitor"), io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrNoProgress, net.ErrClosed,
	os.ErrDeadlineExceeded, os.ErrClosed, timeoutErr{},
	&net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.ECONNRESET)},
	&net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)},
	&net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ETIMEDOUT)},
	syscall.EAGAIN, syscall.EINTR, syscall.ENOBUFS, fmt.Errorf("wrapped: %w", io.EOF),
}

// noClients waits until no goroutine runs the client's code.
func noClients(r *R, when string) {
	var left []string
	buf := make([]byte, 1<<20)
	eventually(r, func() bool {
		left = left[:0]
		for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			if strings.Contains(g, "Harvey-OS/ninep/protocol.") {
				left = append(left, g)
			}
		}
		return len(left) == 0
	}, "goroutines of the client remain: %s", when)
}

// oneWay is one direction of a client's connection.
type oneWay struct {
	*pipeEnd
	closed atomic.Int64
	fails  bool // to close it says so, though it closes
}

func (h *oneWay) Close() error {
	h.closed.Add(1)
	err := h.pipeEnd.Close()
	if h.fails {
		return errors.New("close failed")
	}
	return err
}

// c08gone: FromNet and ToNet are separate connections. However the connection is
// lost, the client closes both and leaves no goroutine behind.
func c08gone(r *R) {
	type fault struct {
		name string
		do   func(g *rand.Rand, toCl, fromCl *pipeEnd, in, out *oneWay, pend []Msg)
	}
	var faults []fault
	add := func(name string, do func(g *rand.Rand, toCl, fromCl *pipeEnd, in, out *oneWay, pend []Msg)) {
		faults = append(faults, fault{name, do})
	}
	add("peer closed both", func(g *rand.Rand, toCl, fromCl *pipeEnd, in, out *oneWay, pend []Msg) { toCl.Close(); fromCl.Close() })
	add("peer closed what the client reads", func(g *rand.Rand, toCl, fromCl *pipeEnd, in, out *oneWay, pend []Msg) { toCl.Close() })
	add("client's reading end closed", func(g *rand.Rand, toCl, fromCl *pipeEnd, in, out *oneWay, pend []Msg) { in.pipeEnd.Close() })
	for _, e := range lossErrs {
		add("read fails: "+e.Error(), func(g *rand.Rand, toCl, fromCl *pipeEnd, in, out *oneWay, pend []Msg) { toCl.closeWrite(e) })
		add("read of a reply fails: "+e.Error(), func(g *rand.Rand, toCl, fromCl *pipeEnd, in, out *oneWay, pend []Msg) {
			f := rawFrame(Rclunk, 5, nil)
			if len(pend) > 0 {
				f = answerFor(pend[0].Type, pend[0].F).msg(pend[0].Type, pend[0].Tag).frame()
			}
			toCl.Write(f[:1+g.Intn(len(f)-1)])
			toCl.closeWrite(e)
		})
		add("write fails: "+e.Error(), func(g *rand.Rand, toCl, fromCl *pipeEnd, in, out *oneWay, pend []Msg) {
			out.wlimit.Store(int64(g.Intn(12)))
			out.werr.Store(&e)
		})
	}
	for sz := uint32(0); sz < 7; sz++ {
		add(fmt.Sprint("size ", sz), func(g *rand.Rand, toCl, fromCl *pipeEnd, in, out *oneWay, pend []Msg) {
			b := make([]byte, 7)
			b[0], b[4] = byte(sz), Rclunk
			toCl.Write(b)
		})
	}
	for _, tag := range []uint16{0, 3000, 65534, NOTAG} {
		add(fmt.Sprint("reply to no request ", tag), func(g *rand.Rand, toCl, fromCl *pipeEnd, in, out *oneWay, pend []Msg) {
			toCl.Write(rawFrame(Rclunk, tag, nil))
		})
		add(fmt.Sprint("error to no request ", tag), func(g *rand.Rand, toCl, fromCl *pipeEnd, in, out *oneWay, pend []Msg) {
			toCl.Write(Msg{Rerror, tag, []any{"no"}}.frame())
		})
	}
	for i, f := range faults {
		for k := 0; k < r.scale(2, 6); k++ {
			g := r.sub("gone", i*10+k)
			in, toCl := newPipe("in")
			out, fromCl := newPipe("out")
			hi, ho := &oneWay{pipeEnd: in, fails: (i+k)%3 == 1}, &oneWay{pipeEnd: out, fails: (i+k)%3 > 0}
			c := newClientTo(r, hi, ho, k%3 == 2)
			s := newSrv(r, fromCl)
			n := []int{0, 3, 1, 7, 0, 20}[k]
			ch := launch(r, c, g, n, 1)
			var pend []Msg
			for j := 0; j < n; j++ {
				pend = append(pend, await(r, s.reqs, "request %d of %d to be sent (%s)", j, n, f.name))
			}
			f.do(g, toCl, fromCl, hi, ho, pend)
			// One more makes a failing write happen.
			more := launch(r, c, g, 2, 1000)
			for j := 0; j < n+2; j++ {
				from := ch
				if j >= n {
					from = more
				}
				if o := await(r, from, "call %d of %d to return (%s)", j, n+2, f.name); o.err == nil {
					r.fail("%s: call %s%s succeeded with %s", f.name, tname(o.t), fieldsStr(o.f), fieldsStr(o.res))
				}
				r.count("calls failed", 1)
			}
			eventually(r, func() bool { return hi.closed.Load() > 0 && ho.closed.Load() > 0 }, "the client has not closed both directions of its connection: %s, and the calls have returned", f.name)
			noClients(r, f.name+": the calls have returned")
			r.count("clients gone after the loss", 1)
			r.count("faults", 1)
			r.eval(fmt.Sprint("gone", f.name, n))
			toCl.Close()
			fromCl.Close()
		}
	}
}

// c08tags: all tags but a few are taken; the calls that wait for one return when
// the connection goes, and before that get their answers as tags come free.
func c08tags(r *R) {
	for v := 0; v < r.scale(4, 16); v++ {
		g := r.sub("tags", v)
		a, b := newPipe("tags")
		s := newSrv(r, b)
		c := newClient(r, a, v%4 == 3)
		left := []int{0, 1, 3, 2}[v%4]
		taken := map[p.Tag]bool{}
		for i := 0; i < int(NOTAG)-1-left; i++ {
			t := await(r, one(c.GetTag), "tag %d of %d", i, int(NOTAG)-1-left)
			if taken[t] || t == 0 || t == p.Tag(NOTAG) {
				r.fail("GetTag gave out %d, which is %s", t, map[bool]string{true: "taken", false: "not for requests"}[taken[t]])
			}
			taken[t] = true
		}
		n := left + 5
		done := 0
		ch := launch(r, c, g, n, 1)
		// Those with a tag are sent. One of them gets its answer, another takes its tag.
		for i := 0; i < left; i++ {
			m := await(r, s.reqs, "request %d of %d for which there is a tag", i, left)
			if taken[p.Tag(m.Tag)] {
				r.fail("request %s has a tag that is taken", m)
			}
			if i == 0 {
				s.answer(m)
				o := await(r, ch, "the call to return that was answered")
				if a := answerFor(o.t, o.f); !a.same(o.res, o.err) {
					r.fail("call %s%s returned %s %v, the answer was %s %v", tname(o.t), fieldsStr(o.f), fieldsStr(o.res), o.err, fieldsStr(a.f), a.err)
				}
				done++
				m := await(r, s.reqs, "a request to be sent with the tag that came free")
				if taken[p.Tag(m.Tag)] {
					r.fail("request %s has a tag that is taken", m)
				}
			}
		}
		if v%2 == 0 {
			time.Sleep(5 * time.Millisecond)
		}
		switch v % 3 {
		case 0:
			b.Close()
		case 1:
			a.Close()
		case 2:
			b.closeWrite(lossErrs[v%len(lossErrs)])
		}
		for ; done < n; done++ {
			if o := await(r, ch, "call %d of %d to return, with %d free tags, when the connection is lost", done, n, left); o.err == nil {
				r.fail("call %s%s succeeded, it was not answered", tname(o.t), fieldsStr(o.f))
			}
			r.count("calls failed", 1)
			r.count("calls failed that had no tag yet, or no answer", 1)
		}
		noClients(r, fmt.Sprintf("the connection was lost with %d free tags and %d calls", left, n))
		r.count("faults", 1)
		r.eval(fmt.Sprint("tags", v))
		b.Close()
		a.Close()
	}
}

func one[T any](f func() T) chan T {
	ch := make(chan T, 1)
	go func() { ch <- f() }()
	return ch
}

// c08crowd: many clients in one process, which at random hold still wherever they
// say what they do. Some lose their connection, the others must not notice.
func c08crowd(r *R) {
	for v := 0; v < r.scale(3, 30); v++ {
		g := r.sub("crowd", v)
		stop := make(chan struct{})
		var wg, healthy sync.WaitGroup
		var okN, failN, gone atomic.Int64
		client := func(kind int, g *rand.Rand) (*p.Client, net.Conn, net.Conn) {
			cc, sc := transport(r, g, kind)
			s := newSrv(r, sc)
			c, err := p.NewClient(func(x *p.Client) error {
				x.FromNet, x.ToNet, x.Msize = cc, cc, 8192
				x.Trace = func(string, ...interface{}) {
					if rand.Intn(12) == 0 {
						time.Sleep(time.Duration(rand.Intn(600)) * time.Microsecond)
					}
				}
				return nil
			})
			r.must(err)
			go s.answerAll(rand.New(rand.NewSource(g.Int63())), kind%4, 1+g.Intn(2))
			return c, cc, sc
		}
		// Those whose connection holds.
		for h := 0; h < 4; h++ {
			g := rand.New(rand.NewSource(g.Int63()))
			c, cc, sc := client(h, g)
			for w := 0; w < 6; w++ {
				healthy.Add(1)
				g := rand.New(rand.NewSource(g.Int63()))
				go func() {
					defer healthy.Done()
					for k := 0; ; k++ {
						select {
						case <-stop:
							return
						default:
						}
						t, f := gCall(g, uint32(h*1000000+w*100000+k))
						var res []any
						var err error
						r.guard("client call", func() { res, err = sutCall(c, t, f) })
						if a := answerFor(t, f); !a.same(res, err) {
							r.fail("call %s%s returned %s %v, the server's answer is %s %v (other clients of the process lose their connections)", tname(t), fieldsStr(f), fieldsStr(res), err, fieldsStr(a.f), a.err)
						}
						okN.Add(1)
					}
				}()
			}
			defer cc.Close()
			defer sc.Close()
		}
		// Those whose connection does not.
		for d := 0; d < 4; d++ {
			g := rand.New(rand.NewSource(g.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < r.scale(40, 60); i++ {
					c, cc, sc := client(g.Intn(6), g)
					var callers sync.WaitGroup
					for w := 0; w < 5; w++ {
						callers.Add(1)
						g := rand.New(rand.NewSource(g.Int63()))
						go func() {
							defer callers.Done()
							for k, bad := 0, 0; bad < 2; k++ {
								t, f := gCall(g, uint32(10000000+d*1000000+i*10000+w*1000+k))
								var res []any
								var err error
								r.guard("client call", func() { res, err = sutCall(c, t, f) })
								a := answerFor(t, f)
								switch {
								case a.same(res, err):
								case err == nil:
									r.fail("call %s%s returned %s, the server's answer is %s %v (connection being lost, one of many)", tname(t), fieldsStr(f), fieldsStr(res), fieldsStr(a.f), a.err)
								default:
									bad++
									failN.Add(1)
								}
							}
						}()
					}
					time.Sleep(time.Duration(g.Intn(6000)) * time.Microsecond)
					pe, ok := cc.(*pipeEnd)
					switch k := g.Intn(3); {
					case k == 0 && ok:
						e := lossErrs[i%len(lossErrs)]
						pe.wlimit.Store(int64(g.Intn(50)))
						pe.werr.Store(&e)
					case k == 1:
						cc.Close()
					default:
						sc.Close()
					}
					done := make(chan struct{})
					go func() { callers.Wait(); close(done) }()
					await(r, done, "callers to see the connection lost, one of many")
					gone.Add(1)
					cc.Close()
					sc.Close()
				}
			}()
		}
		wg.Wait()
		close(stop)
		done := make(chan struct{})
		go func() { healthy.Wait(); close(done) }()
		await(r, done, "calls of the clients whose connections hold")
		r.count("calls failed", int(failN.Load()))
		r.count("calls answered while other clients lose their connections", int(okN.Load()))
		r.count("clients lost among others", int(gone.Load()))
		r.count("faults", int(gone.Load()))
		r.eval(fmt.Sprint("crowd", v, okN.Load()))
	}
}

// bothEnds is a connection whose reads and writes block until the gate opens and
// then all fail at the same moment.
type bothEnds struct {
	gate           chan struct{}
	reading, write chan struct{}
	r1, w1         sync.Once
	rerr, werr     error
}

func (b *bothEnds) String() string { return "a connection lost both ways" }
func (b *bothEnds) Read([]byte) (int, error) {
	b.r1.Do(func() { close(b.reading) })
	<-b.gate
	return 0, b.rerr
}
func (b *bothEnds) Write([]byte) (int, error) {
	b.w1.Do(func() { close(b.write) })
	<-b.gate
	return 0, b.werr
}
func (b *bothEnds) Close() error { return nil }

// c08both: both directions of a connection fail at the same moment, while others
// look at the client.
func c08both(r *R) {
	for i := 0; i < r.scale(300, 3000); i++ {
		g := r.sub("both", i)
		b := &bothEnds{gate: make(chan struct{}), reading: make(chan struct{}), write: make(chan struct{}),
			rerr: []error{io.EOF, io.ErrUnexpectedEOF, timeoutErr{}, errors.New("reset, says the monitor")}[g.Intn(4)],
			werr: []error{io.ErrClosedPipe, timeoutErr{}, errors.New("broken pipe, says the monitor")}[g.Intn(3)]}
		c := newClientTo(r, b, b, i%10 == 9)
		n := 1 + g.Intn(6)
		ch := launch(r, c, g, n, 1)
		await(r, b.reading, "the client to read")
		await(r, b.write, "the client to write a request")
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
						_ = c.String()
					}
				}
			}()
		}
		if g.Intn(2) == 0 {
			time.Sleep(time.Duration(g.Intn(300)) * time.Microsecond)
		}
		close(b.gate)
		for k := 0; k < n; k++ {
			if o := await(r, ch, "call %d of %d to return: reads and writes failed at the same moment", k, n); o.err == nil {
				r.fail("%s%s succeeded on a connection on which nothing was ever received", tname(o.t), fieldsStr(o.f))
			}
			r.count("calls failed", 1)
		}
		close(stop)
		wg.Wait()
		if o := await(r, launch(r, c, g, 1, 50), "a call on a connection lost both ways"); o.err == nil {
			r.fail("%s%s succeeded on a connection on which nothing was ever received", tname(o.t), fieldsStr(o.f))
		}
		r.count("connections lost both ways at once", 1)
		r.eval(fmt.Sprint("both", i, n))
	}
}
