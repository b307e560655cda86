package main

// C03 to C06: the server's connection loop, its gate, and whole calls.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	p "github.com/Harvey-OS/ninep/protocol"
)

func init() {
	checks["C03"] = check{run: c03, level: "exploration"}
	checks["C05"] = check{run: c05, level: "exploration"}
	checks["C06"] = check{run: c06, level: "exploration"}
}

// handled is one operation the file server saw.
type handled struct {
	typ  uint8
	args []any
}

func (h handled) String() string { return tname(h.typ) + fieldsStr(h.args) }

// rep is what the file server answers.
type rep struct {
	f   []any
	err error
}

// scriptNS answers operations from a script made beforehand and records them.
type scriptNS struct {
	mu     sync.Mutex
	seen   []handled
	answer func(n int, h handled) rep
}

func (s *scriptNS) handle(typ uint8, args []any) ([]any, error) {
	s.mu.Lock()
	h := handled{typ, args}
	n := len(s.seen)
	s.seen = append(s.seen, h)
	s.mu.Unlock()
	a := s.answer(n, h)
	return a.f, a.err
}

func (s *scriptNS) got() []handled {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]handled{}, s.seen...)
}

func gRep(g *rand.Rand, t uint8, size int) rep {
	if g.Intn(4) == 0 {
		return rep{err: gErr(g, 65535)}
	}
	return rep{f: gMsg(g, rOf(t), size).F}
}

// a request of the workload and what has to come of it
type item struct {
	bytes  []byte
	tag    uint16
	m      *Msg // handled as this, if not nil
	answer rep
}

func gItem(g *rand.Rand, size int) item {
	k := g.Intn(20)
	switch {
	case k == 0: // a type that is not supported
		t := uint8(g.Intn(256))
		for schema[t] != "" || t == Tversion || isT(t) {
			t = uint8(g.Intn(256))
		}
		tag := g16(g)
		return item{bytes: rawFrame(t, tag, gBytes(g, g.Intn(50))), tag: tag}
	case k == 1: // does not decode
		t := tTypes[g.Intn(len(tTypes))]
		for {
			tag := g16(g)
			b := mutate(g, gMsg(g, t, small).body())
			if _, err := decodeBody(t, b); err != nil {
				return item{bytes: rawFrame(t, tag, b), tag: tag}
			}
		}
	}
	t := tTypes[g.Intn(len(tTypes))]
	m := gMsg(g, t, size)
	return item{bytes: m.frame(), tag: m.Tag, m: &m, answer: gRep(g, t, size)}
}

func isT(t uint8) bool {
	for _, x := range tTypes {
		if x == t {
			return true
		}
	}
	return false
}

// judgeReply compares a reply frame with what the item asks for.
func judgeReply(it item, frame []byte) string {
	m, err := decodeFrame(frame)
	if err != nil {
		return fmt.Sprintf("reply does not decode: %v: %s", err, abbrev(frame))
	}
	if m.Tag != it.tag {
		return fmt.Sprintf("reply %v, the request has tag %d", m, it.tag)
	}
	if it.m == nil {
		if m.Type != Rerror {
			return fmt.Sprintf("reply %v to a request that is to be refused", m)
		}
		return ""
	}
	if it.answer.err != nil {
		if m.Type != Rerror {
			return fmt.Sprintf("reply %v, the file server failed with %s", m, abbrev(it.answer.err.Error()))
		}
		// A string that does not fit is cut off.
		if w := it.answer.err.Error(); m.F[0].(string) != w && (len(w) <= 65535 || m.F[0] == "" || !strings.HasPrefix(w, m.F[0].(string))) {
			return fmt.Sprintf("reply %v, the file server failed with %s", m, abbrev(it.answer.err.Error()))
		}
		return ""
	}
	if m.Type != rOf(it.m.Type) || !eqFields(m.F, it.answer.f) {
		return fmt.Sprintf("reply %v, the file server answered %s", m, fieldsStr(it.answer.f))
	}
	return ""
}

// stream is one connection's worth of requests.
func (r *R) stream(g *rand.Rand, l *p.Listener, ns func() *scriptNS, dial func() net.Conn, items []item, cut int, segName string) {
	// The file server answers by the items that reach it.
	var reach []item
	for _, it := range items {
		if it.m != nil {
			reach = append(reach, it)
		}
	}
	c := dial()
	s := ns()
	var extra atomic.Int64
	s.mu.Lock()
	s.answer = func(n int, h handled) rep {
		if n >= len(reach) {
			extra.Add(1)
			return rep{err: errors.New("not in the script")}
		}
		return reach[n].answer
	}
	s.mu.Unlock()
	x := newRaw(r, c, "stream")
	var buf []byte
	for _, it := range items {
		buf = append(buf, it.bytes...)
	}
	var tail []byte
	if cut > 0 {
		m := gMsg(g, []uint8{Twrite, Twalk, Tcreate, Tattach, Tclunk, Tremove}[g.Intn(6)], small)
		tail = m.frame()
		tail = tail[:1+g.Intn(len(tail)-1)]
		buf = append(buf, tail...)
	}
	// Write in pieces that have nothing to do with the messages.
	go func() {
		for len(buf) > 0 {
			n := len(buf)
			switch segName {
			case "chunks":
				n = 1 + g.Intn(min(len(buf), 2000))
			case "bytes":
				n = 1 + g.Intn(min(len(buf), 3))
			}
			x.sendBytes(buf[:n])
			buf = buf[n:]
		}
		if hc, ok := c.(interface{ CloseWrite() error }); ok {
			x.wq <- nil
			<-x.wdone
			hc.CloseWrite()
		} else if pe, ok := c.(*pipeEnd); ok {
			x.wq <- nil
			<-x.wdone
			pe.closeWrite(nil)
		}
	}()
	for i, it := range items {
		b := x.recvFrame(fmt.Sprintf("reply to request %d of %d, %s", i, len(items), abbrev(it.bytes)))
		if b == nil {
			r.fail("request %d of %d (%s): the connection ended without a reply (%v), delivery %s", i, len(items), abbrev(it.bytes), x.endErr, segName)
		}
		if s := judgeReply(it, b); s != "" {
			r.fail("request %d of %d, %s, delivery %s: %s", i, len(items), abbrev(it.bytes), segName, s)
		}
		r.count("replies judged", 1)
	}
	if b := x.recvFrame("end of the connection after the last reply"); b != nil {
		r.fail("after the replies to all %d requests another message came: %s", len(items), abbrev(b))
	}
	if len(x.rest) > 0 {
		r.fail("after the replies to all %d requests more bytes came: %s", len(items), abbrev(x.rest))
	}
	c.Close()
	seen := s.got()
	if extra.Load() > 0 || len(seen) != len(reach) {
		r.fail("%d requests were sent that are to be handled, %d were handled (cut off request: %s); last %v", len(reach), len(seen), abbrev(tail), seen[len(seen)-1])
	}
	for i, it := range reach {
		if seen[i].typ != it.m.Type || !eqFields(seen[i].args, it.m.F) {
			r.fail("request %d, %v, was handled as %v", i, *it.m, seen[i])
		}
	}
	r.count("requests handled", len(reach))
	r.count("requests refused", len(items)-len(reach))
	if cut > 0 {
		r.count("requests cut off", 1)
	}
	r.count("streams "+segName, 1)
	key := []byte(segName)
	for _, it := range items {
		key = append(key, it.bytes[4:min(len(it.bytes), 24)]...)
	}
	r.eval(string(key))
}

// nsPool hands each connection its own file server and remembers it.
type nsPool struct {
	mu   sync.Mutex
	last *scriptNS
	n    int
}

func (n *nsPool) create() p.NineServer {
	s := &scriptNS{answer: func(int, handled) rep { return rep{err: errors.New("no script")} }}
	n.mu.Lock()
	n.last = s
	n.n++
	n.mu.Unlock()
	return &recNS{h: s.handle}
}

func (n *nsPool) take(r *R, before int) *scriptNS {
	var s *scriptNS
	eventually(r, func() bool {
		n.mu.Lock()
		defer n.mu.Unlock()
		if n.n > before {
			s = n.last
			return true
		}
		return false
	}, "a connection did not get a file server")
	return s
}

func (n *nsPool) num() int { n.mu.Lock(); defer n.mu.Unlock(); return n.n }

func tracerFor(on bool) p.Tracer {
	if !on {
		return nil
	}
	return func(f string, a ...interface{}) { fmt.Fprintf(io.Discard, f, a...) }
}

func versionItem(g *rand.Rand) item {
	m := Msg{Tversion, g16(g), []any{uint32(8192), "9P2000"}}
	return item{bytes: m.frame(), tag: m.Tag, m: &m, answer: rep{f: []any{uint32(8192), "9P2000"}}}
}

func c03(r *R) {
	r.rule = "A case is one connection: a generated sequence of requests (all types, also unsupported types and undecodable bodies, tags with repetition, some replies errors) sent as one " +
		"byte stream that the connection delivers in pieces of its own choosing (whole, single bytes, random, TCP), half of them ending in the middle of a request. The file server records " +
		"what it handles and answers from a script; replies are decoded by the reference codec and matched one to one. Non-trivial: all; distinct: by delivery and bytes."
	g := r.rng
	slow := make(chan struct{})
	go func() { c03slow(r); close(slow) }()
	pool := &nsPool{}
	for i := 0; i < r.scale(260, 6000); i++ {
		l, err := p.NewListener(pool.create, func(l *p.Listener) error { l.Trace = tracerFor(i%5 == 4); return nil })
		r.must(err)
		items := []item{versionItem(g)}
		size := small
		n := 1 + g.Intn(60)
		if i%6 == 5 {
			size, n = medium, 1+g.Intn(20)
		}
		if i%40 == 39 {
			size, n = large, 1+g.Intn(4)
		}
		for len(items) < n+1 {
			items = append(items, gItem(g, size))
			for len(items) > 1 && g.Intn(12) == 0 { // once more, or all but the tag
				it := items[len(items)-1]
				if it.m != nil {
					it.answer = gRep(g, it.m.Type, small)
					if g.Intn(2) == 0 {
						m := *it.m
						m.Tag = g16(g)
						it.m, it.tag, it.bytes = &m, m.Tag, m.frame()
					}
				}
				items = append(items, it)
				r.count("requests repeated", 1)
			}
		}
		if i%50 == 17 { // long runs of little messages
			for len(items) < 2000 {
				items = append(items, gItem(g, small))
			}
		}
		if i%50 == 23 { // errors whose text is about as long as a string can be
			for d := -3; d <= 3; d++ {
				m := gMsg(g, tTypes[g.Intn(len(tTypes))], medium)
				items = append(items, item{bytes: m.frame(), tag: m.Tag, m: &m, answer: rep{err: errors.New(string(gBytes(g, 65535+d)))}})
			}
			for _, n := range []int{131071, 131072, 131073, 1 << 20} {
				m := gMsg(g, tTypes[g.Intn(len(tTypes))], medium)
				items = append(items, item{bytes: m.frame(), tag: m.Tag, m: &m, answer: rep{err: errors.New(string(gBytes(g, n)))}})
			}
		}
		if i == 7 { // sizes that need all four bytes
			for _, k := range []int{1<<24 - 30, 1<<24 + 5} {
				m := Msg{Twrite, 77, []any{uint32(1), uint64(9), gBytes(g, k)}}
				items = append(items, item{bytes: m.frame(), tag: 77, m: &m, answer: rep{f: []any{uint32(k)}}})
				m2 := Msg{Tread, 78, []any{uint32(1), uint64(9), uint32(k)}}
				items = append(items, item{bytes: m2.frame(), tag: 78, m: &m2, answer: rep{f: []any{gBytes(g, k)}}})
			}
		}
		var seg func(int, int) int
		name := []string{"whole", "bytes", "random", "chunks", "odd"}[i%5]
		if (size == large || i == 7) && name == "bytes" {
			name = "random"
		}
		switch name {
		case "whole":
			seg = segAll
		case "bytes":
			seg = segOne
		case "random":
			seg = segRand(r.sub("seg", i))
		case "odd":
			k := 1 + g.Intn(40)
			seg = func(int, int) int { return k }
			if size != small || i == 7 {
				seg = func(int, int) int { return k * 997 }
			}
		}
		before := pool.num()
		var cut int
		if i%2 == 1 {
			cut = 1
		}
		if i < 6 {
			r.sample("%d requests delivered %s, cut off at the end: %v; the second is %s", len(items), name, cut > 0, abbrev(items[1].bytes))
		}
		r.stream(r.sub("w", i), l, func() *scriptNS { return pool.take(r, before) }, func() net.Conn {
			a, b := newPipe("c03")
			b.seg = seg
			r.must(l.Accept(b))
			return a
		}, items, cut, name)
	}
	// Over TCP.
	l, err := p.NewListener(pool.create)
	r.must(err)
	ln, err := net.Listen("tcp4", "127.0.0.1:0")
	r.must(err)
	go l.Serve(ln)
	for i := 0; i < r.scale(60, 1500); i++ {
		items := []item{versionItem(g)}
		for n := 1 + g.Intn(40); n > 0; n-- {
			size := small
			if g.Intn(8) == 0 {
				size = medium
			}
			if g.Intn(100) == 0 {
				size = large
			}
			items = append(items, gItem(g, size))
		}
		before := pool.num()
		r.stream(r.sub("tcp", i), l, func() *scriptNS { return pool.take(r, before) }, func() net.Conn {
			c, err := net.Dial("tcp4", ln.Addr().String())
			r.must(err)
			return c
		}, items, i%2, []string{"chunks", "bytes", "tcp"}[i%3])
	}
	l.Shutdown()
	c03prompt(r)
	c03huge(r)
	c03long(r)
	await(r, slow, "the connections with pauses")
	r.need("pauses", 12)
	r.need("requests repeated", 200)
	r.need("replies judged", 3000)
	r.need("requests handled", 3000)
	r.need("requests cut off", 100)
	r.need("replies that came while the next request was incomplete", 1000)
	r.need("requests refused", 200)
}

// c03prompt: a request is answered though the next one has only come in part.
func c03prompt(r *R) {
	pool := &nsPool{}
	l, err := p.NewListener(pool.create)
	r.must(err)
	ln, err := net.Listen("tcp4", "127.0.0.1:0")
	r.must(err)
	go l.Serve(ln)
	defer l.Shutdown()
	for i := 0; i < r.scale(40, 1000); i++ {
		g := r.sub("prompt", i)
		before := pool.num()
		var c net.Conn
		if i%4 == 3 {
			c, err = net.Dial("tcp4", ln.Addr().String())
			r.must(err)
		} else {
			a, b := newPipe("c03")
			if i%4 == 1 {
				b.seg = segRand(r.sub("promptseg", i))
			}
			r.must(l.Accept(b))
			c = a
		}
		s := pool.take(r, before)
		s.mu.Lock()
		s.answer = zeroAnswer
		s.mu.Unlock()
		x := newRaw(r, c, "prompt")
		x.log = false
		judge := func(m Msg, what string) {
			b := x.recvFrame(fmt.Sprintf("reply to %v; %s", m, what))
			if b == nil {
				r.fail("%v: the connection ended without a reply (%v); %s", m, x.endErr, what)
			}
			if why := judgeReply(item{tag: m.Tag, m: &m, answer: zeroAnswer(0, handled{m.Type, m.F})}, b); why != "" {
				r.fail("%v: %s; %s", m, why, what)
			}
			r.count("replies judged", 1)
		}
		sent := []Msg{{Tversion, 1, []any{uint32(8192), "9P2000"}}}
		todo, rest := append([]Msg{}, sent...), []byte(nil)
		for round := 0; round < 12; round++ {
			buf := rest
			for k := g.Intn(4); k > 0 || len(todo) == 0; k-- {
				m := gMsg(g, tTypes[1+g.Intn(len(tTypes)-1)], small)
				todo = append(todo, m)
				sent = append(sent, m)
			}
			for k, m := range todo {
				if k > 0 || rest == nil { // of the first one the rest is to go
					buf = append(buf, m.frame()...)
				}
			}
			size := small
			if g.Intn(3) == 0 {
				size = medium
			}
			next := gMsg(g, tTypes[1+g.Intn(len(tTypes)-1)], size)
			f := next.frame()
			cut := 1 + g.Intn(len(f)-1)
			if g.Intn(3) == 0 {
				cut = 1 + g.Intn(6)
			} else if g.Intn(3) == 0 {
				cut = len(f) - 1
			}
			x.sendBytes(append(buf, f[:cut]...))
			for _, m := range todo {
				judge(m, fmt.Sprintf("it was followed by %d bytes of the next request, which has %d", cut, len(f)))
				r.count("replies that came while the next request was incomplete", 1)
			}
			todo, rest = []Msg{next}, f[cut:]
			sent = append(sent, next)
		}
		x.sendBytes(rest)
		judge(todo[0], "it was sent in two parts")
		seen := s.got()
		if len(seen) != len(sent) {
			r.fail("%d requests were sent, %d were handled", len(sent), len(seen))
		}
		for k, m := range sent {
			if seen[k].typ != m.Type || !eqFields(seen[k].args, m.F) {
				r.fail("request %d, %v, was handled as %v", k, m, seen[k])
			}
		}
		r.eval(fmt.Sprint("prompt", i))
		x.hangup()
	}
}

// c03huge: requests and replies of a hundred megabytes, among small ones.
func c03huge(r *R) {
	pool := &nsPool{}
	l, err := p.NewListener(pool.create)
	r.must(err)
	for i, size := range []int{1<<25 + 3, 1<<26 + 1, 100_000_003, 1<<28 + 5}[:r.scale(3, 4)] {
		before := pool.num()
		a, b := newPipe("c03")
		r.must(l.Accept(b))
		s := pool.take(r, before)
		out := pattern(size)
		s.mu.Lock()
		s.answer = func(n int, h handled) rep {
			if h.typ == Tread && h.args[2].(uint32) > 1000 {
				return rep{f: []any{out}}
			}
			return zeroAnswer(n, h)
		}
		s.mu.Unlock()
		x := newRaw(r, a, "huge")
		x.log = false
		data := pattern(size + 1)[1:]
		l := []Msg{{Tversion, 1, []any{uint32(8192), "9P2000"}}, {Tclunk, 2, []any{uint32(1)}}, {Twrite, 3, []any{uint32(1), uint64(0), data}},
			{Tread, 4, []any{uint32(1), uint64(0), uint32(size)}}, {Tclunk, 5, []any{uint32(2)}}}
		for _, m := range l {
			x.sendBytes(m.frame())
			f := x.recvFrame(fmt.Sprintf("reply to %s in a session with messages of %d bytes", tname(m.Type), size))
			if f == nil {
				r.fail("%s in a session with messages of %d bytes: the connection ended without a reply (%v)", tname(m.Type), size, x.endErr)
			}
			if why := judgeReply(item{tag: m.Tag, m: &m, answer: s.answer(0, handled{m.Type, m.F})}, f); why != "" {
				r.fail("%s in a session with messages of %d bytes: %s", tname(m.Type), size, why)
			}
		}
		seen := s.got()
		if len(seen) != len(l) {
			r.fail("%d requests were sent, %d were handled", len(l), len(seen))
		}
		for k, m := range l {
			if seen[k].typ != m.Type || !eqFields(seen[k].args, m.F) {
				r.fail("request %d of a session with messages of %d bytes, %s, was handled as another", k, size, tname(m.Type))
			}
		}
		r.count("messages of more than 32 MB", 2)
		r.eval(fmt.Sprint("huge", i))
		x.hangup()
	}
}

// c03long: one connection for very many requests.
func c03long(r *R) {
	n := 0
	var wrong string
	request := func(k int) Msg {
		fid, off := uint32(k*7+1), uint64(k)*0x10001
		switch k % 4 {
		case 0:
			return Msg{Tclunk, uint16(k), []any{fid}}
		case 1:
			return Msg{Twrite, uint16(k), []any{fid, off, []byte{byte(k), byte(k >> 8)}}}
		case 2:
			return Msg{Tread, uint16(k), []any{fid, off, uint32(k)}}
		}
		return Msg{Tflush, uint16(k), []any{uint16(k * 3)}}
	}
	reply := func(k int) Msg {
		m := Msg{rOf(request(k).Type), uint16(k), nil}
		switch k % 4 {
		case 1:
			m.F = []any{uint32(k)}
		case 2:
			m.F = []any{[]byte(fmt.Sprint("data ", k))}
		}
		if k%4 != 3 && k%10 == 0 {
			return Msg{Rerror, uint16(k), []any{fmt.Sprint("no ", k)}}
		}
		return m
	}
	ns := &recNS{h: func(typ uint8, args []any) ([]any, error) {
		if typ == Tversion {
			return args, nil
		}
		k := n
		n++
		if m := request(k); wrong == "" && (m.Type != typ || !eqFields(m.F, args)) {
			wrong = fmt.Sprintf("request %d, %s, was handled as %s%s", k, m, tname(typ), fieldsStr(args))
		}
		m := reply(k)
		if m.Type == Rerror {
			return nil, errors.New(m.F[0].(string))
		}
		return m.F, nil
	}}
	l, err := p.NewListener(func() p.NineServer { return ns })
	r.must(err)
	a, b := newPipe("c03")
	r.must(l.Accept(b))
	x := newRaw(r, a, "long")
	x.log = false
	x.sendBytes(Msg{Tversion, 1, []any{uint32(8192), "9P2000"}}.frame())
	x.recvFrame("reply to Tversion")
	total := 0
	for k := 0; k < r.scale(1200000, 18000000); {
		batch := 1 + k%400
		var buf []byte
		for i := 0; i < batch; i++ {
			buf = append(buf, request(k+i).frame()...)
		}
		x.sendBytes(buf)
		for i := 0; i < batch; i, k = i+1, k+1 {
			f := x.recvFrame("a reply on a connection for very many requests")
			if f == nil {
				r.fail("request %d on one connection, %s: the connection ended without a reply (%v)", k, request(k), x.endErr)
			}
			if want := reply(k).frame(); !bytes.Equal(f, want) {
				r.fail("request %d on one connection, %s: the reply is %x, the file server answered %x", k, request(k), f, want)
			}
		}
		total = k
	}
	if wrong != "" {
		r.fail("%s", wrong)
	}
	if n != total {
		r.fail("%d requests were sent on one connection, %d were handled", total, n)
	}
	x.hangup()
	r.count("requests on the longest connection", total)
	r.count("replies judged", total)
	r.eval("long")
}

// c03slow: pauses of seconds within and between requests.
func c03slow(r *R) {
	pool := &nsPool{}
	l, err := p.NewListener(pool.create)
	r.must(err)
	ln, err := net.Listen("tcp4", "127.0.0.1:0")
	r.must(err)
	go l.Serve(ln)
	defer l.Shutdown()
	var wg sync.WaitGroup
	for i := 0; i < 12; i++ {
		g := r.sub("slow", i)
		before := pool.num()
		c, err := net.Dial("tcp4", ln.Addr().String())
		r.must(err)
		s := pool.take(r, before)
		x := newRaw(r, c, "slow")
		x.log = false
		s.mu.Lock()
		s.answer = zeroAnswer
		s.mu.Unlock()
		items := []Msg{{Tversion, 1, []any{uint32(8192), "9P2000"}}}
		var buf []byte
		for k := 0; k < 8; k++ {
			items = append(items, gMsg(g, tTypes[1+g.Intn(len(tTypes)-1)], small))
		}
		var at []int
		for _, m := range items {
			at = append(at, len(buf))
			buf = append(buf, m.frame()...)
		}
		cut := at[4]
		switch i % 3 {
		case 1:
			cut += 1 + g.Intn(6) // in the header
		case 2:
			cut += 7 + g.Intn(at[5]-at[4]-7) // in the body
		}
		rest := time.Duration(r.scale(3, 30)+i%4*r.scale(1, 15)) * time.Second
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.sendBytes(buf[:cut])
			time.Sleep(rest)
			x.sendBytes(buf[cut:])
			for k, m := range items {
				b := x.recvFrame(fmt.Sprintf("reply to %v, sent with a pause of %v", m, rest))
				if b == nil {
					r.fail("request %d, %v: the connection ended without a reply (%v), there was a pause of %v after byte %d", k, m, x.endErr, rest, cut)
				}
				if why := judgeReply(item{tag: m.Tag, m: &m, answer: zeroAnswer(0, handled{m.Type, m.F})}, b); why != "" {
					r.fail("request %d, %v, there was a pause of %v after byte %d: %s", k, m, rest, cut, why)
				}
				r.count("replies judged", 1)
			}
			seen := s.got()
			if len(seen) != len(items) {
				r.fail("%d requests were sent, with a pause of %v after byte %d, %d were handled", len(items), rest, cut, len(seen))
			}
			for k, m := range items {
				if seen[k].typ != m.Type || !eqFields(seen[k].args, m.F) {
					r.fail("request %d, %v, was handled as %v; there was a pause of %v after byte %d", k, m, seen[k], rest, cut)
				}
			}
			r.count("pauses", 1)
			r.eval(fmt.Sprint("slow", i))
			x.hangup()
		}()
	}
	wg.Wait()
}

func c05(r *R) {
	r.rule = "A case is one request sent on one of several simultaneous connections of one server, before or after that connection's version request: well-formed and malformed requests of all " +
		"256 message types, on fresh and on long-lived connections, interleaved in random order. Each connection has its own recording file server. Non-trivial: the request has to be refused; " +
		"distinct: by type, body and state of the connection."
	g := r.rng
	type cn struct {
		x         *raw
		s         *scriptNS
		versioned bool
		handled   int
	}
	var salt int
	ask := func(c *cn, typ uint8, tag uint16, body []byte, decodes bool) {
		salt++
		x := c.x
		x.sendBytes(rawFrame(typ, tag, body))
		b := x.recvFrame(fmt.Sprintf("reply to %s (version sent: %v)", tname(typ), c.versioned))
		if b == nil {
			r.fail("%s %s on a connection with version sent: %v: connection closed instead of a reply", tname(typ), abbrev(body), c.versioned)
		}
		m, err := decodeFrame(b)
		if err != nil || m.Tag != tag {
			r.fail("%s tag=%d %s with version sent: %v: reply %v %v", tname(typ), tag, abbrev(body), c.versioned, m, err)
		}
		ok := decodes && isT(typ) && (c.versioned || typ == Tversion)
		n := len(c.s.got())
		if ok {
			c.handled++
			if n != c.handled || m.Type == Rerror {
				r.fail("%s %s with version sent: %v was answered %v and handled %d times", tname(typ), abbrev(body), c.versioned, m, n-c.handled+1)
			}
			r.count("requests served", 1)
			r.eval("")
		} else {
			if m.Type != Rerror {
				r.fail("%s %s with version sent: %v was answered %v, not refused", tname(typ), abbrev(body), c.versioned, m)
			}
			if n != c.handled {
				r.fail("%s %s with version sent: %v reached the file server as %v", tname(typ), abbrev(body), c.versioned, c.s.got()[n-1])
			}
			if c.versioned {
				r.count("unsupported or malformed requests refused after version", 1)
			} else {
				r.count("requests refused before version", 1)
			}
			r.eval(fmt.Sprint(typ, c.versioned, tag) + string(body))
		}
		if typ == Tversion {
			c.versioned = true
		}
	}
	for round := 0; round < r.scale(30, 600); round++ {
		pool := &nsPool{}
		l, err := p.NewListener(pool.create, func(l *p.Listener) error { l.Trace = tracerFor(round%4 == 3); return nil })
		r.must(err)
		var cs []*cn
		open := func() *cn {
			n := pool.num()
			x, _, _ := attachPipe(r, l, fmt.Sprintf("c05.%d", len(cs)), segRand(r.sub("s", round*1000+len(cs))))
			x.log = false
			s := pool.take(r, n)
			s.mu.Lock()
			s.answer = func(n int, h handled) rep {
				m := zeroMsg(rOf(h.typ))
				if h.typ == Tversion {
					return rep{f: h.args}
				}
				return rep{f: m.F}
			}
			s.mu.Unlock()
			c := &cn{x: x, s: s}
			cs = append(cs, c)
			return c
		}
		random := func(c *cn) {
			t := uint8(g.Intn(256))
			if g.Intn(2) == 0 {
				t = tTypes[g.Intn(len(tTypes))]
			}
			if t == Tversion && !c.versioned && g.Intn(4) > 0 {
				return
			}
			if _, ok := schema[t]; ok {
				b := gMsg(g, t, small).body()
				if g.Intn(5) == 0 && t != Tversion {
					b = mutate(g, b)
				}
				_, err := decodeBody(t, b)
				ask(c, t, g16(g), b, err == nil)
			} else {
				ask(c, t, g16(g), gBytes(g, g.Intn(30)), false)
			}
		}
		// Every type on a fresh connection, in the first place and later.
		c := open()
		c2 := open()
		for k := 0; k < 256; k++ {
			t := uint8(k)
			if t == Tversion {
				continue
			}
			b := []byte{}
			if _, ok := schema[t]; ok && round%3 > 0 {
				b = gMsg(g, t, small).body()
			} else if round%3 == 2 {
				b = gBytes(g, g.Intn(20))
			}
			_, err := decodeBody(t, b)
			ask(c, t, uint16(k*257+round), b, err == nil)
		}
		// The other one negotiates; that has no bearing on the first.
		ask(c2, Tversion, NOTAG, Msg{Tversion, 0, []any{uint32(8192), "9P2000"}}.body(), true)
		ask(c, Tattach, 5, gMsg(g, Tattach, small).body(), true)
		ask(c2, Tattach, 5, gMsg(g, Tattach, small).body(), true)
		for k := 0; k < 256; k++ {
			t := uint8(k)
			if t == Tversion {
				continue
			}
			b := gBytes(g, g.Intn(8))
			if _, ok := schema[t]; ok {
				b = gMsg(g, t, small).body()
			}
			_, err := decodeBody(t, b)
			ask(c2, t, uint16(k*257+round), b, err == nil)
		}
		// Many, at random, some going away.
		for k := 0; k < 300; k++ {
			if len(cs) < 6 || g.Intn(20) == 0 && len(cs) < 30 {
				random(open())
				continue
			}
			i := g.Intn(len(cs))
			if g.Intn(60) == 0 {
				cs[i].x.hangup()
				cs = append(cs[:i], cs[i+1:]...)
				continue
			}
			random(cs[i])
		}
		if round < 3 {
			r.sample("round %d: %d connections at the end, %d file servers made", round, len(cs), pool.num())
		}
		for _, c := range cs {
			c.x.hangup()
		}
		r.count("connections", pool.num())
	}
	// The first request in the same segment as a later version request.
	for i := 0; i < r.scale(60, 1000); i++ {
		pool := &nsPool{}
		l, _ := p.NewListener(pool.create)
		x, _, _ := attachPipe(r, l, "c05p", []func(int, int) int{segAll, segOne, segRand(r.sub("p", i))}[i%3])
		s := pool.take(r, 0)
		s.mu.Lock()
		s.answer = func(n int, h handled) rep { return rep{f: zeroMsg(rOf(h.typ)).F} }
		s.mu.Unlock()
		var buf []byte
		k := 1 + g.Intn(8)
		var ms []Msg
		for j := 0; j < k; j++ {
			m := gMsg(g, tTypes[1+g.Intn(len(tTypes)-1)], small)
			ms = append(ms, m)
			buf = append(buf, m.frame()...)
		}
		v := Msg{Tversion, NOTAG, []any{uint32(8192), "9P2000"}}
		a := gMsg(g, Tclunk, small)
		buf = append(append(buf, v.frame()...), a.frame()...)
		x.sendBytes(buf)
		for j, m := range append(ms, v, a) {
			f := x.recvFrame("reply to a pipelined request")
			rm, err := decodeFrame(f)
			if err != nil || rm.Tag != m.Tag || (rm.Type == Rerror) != (j < k) {
				r.fail("pipelined request %d, %v, version request being number %d: reply %v %v", j, m, k, rm, err)
			}
		}
		if n := len(s.got()); n != 2 {
			r.fail("of %d requests before a version request in one segment %d were handled: %v", k, n-2, s.got())
		}
		r.eval(string(buf))
		r.count("requests refused before version", k)
		x.hangup()
	}
	r.need("requests refused before version", 3000)
	r.need("unsupported or malformed requests refused after version", 3000)
	r.need("requests served", 500)
}

// callPair is a client of the code under test connected to a server of it.
func callPair(r *R, g *rand.Rand, s *scriptNS, ctrace, strace bool, kind int) (*p.Client, func()) {
	l, err := p.NewListener(func() p.NineServer { return &recNS{h: s.handle} }, func(l *p.Listener) error { l.Trace = tracerFor(strace); return nil })
	r.must(err)
	var cc, sc net.Conn
	switch kind % 4 {
	case 0:
		cc, sc = net.Pipe()
	case 3:
		ln, err := net.Listen("tcp4", "127.0.0.1:0")
		r.must(err)
		cc, err = net.Dial("tcp4", ln.Addr().String())
		r.must(err)
		sc, err = ln.Accept()
		r.must(err)
		ln.Close()
	default:
		a, b := newPipe("call")
		a.seg, b.seg = segRand(rand.New(rand.NewSource(g.Int63()))), segRand(rand.New(rand.NewSource(g.Int63())))
		cc, sc = a, b
	}
	r.must(l.Accept(sc))
	c, err := p.NewClient(func(c *p.Client) error {
		c.FromNet, c.ToNet = cc, cc
		c.Msize = 8192
		c.Trace = tracerFor(ctrace)
		return nil
	})
	if err != nil {
		r.fail("NewClient: %v", err)
	}
	return c, func() { cc.Close(); sc.Close() }
}

func copyFields(f []any) []any {
	c := append([]any{}, f...)
	for i, x := range c {
		switch x := x.(type) {
		case []byte:
			c[i] = cpb(x)
		case string:
			c[i] = strings.Clone(x)
		case []string:
			l := append([]string{}, x...)
			for j := range l {
				l[j] = strings.Clone(l[j])
			}
			c[i] = l
		case []QID:
			c[i] = append([]QID{}, x...)
		}
	}
	return c
}

func bigFields(f []any) bool {
	for _, x := range f {
		if b, ok := x.([]byte); ok && len(b) > 100000 {
			return true
		}
	}
	return false
}

func c06(r *R) {
	r.rule = "A case is one call of the client library on a server of the library with a recording file server: generated arguments and generated results or error text, edge values and sizes up to " +
		"megabytes, client and server tracing on and off, over pipes that cut the stream, net.Pipe and TCP. The handler has to see the arguments once and the caller the results. Distinct: by arguments and results."
	g := r.rng
	// What callers got earlier, and a copy of it: nothing that comes later changes it.
	type kept struct {
		what     string
		f, first []any
	}
	var keep []kept
	recheck := func(k kept) {
		if !eqFields(k.f, k.first) {
			r.fail("call %s returned %s; after later calls the caller has %s", k.what, fieldsStr(k.first), fieldsStr(k.f))
		}
		r.count("earlier results looked at again", 1)
	}
	judge := func(c *p.Client, s *scriptNS, t uint8, args []any, a rep) {
		s.mu.Lock()
		before := len(s.seen)
		s.answer = func(int, handled) rep { return a }
		s.mu.Unlock()
		mine := args
		args = copyFields(args)
		defer func() {
			if !eqFields(mine, args) {
				r.fail("call %s%s changed its caller's arguments to %s", tname(t), fieldsStr(args), fieldsStr(mine))
			}
		}()
		type out struct {
			f   []any
			err error
		}
		ch := make(chan out, 1)
		go func() {
			r.guard("client call "+tname(t), func() {
				f, err := sutCall(c, t, mine)
				ch <- out{f, err}
			})
		}()
		o := await(r, ch, "the result of call %s%s", tname(t), fieldsStr(args))
		seen := s.got()
		if len(seen) != before+1 {
			r.fail("call %s%s was handled %d times; result %s %v", tname(t), fieldsStr(args), len(seen)-before, fieldsStr(o.f), o.err)
		}
		h := seen[before]
		if h.typ != t || !eqFields(h.args, args) {
			r.fail("call %s%s reached the handler as %v", tname(t), fieldsStr(args), h)
		}
		if a.err != nil {
			if o.err == nil {
				r.fail("call %s%s succeeded with %s, the handler failed with %s", tname(t), fieldsStr(args), fieldsStr(o.f), abbrev(a.err.Error()))
			}
			w := a.err.Error()
			if len(w) <= 65535 && o.err.Error() != w || len(w) > 65535 && (o.err.Error() == "" || !strings.HasPrefix(w, o.err.Error())) {
				r.fail("call %s%s failed with %s, the handler with %s", tname(t), fieldsStr(args), abbrev(o.err.Error()), abbrev(w))
			}
			r.count("calls failed by the handler", 1)
		} else {
			if o.err != nil {
				r.fail("call %s%s failed with %v, the handler returned %s", tname(t), fieldsStr(args), o.err, fieldsStr(a.f))
			}
			if !eqFields(o.f, a.f) {
				r.fail("call %s%s returned %s, the handler %s", tname(t), fieldsStr(args), fieldsStr(o.f), fieldsStr(a.f))
			}
			r.count("calls succeeded", 1)
			if len(o.f) > 0 && !bigFields(o.f) {
				keep = append(keep, kept{tname(t) + fieldsStr(args), o.f, copyFields(o.f)})
			}
			if len(keep) > 40 {
				recheck(keep[0])
				keep = keep[1:]
			}
			if len(keep) > 1 {
				recheck(keep[len(keep)-2])
			}
		}
		r.count("call "+tname(t), 1)
		k := Msg{t, 0, args}.body()
		var k2 []byte
		if a.err == nil {
			k2 = Msg{rOf(t), 0, a.f}.body()
		}
		r.eval(string(t) + string(k[:min(len(k), 200)]) + string(k2[:min(len(k2), 200)]) + fmt.Sprint(len(k), len(k2)))
	}
	for i := 0; i < r.scale(24, 400); i++ {
		s := &scriptNS{}
		gg := r.sub("pair", i)
		c, done := callPair(r, gg, s, i%3 == 1, i%5 == 2, i)
		judge(c, s, Tversion, []any{uint32(8192), "9P2000"}, rep{f: []any{uint32(8192), "9P2000"}})
		for j := 0; j < 150; j++ {
			t := tTypes[g.Intn(len(tTypes))]
			size := small
			if j%10 == 9 {
				size = medium
			}
			if j%75 == 74 && i%2 == 0 {
				size = large
			}
			a := gRep(g, t, size)
			if j == 140 {
				a = rep{err: errors.New(strings.Repeat("long ", 13106+g.Intn(20000)))}
			}
			m := gMsg(g, t, size)
			judge(c, s, t, m.F, a)
			if i == 0 && j < 6 {
				r.sample("%v answered %s %v", m, fieldsStr(a.f), a.err)
			}
		}
		done()
	}
	// Single bits of every field of every call and reply.
	s := &scriptNS{}
	c, done := callPair(r, g, s, false, false, 1)
	judge(c, s, Tversion, []any{uint32(8192), "9P2000"}, rep{f: []any{uint32(8192), "9P2000"}})
	n := 0
	for _, t := range tTypes {
		zr := zeroMsg(rOf(t)).F
		sweep(g, t, zeroMsg(t), func(m Msg) {
			n++
			if b := len(m.frame()); b > 300000 || (b > 400 && n%r.scale(8, 1) != 0) {
				return
			}
			judge(c, s, t, m.F, rep{f: zr})
		})
		za := zeroMsg(t).F
		sweep(g, rOf(t), zeroMsg(rOf(t)), func(m Msg) {
			n++
			if b := len(m.frame()); b > 300000 || (b > 400 && n%r.scale(8, 1) != 0) {
				return
			}
			judge(c, s, t, za, rep{f: m.F})
		})
		for _, e := range edgeStr {
			judge(c, s, t, za, rep{err: errors.New(e)})
		}
		for _, e := range sysErrs {
			judge(c, s, t, za, rep{err: e})
		}
		for _, e := range dict.Strs {
			judge(c, s, t, za, rep{err: errors.New(e)})
		}
		for _, n := range []int{127, 128, 129, 254, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 40000, 65534, 65535} {
			if !r.thorough && n > 600 && n%1024 != 0 && n < 65535 && g.Intn(3) > 0 {
				continue
			}
			judge(c, s, t, za, rep{err: errors.New(string(gBytes(g, n)))})
		}
	}
	done()
	// 16 MB and more.
	c, done = callPair(r, g, s, false, false, 3)
	judge(c, s, Tversion, []any{uint32(1 << 30), "9P2000"}, rep{f: []any{uint32(1 << 30), "9P2000"}})
	judge(c, s, Twrite, []any{uint32(1), uint64(5), gBytes(g, 1<<24+99)}, rep{f: []any{uint32(1<<24 + 99)}})
	judge(c, s, Tread, []any{uint32(1), uint64(5), uint32(1<<24 + 99)}, rep{f: []any{gBytes(g, 1<<24+99)}})
	done()
	// Many calls on one client: longer than the tags last.
	if r.thorough {
		c, done = callPair(r, g, s, false, false, 1)
		judge(c, s, Tversion, []any{uint32(8192), "9P2000"}, rep{f: []any{uint32(8192), "9P2000"}})
		for i := 0; i < 140000; i++ {
			judge(c, s, Tclunk, []any{uint32(i)}, rep{})
			if i%5000 == 0 {
				s.mu.Lock()
				s.seen = nil
				s.mu.Unlock()
			}
		}
		done()
	}
	r.need("calls succeeded", 3000)
	r.need("earlier results looked at again", 3000)
	r.need("calls failed by the handler", 300)
	for _, t := range tTypes {
		r.need("call "+tname(t), 100)
	}
	_ = bytes.MinRead
}
