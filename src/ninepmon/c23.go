package main

// C23: the sizes agreed on.

import (
	"fmt"
	"os"

	p "github.com/Harvey-OS/ninep/protocol"
)

func init() {
	checks["C23"] = check{run: c23, level: "exploration"}
}

var c23sizes = []uint32{0, 1, 7, 11, 12, 23, 24, 25, 26, 31, 64, 100, 127, 128, 200, 255, 256, 257, 300, 512, 1000, 1024, 2048, 4095, 4096, 4097, 7999, 8000, 8001, 8023, 8024, 8025,
	8181, 8191, 8192, 8193, 8203, 8204, 8215, 8216, 8217, 10000, 16384, 16408, 32767, 32768, 65535, 65536, 65559, 65560, 65561, 1 << 17, 1<<20 - 1, 1 << 20, 1<<20 + 24,
	2 << 20, 2<<20 + 23, 2<<20 + 24, 2<<20 + 25, 4 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}

func c23(r *R) {
	r.rule = "A case is a message size: negotiated on a new connection or in the middle of a session, after larger and smaller ones and with refused versions in between. With it the version reply, every reply to a " +
		"read (files and directories, counts around the size and far beyond it) and every iounit are judged, and as many bytes as the iounit says are read and written with one message. Also random histories with " +
		"renegotiation, and connections with different sizes at the same time. Distinct: by sizes, file and mode."
	l := newUFS(r, false)
	for _, debug := range []bool{false, true} {
		c23session(r, l, debug)
	}
	c23pair(r, l)
	randomCases(r, caseOpts{props: "C23", cases: r.scale(40, 500), steps: 120, special: true, msize: []uint32{65536, 8192, 600, 200, 8215, 8216, 24, 11},
		w: weights{"attach": 3, "walk": 14, "open": 24, "read": 14, "readdir": 10, "write": 4, "clunk": 8, "create": 14, "mkdir": 4, "version": 8, "clone": 2}})
	r.need("iounits judged", 1000)
	r.need("iounits read and written in one message", 100)
	r.need("sizes negotiated", 120)
	r.need("reads of more than the size", 500)
}

func c23fill(r *R, e *env) {
	mkfile(r, e.root+"/big", pattern(4<<20+77), 0777)
	mkfile(r, e.root+"/there", pattern(100), 0666)
	r.must(os.Mkdir(e.root+"/d", 0777))
	for i := 0; i < 40; i++ {
		mkfile(r, fmt.Sprintf("%s/d/%0*d", e.root, 1+i*6, i), nil, 0644)
	}
}

// renegotiate reports whether the size was agreed to.
func (e *env) renegotiate(ms uint32) bool {
	m := e.call(Tversion, ms, "9P2000")
	if m.isErr() {
		if ms >= 256 {
			e.bad("C23", "%s", e.last)
		}
		return false // too small to be of use
	}
	if m.F[1].(string) != "9P2000" || m.F[0].(uint32) > ms {
		e.bad("C23", "%s", e.last)
	}
	e.x.msize = m.F[0].(uint32)
	e.fids = map[uint32]*mfid{}
	e.r.count("sizes negotiated", 1)
	return true
}

// use judges everything that depends on the size.
func (e *env) use(tag string) {
	r, g := e.r, e.g
	n := 0
	one := func(m Msg, fid uint32, mode uint8) {
		f := e.fids[fid]
		if m.isErr() || f == nil || !f.open && !f.unsure {
			return
		}
		mr := e.maxRead()
		if f.open && f.kind == 'd' {
			for _, c := range []int64{0, 1, mr - 1, mr, mr + 1, 2*mr + 1, 65536, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
				if c >= 0 && c < 1<<32 {
					e.read(fid, 0, uint32(c))
					if c > mr {
						r.count("reads of more than the size", 1)
					}
				}
			}
			return
		}
		if !f.open {
			return
		}
		u := m.F[1].(uint32)
		if u > 0 && u < 8<<20 {
			if f.writable() {
				for _, off := range []uint64{0, uint64(g.Intn(1000))} {
					w := e.write(fid, off, gBytes(g, int(u)))
					if w.isErr() || w.F[0].(uint32) != u {
						e.bad("C23", "%s: a write of as many bytes as the iounit says", e.last)
					}
				}
			}
			if f.readable() {
				h, err := lstat(e.host(f.path))
				r.must(err)
				for _, off := range []uint64{0, uint64(g.Intn(50))} {
					if h.size-int64(off) < int64(u) {
						continue
					}
					d := e.read(fid, off, u)
					if d.isErr() || len(d.F[0].([]byte)) != int(u) {
						e.bad("C23", "%s: a read of as many bytes as the iounit says, the file has %d", e.last, h.size)
					}
				}
			}
			r.count("iounits read and written in one message", 1)
		}
		if f.readable() {
			for _, c := range []int64{0, 1, mr - 1, mr, mr + 1, mr + 12, mr + 13, 2*mr + 1, 65536, 4 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
				if c >= 0 && c < 1<<32 {
					e.read(fid, uint64(g.Intn(20)), uint32(c))
					if c > mr {
						r.count("reads of more than the size", 1)
					}
				}
			}
		}
		n++
		r.eval(fmt.Sprint(tag, e.x.msize, f.path, mode))
	}
	for _, mode := range []uint8{OREAD, ORDWR, OWRITE, OEXEC} {
		one(e.reopen(1, "big", mode), 1, mode)
	}
	one(e.reopen(2, "d", OREAD), 2, OREAD)
	for k, name := range []string{fmt.Sprintf("n%d", e.nops), "there", fmt.Sprintf("m%d", e.nops)} {
		fid := uint32(10 + k)
		e.walk(0, fid)
		perm, mode := uint32(0666), []uint8{ORDWR, OWRITE, OREAD}[g.Intn(3)]
		if k == 2 {
			perm, mode = DMDIR|0777, OREAD
		}
		one(e.create(fid, name, perm, mode), fid, mode)
		e.clunk(fid)
		if k != 1 {
			os.Remove(e.root + "/" + name)
		}
	}
	e.clunk(1)
	e.clunk(2)
}

func c23session(r *R, l *p.Listener, debug bool) {
	e := newEnv(r, r.sub("sizes", map[bool]int{true: 1}[debug]), fmt.Sprint("sizes", debug), "C23")
	e.umaskTo(0)
	c23fill(r, e)
	e.deep = false
	e.connect(l, "sizes", debug, 8192, 0)
	e.begin()
	inCase(func() {
		sizes := append([]uint32{}, c23sizes...)
		for _, n := range dict.Ints {
			if n > 0 && n < 1<<22 {
				sizes = append(sizes, uint32(n))
			}
		}
		e.g.Shuffle(len(sizes), func(i, j int) { sizes[i], sizes[j] = sizes[j], sizes[i] })
		last := uint32(8192)
		for i, ms := range sizes {
			if debug && !r.thorough && i%3 > 0 {
				continue
			}
			if !e.renegotiate(ms) {
				e.renegotiate(last)
				continue
			}
			last = ms
			e.attach(0, NOFID, "me", "")
			if i%4 == 1 {
				e.badVersion([]uint32{24, 100, 8192, 1 << 20, 1<<32 - 1}[e.g.Intn(5)], "9P2000.x")
				if e.fids[0] == nil {
					e.attach(0, NOFID, "me", "")
				}
			}
			e.use("session")
		}
	})
	e.done()
}

// c23pair: two connections to the same files with sizes of their own, used by turns.
func c23pair(r *R, l *p.Listener) {
	for i := 0; i < r.scale(6, 60); i++ {
		var es []*env
		for k := 0; k < 2; k++ {
			g := r.sub("pair", 2*i+k)
			e := newEnv(r, g, fmt.Sprintf("pair%d", k), "C23")
			e.umaskTo(0)
			c23fill(r, e)
			e.deep = false
			e.connect(l, fmt.Sprint("pair", k), false, c23sizes[10+g.Intn(len(c23sizes)-10)], g.Intn(2))
			e.begin()
			e.attach(0, NOFID, "me", "")
			es = append(es, e)
		}
		inCase(func() {
			for n := 0; n < 4; n++ {
				for k, e := range es {
					if n == 2 && k == i%2 {
						if e.renegotiate(c23sizes[10+e.g.Intn(len(c23sizes)-10)]) {
							e.attach(0, NOFID, "me", "")
						}
					}
					e.use(fmt.Sprint("pair", i, n))
				}
			}
		})
		for _, e := range es {
			e.done()
		}
	}
}
