package main

// Random histories on the file server.

import (
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	p "github.com/Harvey-OS/ninep/protocol"
)

var fidPool = []uint32{0, 1, 2, 3, 255, 256, 257, 65535, 65536, 65537, 0x10001, 0x1000000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe}

func mkfile(r *R, name string, content []byte, mode os.FileMode) {
	r.must(os.WriteFile(name, content, 0600))
	r.must(os.Chmod(name, mode))
}

// buildTree fills the exported directory and its surroundings.
func (e *env) buildTree(special bool) {
	r, g := e.r, e.g
	mk := func(rel string, n int, mode os.FileMode) { mkfile(r, e.outer+rel, gBytes(g, n), mode) }
	md := func(rel string, mode os.FileMode) {
		r.must(os.Mkdir(e.outer+rel, 0755))
		r.must(os.Chmod(e.outer+rel, mode))
	}
	// Things a client must not get at.
	mk("/secret", 30, 0644)
	mk("/x/secret", 31, 0666)
	mk("/x/rootfile", 20, 0666)
	md("/x/root2", 0777)
	mk("/x/root2/inner", 10, 0666)
	md("/sib", 0777)
	// The tree.
	in := e.inner
	mk(in+"/a", 100, 0644)
	mk(in+"/b", 0, 0666)
	mk(in+"/big", 40000, 0644)
	mk(in+"/ro", 50, 0444)
	mk(in+"/wo", 50, 0222)
	mk(in+"/none", 50, 0)
	mk(in+"/exe", 50, 0755)
	md(in+"/d", 0755)
	md(in+"/empty", 0777)
	md(in+"/d/e", 0755)
	mk(in+"/d/f", 10, 0644)
	mk(in+"/d/e/g", 11, 0600)
	md(in+"/d/e/h", 0700)
	mk(in+"/d/e/h/i", 12, 0664)
	if special {
		mk(in+"/ sp ace", 5, 0644)
		mk(in+"/\xff\xfe\x01", 5, 0644)
		mk(in+"/"+strings.Repeat("n", 255), 5, 0644)
		mk(in+"/..x", 5, 0644)
		mk(in+"/%s%d", 5, 0644)
		md(in+"/...", 0755)
		md(in+"/rodir", 0755)
		mk(in+"/rodir/f", 5, 0644)
		r.must(os.Chmod(e.root+"/rodir", 0555))
		md(in+"/nodir", 0755)
		mk(in+"/nodir/f", 5, 0644)
		r.must(os.Chmod(e.root+"/nodir", 0))
		r.must(os.Symlink("a", e.root+"/lnk"))
		r.must(os.Symlink("nowhere", e.root+"/dangling"))
		r.must(os.Link(e.root+"/a", e.root+"/hard"))
		r.must(os.Chtimes(e.root+"/exe", time.Unix(1000, 5), time.Unix(1<<31+7, 999999999)))
		r.must(os.Chtimes(e.root+"/b", time.Unix(0, 0), time.Unix(0, 0)))
	}
}

func (e *env) paths(kind byte) []string {
	var l []string
	for k, v := range e.cur {
		if strings.HasPrefix(k, e.inner) && (kind == 0 || v.kind == kind) {
			l = append(l, strings.TrimPrefix(k, e.inner))
		}
	}
	sort.Strings(l)
	return l
}

// pick chooses a fid: one for which ok holds if there is one.
func (e *env) pick(ok func(*mfid) bool) uint32 {
	g := e.g
	if g.Intn(12) == 0 {
		return fidPool[g.Intn(len(fidPool))]
	}
	var l []uint32
	for n, f := range e.fids {
		if ok == nil || ok(f) {
			l = append(l, n)
		}
	}
	if len(l) == 0 {
		for n := range e.fids {
			l = append(l, n)
		}
	}
	if len(l) == 0 {
		return fidPool[g.Intn(len(fidPool))]
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l[g.Intn(len(l))]
}

func (e *env) free() uint32 {
	var l []uint32
	for _, n := range fidPool {
		if e.fids[n] == nil {
			l = append(l, n)
		}
	}
	if len(l) == 0 {
		return fidPool[e.g.Intn(len(fidPool))]
	}
	return l[e.g.Intn(len(l))]
}

func split(rel string) []string {
	rel = strings.Trim(rel, "/")
	if rel == "" {
		return []string{}
	}
	return strings.Split(rel, "/")
}

// route makes names leading from one directory to a path, perhaps with detours.
func (e *env) route(from, to string) []string {
	g := e.g
	a, b := split(from), split(to)
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	var l []string
	for k := len(a); k > i; k-- {
		l = append(l, "..")
	}
	l = append(l, b[i:]...)
	if g.Intn(6) == 0 { // through the top
		l = []string{}
		for k := g.Intn(3) + len(a); k > 0; k-- {
			l = append(l, "..")
		}
		l = append(l, b...)
	}
	if g.Intn(8) == 0 && len(l) > 0 {
		k := g.Intn(len(l) + 1)
		miss := []string{"missing", "A", "aa", "d ", "\xff", strings.Repeat("q", 256)}[g.Intn(6)]
		l = append(l[:k:k], append([]string{miss}, l[k:]...)...)
	}
	return l
}

func (e *env) freshName() string {
	g := e.g
	switch g.Intn(13) {
	case 5:
		if s := dStr(g); !strings.ContainsAny(s, "/\x00") && len(s) < 256 {
			return s
		}
	case 0:
		return strings.Repeat("L", 200+g.Intn(57))
	case 1:
		return "b\xff\x80" + fmt.Sprint(g.Intn(1000))
	case 2:
		return ".hid" + fmt.Sprint(g.Intn(1000))
	case 3:
		return []string{".", "..", "", "..x" + fmt.Sprint(g.Intn(100)), "a b", "%v", "-rf", "*", "~"}[g.Intn(9)]
	case 4: // taken, perhaps
		l := e.paths(0)
		return path.Base(l[g.Intn(len(l))])
	}
	return fmt.Sprintf("n%d", g.Intn(100000))
}

type weights map[string]int

var evenWeights = weights{"attach": 4, "walk": 16, "clone": 6, "open": 12, "read": 10, "write": 10, "create": 10, "mkdir": 4, "clunk": 8, "remove": 6,
	"stat": 6, "wstat": 8, "list": 5, "readdir": 4, "flush": 1, "version": 0}

func (w weights) with(k string, n int) weights {
	c := weights{}
	for a, b := range w {
		c[a] = b
	}
	c[k] = n
	return c
}

func (w weights) choose(g *rand.Rand) string {
	var ks []string
	t := 0
	for k, n := range w {
		ks = append(ks, k)
		t += n
	}
	sort.Strings(ks)
	x := g.Intn(t)
	for _, k := range ks {
		if x < w[k] {
			return k
		}
		x -= w[k]
	}
	return ks[0]
}

func (e *env) gMode() uint8 {
	if e.g.Intn(8) == 0 {
		return uint8(e.g.Intn(0x40)) // remove on close is for the server to have or not
	}
	m := []uint8{OREAD, OREAD, OWRITE, ORDWR, ORDWR, OEXEC, OREAD | OTRUNC, OWRITE | OTRUNC, ORDWR | OTRUNC, OREAD | 0x20}[e.g.Intn(10)]
	return m
}

func (e *env) step(w weights) string {
	g := e.g
	if e.r.thorough && !e.shared && g.Intn(50) == 0 {
		e.umaskTo([]uint32{0, 022, 077, 027}[g.Intn(4)])
	}
	if len(e.fids) == 0 || g.Intn(40) == 0 && len(e.fids) < 3 {
		e.attach(e.free(), NOFID, "me", "")
		return "attach"
	}
	op := w.choose(g)
	switch op {
	case "attach":
		l := e.paths(0)
		a := l[g.Intn(len(l))]
		switch g.Intn(6) {
		case 0:
			a = "/"
		case 1:
			a = a + "/nothere"
		case 2:
			a = "/../.." + a
		case 3:
			a = strings.TrimPrefix(a, "/")
		}
		f := e.free()
		if g.Intn(5) == 0 {
			f = e.pick(nil)
		}
		af := uint32(NOFID)
		if g.Intn(20) == 0 {
			af = fidPool[g.Intn(len(fidPool))]
		}
		e.attach(f, af, "me", a)
	case "walk":
		f := e.pick(func(f *mfid) bool { return f.kind == 'd' && !f.stale })
		n := e.free()
		if k := g.Intn(10); k == 0 {
			n = e.pick(nil)
		} else if k < 3 {
			n = f
		}
		l := e.paths(0)
		to := l[g.Intn(len(l))]
		from := ""
		if e.fids[f] != nil {
			from = e.fids[f].path
		}
		e.walk(f, n, e.route(from, to)...)
	case "clone":
		f := e.pick(nil)
		n := e.free()
		if g.Intn(5) == 0 {
			n = e.pick(nil)
		}
		e.walk(f, n)
	case "open":
		f := e.pick(func(f *mfid) bool { return !f.open && !f.stale })
		m := e.gMode()
		if x := e.fids[f]; x != nil && x.kind == 'd' && g.Intn(4) > 0 {
			m = OREAD
		}
		e.open(f, m)
	case "read":
		f := e.pick(func(f *mfid) bool { return f.open && f.kind == 'f' })
		size := int64(100)
		if x := e.fids[f]; x != nil && !x.stale {
			if h, err := lstat(e.host(x.path)); err == nil {
				size = h.size
			}
		}
		off := uint64(g.Int63n(size + 2))
		switch g.Intn(8) {
		case 0:
			off = uint64(size)
		case 1:
			off = g64(g)
		case 2, 3:
			off = 0
		}
		c := uint32(g.Intn(200))
		switch g.Intn(8) {
		case 0:
			c = g32(g)
		case 1:
			c = uint32(max(0, e.maxRead()+int64(g.Intn(3))-1))
		case 2:
			c = uint32(size)
		case 3:
			c = 0
		case 4:
			c = 65536
		}
		e.read(f, off, c)
	case "write":
		f := e.pick(func(f *mfid) bool { return f.open && f.kind == 'f' && f.writable() })
		off := uint64(g.Intn(300))
		switch g.Intn(10) {
		case 0:
			off = 0
		case 1:
			off = uint64(g.Intn(60000))
		case 2:
			if !e.deep {
				off = uint64(g.Int63n(1 << 41))
			}
		case 3:
			off = 1<<63 + g.Uint64()>>2
		case 4:
			off = 1<<64 - 1 - uint64(g.Intn(4))
		}
		n := g.Intn(100)
		switch g.Intn(8) {
		case 0:
			n = 0
		case 1:
			n = g.Intn(20000)
		}
		e.write(f, off, gBytes(g, n))
	case "create", "mkdir":
		f := e.pick(func(f *mfid) bool { return f.kind == 'd' && !f.open && !f.stale && !f.unsure })
		perm := uint32([]int{0644, 0666, 0777, 0600, 0444, 0222, 0, 0755, 0123, 0111}[g.Intn(10)])
		if g.Intn(4) == 0 {
			perm = uint32(g.Intn(512))
		}
		if g.Intn(8) == 0 { // append-only and the like are for the server to have or not
			perm |= 1 << (9 + g.Intn(22))
		}
		m := e.gMode()
		if op == "mkdir" {
			perm |= DMDIR
			m = OREAD
			if g.Intn(5) > 0 {
				perm |= 0700
			}
		}
		if len(e.cur) > 70 && g.Intn(4) > 0 {
			f = e.pick(nil)
			e.clunk(f)
			break
		}
		e.create(f, e.freshName(), perm, m)
	case "clunk":
		e.clunk(e.pick(nil))
	case "remove":
		f := e.pick(func(f *mfid) bool { return f.path != "" })
		e.remove(f)
	case "stat":
		e.stat(e.pick(nil))
	case "wstat":
		f := e.pick(func(f *mfid) bool { return !f.stale && f.kind != 'l' })
		e.wstat(f, e.gWstat(e.fids[f]))
	case "list":
		f := e.pick(func(f *mfid) bool { return f.open && f.kind == 'd' && f.readable() })
		if x := e.fids[f]; x != nil && x.open && x.kind == 'd' {
			e.list(f, func() uint32 { return []uint32{0, 10, 60, 100, 300, 600, 600, 2000, 8192, 65536}[g.Intn(10)] })
		} else {
			e.read(f, 0, 100)
		}
	case "readdir":
		f := e.pick(func(f *mfid) bool { return f.open && f.kind == 'd' && f.readable() })
		if x := e.fids[f]; x != nil && x.open && x.kind == 'd' {
			o := x.off
			if !x.listing || g.Intn(4) == 0 {
				o = 0
			}
			e.readDir(f, o, []uint32{0, 49, 100, 600, 8192}[g.Intn(5)])
		} else {
			e.read(f, 0, 100)
		}
	case "flush":
		e.flush(g16(g))
	case "version":
		ms := []uint32{8192, 4096, 600, 65536, 1 << 20}[g.Intn(5)]
		if g.Intn(2) == 0 {
			e.badVersion(ms, []string{"", "9P2000.L", "9P2000.u", "unknown", "9P", "9p2000", "8P2000", "9P2000 "}[g.Intn(8)])
			break
		}
		e.version(ms)
	}
	return op
}

// gWstat makes a wstat for the file of f.
func (e *env) gWstat(f *mfid) Dir {
	g := e.g
	d := noTouch
	if f == nil {
		d.Mode = 0600
		return d
	}
	do := func(k int) bool { return g.Intn(k) == 0 }
	n := 0
	for n == 0 && !do(15) {
		if do(3) {
			d.Mode = uint32(g.Intn(512)) | 0600
			if f.kind == 'd' {
				d.Mode |= DMDIR | 0700
			} else if do(3) {
				d.Mode &^= 0600
			}
			n++
		}
		if do(3) && f.kind == 'f' {
			d.Length = uint64(g.Intn(500))
			switch g.Intn(6) {
			case 0:
				d.Length = 0
			case 1:
				d.Length = uint64(g.Intn(50000))
			case 2:
				d.Length = 1<<63 + uint64(g.Intn(100))
			}
			n++
		}
		if do(3) {
			d.Mtime = []uint32{0, 1, 1 << 30, 1<<31 - 1, 1 << 31, 0xfffffffe, uint32(g.Int31())}[g.Intn(7)]
			n++
		}
		if do(4) {
			d.Atime = []uint32{0, 1, 1 << 30, 1<<31 - 1, 1 << 31, 0xfffffffe, uint32(g.Int31())}[g.Intn(7)]
			n++
		}
		if do(3) && f.path != "" {
			switch g.Intn(8) {
			case 0: // somewhere else
				l := e.paths('d')
				d.Name = l[g.Intn(len(l))] + "/" + fmt.Sprintf("m%d", g.Intn(10000))
			case 1:
				d.Name = e.freshName()
			case 2:
				d.Name = path.Base(f.path)
			case 3:
				l := e.paths('d')
				d.Name = l[g.Intn(len(l))]
				if d.Name == "" {
					d.Name = "/"
				}
			default:
				d.Name = fmt.Sprintf("r%d", g.Intn(10000))
			}
			n++
		}
	}
	switch g.Intn(14) {
	case 0:
		d.User = "somebody"
	case 1:
		d.Group = "some"
	case 2:
		d.User = ufsUser
	}
	return d
}

func (e *env) umaskTo(m uint32) { setUmask(int(m)); e.umask = m }

type caseOpts struct {
	props   string
	cases   int
	steps   int
	w       weights
	special bool
	probes  int // every so many steps
	fds     bool
	shallow bool
	debug   bool
	msize   []uint32
	umask   uint32
}

// randomCases runs random histories.
func randomCases(r *R, o caseOpts) { randomCasesFrom(r, o, 0) }

func randomCasesFrom(r *R, o caseOpts, first int) {
	l := newUFS(r, false)
	for i := first; i < first+o.cases; i++ {
		g := r.sub("case", i)
		e := newEnv(r, g, fmt.Sprintf("case%d", i), o.props)
		e.umaskTo(0)
		e.buildTree(o.special)
		e.umaskTo(o.umask)
		e.fds = o.fds
		e.deep = !o.shallow
		ms := uint32(65536)
		if len(o.msize) > 0 {
			ms = o.msize[(i-first)%len(o.msize)]
		}
		e.connect(l, fmt.Sprintf("c%d", i), o.debug, ms, g.Intn(3))
		e.begin()
		r.tracef("--- case %d", i)
		inCase(func() {
			key := ""
			for s := 0; s < o.steps; s++ {
				op := e.step(o.w)
				key += op[:2] + e.last[:min(len(e.last), 40)]
				if i < 1 && s < 8 {
					r.sample("%s", e.last)
				}
				if o.probes > 0 && s%o.probes == o.probes-1 {
					e.probeAll(fidPool)
				}
				if s%10 == 9 {
					r.eval(key)
					key = fmt.Sprint(i, s)
				}
			}
			r.count("requests", e.nops)
		})
		setUmask(0)
		e.done()
		r.count("histories", 1)
	}
}

// connect makes the connection of e.
func (e *env) connect(l *p.Listener, name string, debug bool, msize uint32, seg int) {
	a, b := newPipe(name)
	switch seg {
	case 1:
		b.seg = segRand(rand.New(rand.NewSource(e.g.Int63())))
		a.seg = segRand(rand.New(rand.NewSource(e.g.Int63())))
	}
	e.x = ufsConn(e.r, l, e.root, debug, a, b, name, msize)
}

var _ = filepath.Join
