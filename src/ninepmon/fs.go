package main

// A model of one connection to the ufs file server. Every request goes through
// a method that sends it, judges the reply against the host's file system and
// the model of the fids, and then compares the whole tree with what it has to
// look like afterwards.

import (
	"bytes"
	"flag"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	ufs "github.com/Harvey-OS/ninep/filesystem"
	p "github.com/Harvey-OS/ninep/protocol"
)

const (
	OREAD  = 0
	OWRITE = 1
	ORDWR  = 2
	OEXEC  = 3
	OTRUNC = 0x10

	DMDIR = 0x80000000
)

var ufsUser = "monitor-owner"

// flagMu: the flags of the file server are read when a connection is made.
var flagMu sync.Mutex

// newUFS returns a listener of the file server. Connections to it are made with
// ufsConn only.
func newUFS(r *R, trace bool) *p.Listener {
	flagMu.Lock()
	defer flagMu.Unlock()
	flag.Set("user", ufsUser)
	var l *p.Listener
	var err error
	r.guard("NewUFS", func() {
		l, err = ufs.NewUFS(func(l *p.Listener) error { l.Trace = tracerFor(trace); return nil })
	})
	if err != nil {
		r.fail("NewUFS: %v", err)
	}
	return l
}

// ufsConn connects to the file server with this root and negotiates.
func ufsConn(r *R, l *p.Listener, root string, debug bool, c, sc net.Conn, name string, msize uint32) *raw {
	flagMu.Lock()
	defer flagMu.Unlock()
	setFlags(root, debug)
	if sc != nil {
		r.must(l.Accept(sc))
	}
	x := newRaw(r, c, name)
	if r.id == "C17" { // whatever others have negotiated
		for _, t := range [][]any{{uint32(0), uint32(NOFID), "u", ""}, {uint32(1)}} {
			typ := uint8(Tattach)
			if len(t) == 1 {
				typ = Tstat
			}
			if m, bad := x.rpc(typ, t...); bad != "" || !m.isErr() {
				r.fail("a new connection, on which no version has been negotiated: %v is answered %v %s", Msg{typ, 0, t}, m, bad)
			}
		}
		r.count("new connections found without state", 1)
	}
	m, bad := x.rpc(Tversion, msize, "9P2000")
	if bad != "" {
		r.fail("version negotiation: %s", bad)
	}
	if m.isErr() || m.F[1] != "9P2000" || m.F[0].(uint32) > msize {
		r.fail("Tversion(%d, 9P2000) was answered %v", msize, m)
	}
	x.msize = m.F[0].(uint32)
	return x
}

func setFlags(root string, debug bool) {
	flag.Set("root", root)
	if debug {
		flag.Set("debug", "1")
	} else {
		flag.Set("debug", "0")
	}
}

// ent is what the host says of one file.
type ent struct {
	kind    byte // d, f, l
	ino     uint64
	mode    uint32 // permission bits
	size    int64
	mtime   int64
	atime   int64
	nlink   uint64
	content string // of small regular files, or a digest
	target  string
	freeM   bool // in an expectation: the modification time is not known
	freeA   bool
	freeI   bool
	noread  bool
}

func lstat(name string) (ent, error) {
	var st syscall.Stat_t
	if err := syscall.Lstat(name, &st); err != nil {
		return ent{}, err
	}
	e := ent{ino: st.Ino, mode: st.Mode & 0777, size: st.Size, mtime: st.Mtim.Nano(), atime: st.Atim.Nano(), nlink: uint64(st.Nlink)}
	switch st.Mode & syscall.S_IFMT {
	case syscall.S_IFDIR:
		e.kind = 'd'
	case syscall.S_IFLNK:
		e.kind = 'l'
	case syscall.S_IFREG:
		e.kind = 'f'
	default:
		e.kind = '?'
	}
	return e, nil
}

const noatime = 0x40000

// readAll reads a file without touching its access time. A file we may not
// read is made readable for the moment; the change time is nobody's business.
func readHost(name string, e ent) (string, error) {
	fd, err := syscall.Open(name, syscall.O_RDONLY|noatime|syscall.O_CLOEXEC, 0)
	if err == syscall.EACCES {
		if err := syscall.Chmod(name, e.mode|0400); err != nil {
			return "", err
		}
		fd, err = syscall.Open(name, syscall.O_RDONLY|noatime|syscall.O_CLOEXEC, 0)
		syscall.Chmod(name, e.mode)
	}
	if err != nil {
		return "", err
	}
	defer syscall.Close(fd)
	if e.size > bigFile {
		return digestSparse(fd, e.size)
	}
	b := make([]byte, e.size)
	n := 0
	for n < len(b) {
		k, err := syscall.Pread(fd, b[n:], int64(n))
		if err != nil || k == 0 {
			break
		}
		n += k
	}
	return string(b[:n]), nil
}

// bigFile is the length from which a file is known by its data that is not zero.
const bigFile = 1 << 20

// bigNow is the content of a big file as it is.
func (e *env) bigNow(rel string) string {
	h, err := lstat(e.host(rel))
	if err != nil {
		return ""
	}
	c, _ := readHost(e.host(rel), h)
	return c
}

// digestSparse renders the data of a big sparse file: its parts that are not
// zero.
func digestSparse(fd int, size int64) (string, error) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "sparse %d", size)
	off := int64(0)
	buf := make([]byte, 1<<16)
	for off < size {
		d, err := syscall.Seek(fd, off, 3) // SEEK_DATA
		if err != nil {
			break
		}
		h, err := syscall.Seek(fd, d, 4) // SEEK_HOLE
		if err != nil {
			break
		}
		for o := d; o < h; {
			n, err := syscall.Pread(fd, buf[:min(int64(len(buf)), h-o)], o)
			if err != nil || n == 0 {
				return "", fmt.Errorf("pread %d: %v", o, err)
			}
			b := buf[:n]
			// Only what is not zero, so that allocation does not matter.
			for i := 0; i < n; {
				for i < n && b[i] == 0 {
					i++
				}
				j := i
				for j < n && b[j] != 0 {
					j++
				}
				if j > i {
					fmt.Fprintf(&sb, " %d:%x", o+int64(i), b[i:j])
				}
				i = j
			}
			o += int64(n)
		}
		off = h
	}
	return sb.String(), nil
}

type tree map[string]ent

// snap takes down everything below dir, keyed by path relative to it.
func snap(r *R, dir string) tree {
	t := tree{}
	var walk func(rel string)
	walk = func(rel string) {
		full := filepath.Join(dir, rel)
		e, err := lstat(full)
		if err != nil {
			r.broken("snapshot: %v", err)
		}
		switch e.kind {
		case 'f':
			e.content, err = readHost(full, e)
			if err != nil {
				r.broken("snapshot: %v", err)
			}
		case 'l':
			e.target, _ = os.Readlink(full)
		case 'd':
			names, err := readNames(full)
			if err != nil && e.mode&0500 != 0500 {
				syscall.Chmod(full, 0700)
				names, err = readNames(full)
				defer syscall.Chmod(full, e.mode)
			} else if e.mode&0500 != 0500 || e.mode&0200 == 0 {
				syscall.Chmod(full, 0700)
				defer syscall.Chmod(full, e.mode)
			}
			if err != nil {
				r.broken("snapshot: %v", err)
			}
			for _, n := range names {
				walk(rel + "/" + n)
			}
		}
		t[rel] = e
	}
	walk("")
	return t
}

func readNames(dir string) ([]string, error) {
	f, err := os.Open(dir)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	n, err := f.Readdirnames(-1)
	sort.Strings(n)
	return n, err
}

func (t tree) copy() tree {
	c := make(tree, len(t))
	for k, v := range t {
		c[k] = v
	}
	return c
}

// diffTree says how got differs from want, in which times may be left open.
func diffTree(before, want, got tree) string {
	var d []string
	changedDirs := map[string]bool{}
	note := func(k string) { changedDirs[path.Dir("/"+k)] = true }
	for k, g := range got {
		if b, ok := before[k]; !ok || b.ino != g.ino {
			note(k)
		}
	}
	for k := range before {
		if _, ok := got[k]; !ok {
			note(k)
		}
	}
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			d = append(d, fmt.Sprintf("%q is gone", k))
			continue
		}
		switch {
		case g.kind != w.kind:
			d = append(d, fmt.Sprintf("%q is a %c, not a %c", k, g.kind, w.kind))
		case g.ino != w.ino && !w.freeI:
			d = append(d, fmt.Sprintf("%q is another file", k))
		case g.mode != w.mode:
			d = append(d, fmt.Sprintf("%q has mode %o, not %o", k, g.mode, w.mode))
		case g.kind == 'f' && g.size != w.size:
			d = append(d, fmt.Sprintf("%q has length %d, not %d", k, g.size, w.size))
		case g.kind == 'f' && g.content != w.content:
			d = append(d, fmt.Sprintf("%q differs from byte %d on", k, firstDiff([]byte(g.content), []byte(w.content))))
		case g.target != w.target:
			d = append(d, fmt.Sprintf("%q points to %q, not %q", k, g.target, w.target))
		case g.mtime != w.mtime && !w.freeM && !(g.kind == 'd' && changedDirs[path.Clean("/"+k)]):
			d = append(d, fmt.Sprintf("%q has modification time %d, not %d", k, g.mtime, w.mtime))
		case w.freeA == false && w.atime != 0 && g.kind == 'f' && g.atime != w.atime:
			d = append(d, fmt.Sprintf("%q has access time %d, not %d", k, g.atime, w.atime))
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			d = append(d, fmt.Sprintf("%q (a %c) has appeared", k, g.kind))
		}
	}
	sort.Strings(d)
	if len(d) > 6 {
		d = append(d[:6], "...")
	}
	return strings.Join(d, "; ")
}

type mfid struct {
	path   string // relative to the root, "" being the root
	ino    uint64
	kind   byte
	open   bool
	mode   uint8
	unsure bool // whether it is open is not specified
	stale  bool // its name has been taken away under it

	listing bool // a directory read from offset 0 on
	off     uint64
	seen    map[string]bool
	set     map[string]ent // as they were when it was started
	dirty   bool
}

type qrec struct {
	path  uint64
	mtime int64
	ver   uint32
	has   bool
}

type env struct {
	r      *R
	g      *rand.Rand
	outer  string // scratch directory with things outside the root
	root   string // the exported directory, below outer
	inner  string // root relative to outer
	x      *raw
	fids   map[uint32]*mfid
	cur    tree
	deep   bool // compare the whole tree after every request
	atime  bool // access times too
	props  map[string]bool
	nops   int
	last   string
	qids   map[uint64]*qrec
	qrev   map[uint64]uint64
	umask  uint32
	fds    bool // compare open descriptors after every request
	base   map[string]int
	shared bool   // other connections are busy in this process: leave process-wide state alone
	peers  []*env // other connections whose open files count as well
	tfid   uint32

	lastWrite []byte
}

type abortCase struct{}

// bad is a discrepancy that breaks one of the properties in props.
func (e *env) bad(props, format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if e.props == nil || anyOf(e.props, props) {
		e.r.fail("%s", s)
	}
	e.r.count("cases given up for a breach of another property", 1)
	e.r.tracef("other property (%s): %s", props, s)
	panic(abortCase{})
}

func anyOf(have map[string]bool, props string) bool {
	for _, x := range strings.Split(props, " ") {
		if have[x] {
			return true
		}
	}
	return false
}

func propSet(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Split(s, " ") {
		m[x] = true
	}
	return m
}

// inCase runs f; a discrepancy that is somebody else's ends it early.
func inCase(f func()) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(abortCase); !is {
				panic(x)
			}
			ok = false
		}
	}()
	f()
	return true
}

// related: a discrepancy seen in the workload of one property may come to light
// under another one's heading. That a renamed file's fid denotes another file,
// for example, is seen when it is stated.
var related = map[string]string{
	"C10": "C10 C13 C14 C15 C22",
	"C11": "C11 C10",
	"C12": "C12 C10",
	"C13": "C13 C22",
	"C14": "C14 C10 C11 C13",
	"C15": "C15 C10 C11 C13",
	"C22": "C22 C10 C13",
	"C17": "C09 C10 C11 C12 C13 C14 C15 C22",
	"C19": "C09 C10 C11 C12 C13 C14 C15 C16 C22",
	"C21": "C09 C10 C11 C12 C13 C14 C15 C22",
}

func newEnv(r *R, g *rand.Rand, name string, props string) *env {
	outer := filepath.Join(r.dir, name)
	r.must(os.MkdirAll(filepath.Join(outer, "x", "root"), 0755))
	e := &env{r: r, g: g, outer: outer, inner: "/x/root", root: filepath.Join(outer, "x", "root"), fids: map[uint32]*mfid{}, deep: true,
		qids: map[uint64]*qrec{}, qrev: map[uint64]uint64{}}
	if props != "" && os.Getenv("NINEPMON_ALL") == "" {
		if x, ok := related[props]; ok {
			props = x
		}
		e.props = propSet(props)
	}
	return e
}

// begin takes the first snapshot.
func (e *env) begin() { e.cur = snap(e.r, e.outer) }

func (e *env) done() {
	if e.x != nil {
		e.x.hangup()
	}
	filepath.Walk(e.outer, func(p string, fi os.FileInfo, err error) error {
		if fi != nil && fi.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	os.RemoveAll(e.outer)
}

func (e *env) host(rel string) string { return e.root + rel }

// call makes a request.
func (e *env) call(typ uint8, f ...any) Msg {
	e.nops++
	if virtual && e.nops%5 == 4 {
		d := pauses[e.nops/5%len(pauses)]
		time.Sleep(d)
		e.r.tracef("%v pass", d)
		e.r.count("pauses", 1)
	}
	m, bad := e.x.rpc(typ, f...)
	if bad != "" {
		e.r.fail("%s", bad)
	}
	e.last = Msg{typ, 0, f}.String() + " -> " + m.String()
	if m.Type == Rerror && m.etext() == "" {
		// allowed, but worth seeing
		e.r.count("errors without text", 1)
	}
	e.r.count(tname(m.Type), 1)
	return m
}

// settle compares the tree with want, which may be nil for no change.
func (e *env) settle(props string, want tree) {
	if e.fds {
		e.judgeFDs()
	}
	if !e.deep {
		return
	}
	got := snap(e.r, e.outer)
	before := e.cur
	if want == nil {
		want = before
	}
	if !e.atime {
		want = want.copy()
		for k, w := range want {
			w.freeA = true
			want[k] = w
		}
	}
	if d := diffTree(before, want, got); d != "" {
		outside := false
		for k := range got {
			if !strings.HasPrefix(k, e.inner) {
				if b, ok := before[k]; !ok || b.content != got[k].content || b.mode != got[k].mode {
					outside = true
				}
			}
		}
		for k := range before {
			if _, ok := got[k]; !ok && !strings.HasPrefix(k, e.inner+"/") {
				outside = true
			}
		}
		if outside {
			props += " C09"
		}
		e.bad(props, "after %s the host's tree is not what it has to be: %s", e.last, d)
	}
	e.cur = got
	// A file number that is gone may come back for another file.
	live := map[uint64]bool{}
	for _, g := range got {
		live[g.ino] = true
	}
	for ino, q := range e.qids {
		if !live[ino] {
			delete(e.qids, ino)
			delete(e.qrev, q.path)
		}
	}
}

// judgeQID judges a file identity against the host's file.
// versioned: it comes from walk, stat or a directory read.
func (e *env) judgeQID(q QID, h ent, where string, versioned bool) {
	if (q.T&0x80 != 0) != (h.kind == 'd') {
		e.bad("C13", "%s: identity %+v of %s says directory: %v", e.last, q, where, q.T&0x80 != 0)
	}
	rec := e.qids[h.ino]
	if rec == nil {
		if ino, ok := e.qrev[q.P]; ok && ino != h.ino {
			e.bad("C13", "%s: %s has the same identity path %d as another file", e.last, where, q.P)
		}
		rec = &qrec{path: q.P}
		e.qids[h.ino] = rec
		e.qrev[q.P] = h.ino
	}
	if rec.path != q.P {
		e.bad("C13", "%s: identity path of %s is %d here, %d elsewhere", e.last, where, q.P, rec.path)
	}
	if versioned {
		if rec.has {
			if rec.mtime == h.mtime && rec.ver != q.V {
				e.bad("C13", "%s: identity version of %s is %d here, %d elsewhere though its modification time is the same", e.last, where, q.V, rec.ver)
			}
			if d := floorMS(rec.mtime) - floorMS(h.mtime); d%(1<<32) != 0 && rec.ver == q.V { // 32 bits of milliseconds
				e.bad("C13", "%s: identity version of %s is still %d though its modification time went from %d to %d", e.last, where, q.V, rec.mtime, h.mtime)
			}
			if rec.mtime != h.mtime {
				e.r.count("versions that had to change", 1)
			}
		}
		rec.has, rec.mtime, rec.ver = true, h.mtime, q.V
	}
	e.r.count("identities judged", 1)
}

func floorMS(ns int64) int64 {
	if ns < 0 {
		return (ns - 999999) / 1000000
	}
	return ns / 1000000
}

// judgeDirEnt judges a directory entry or stat data against the host's file.
func (e *env) judgeDirEnt(d Dir, h ent, name string, isRoot bool) {
	where := fmt.Sprintf("%q", name)
	if !isRoot && d.Name != name {
		e.bad("C13", "%s: name %q, the file is %q", e.last, d.Name, name)
	}
	if d.Length != uint64(h.size) {
		e.bad("C13", "%s: length of %s is %d, the host says %d", e.last, where, d.Length, h.size)
	}
	if d.Mode&0777 != h.mode {
		e.bad("C13", "%s: mode of %s is %o, the host says %o", e.last, where, d.Mode, h.mode)
	}
	if (d.Mode&DMDIR != 0) != (h.kind == 'd') {
		e.bad("C13", "%s: mode of %s is %x, the host says it is a %c", e.last, where, d.Mode, h.kind)
	}
	if d.Mtime != uint32(floorS(h.mtime)) {
		e.bad("C13", "%s: modification time of %s is %d, the host says %d", e.last, where, d.Mtime, floorS(h.mtime))
	}
	if d.User != ufsUser || d.Group != ufsUser {
		e.bad("C13", "%s: owner and group of %s are %q and %q, configured is %q", e.last, where, d.User, d.Group, ufsUser)
	}
	e.judgeQID(d.QID, h, where, true)
	e.r.count("attributes judged", 1)
}

func floorS(ns int64) int64 {
	if ns < 0 {
		return (ns - 999999999) / 1000000000
	}
	return ns / 1000000000
}

// judgeFDs compares the files this process holds open below outer with the
// open fids.
func (e *env) judgeFDs() {
	want, more := 0, 0
	for _, x := range append([]*env{e}, e.peers...) {
		for _, f := range x.fids {
			if f.unsure {
				more++
			} else if f.open {
				want++
			}
		}
	}
	var got []string
	for i := 0; ; i++ {
		got = openFDs(e.outer)
		if len(got) >= want && len(got) <= want+more || i > 2 {
			break
		}
		time.Sleep(time.Millisecond)
	}
	if len(got) < want || len(got) > want+more {
		e.bad("C16", "after %s the server holds %d files open for %d open fids: %v", e.last, len(got), want, got)
	}
	e.r.count("descriptor tables judged", 1)
	if want > 0 {
		e.r.count("descriptor tables judged with open files", 1)
	}
}

// openFDs lists the descriptors of this process for things below dir.
func openFDs(dir string) []string {
	var l []string
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, x := range d {
		t, err := os.Readlink("/proc/self/fd/" + x.Name())
		if err == nil && (t == dir || strings.HasPrefix(t, dir+"/")) {
			l = append(l, t)
		}
	}
	return l
}

// clean joins names to a path relative to the root, "" being the root.
func relJoin(base, name string) string {
	s := path.Join("/", base, name)
	if s == "/" {
		return ""
	}
	return s
}

func (e *env) attach(fid, afid uint32, uname, aname string) Msg {
	_, used := e.fids[fid]
	rel := relJoin("", path.Join("/", aname))
	h, herr := lstat(e.host(rel))
	m := e.call(Tattach, fid, afid, uname, aname)
	switch {
	case used:
		if !m.isErr() {
			e.bad("C10", "%s though the fid is in use", e.last)
		}
	case afid != NOFID:
		if !m.isErr() {
			e.fids[fid] = &mfid{path: rel, ino: h.ino, kind: h.kind}
			e.bad("C10", "%s: attach with an afid that was never set up succeeded", e.last)
		}
	case herr != nil:
		if !m.isErr() {
			e.bad("C10 C09", "%s though the host has no such file: %v", e.last, herr)
		}
	default:
		if h.kind == 'l' {
			if !m.isErr() {
				e.fids[fid] = &mfid{path: rel, kind: 'l', ino: h.ino, stale: true}
			}
			break
		}
		if m.isErr() {
			e.bad("C10 C09", "%s though the fid is free and the file is there", e.last)
		}
		e.fids[fid] = &mfid{path: rel, ino: h.ino, kind: h.kind}
		e.judgeQID(m.F[0].(QID), h, rel, false)
	}
	e.settle("C15 C14 C11", nil)
	return m
}

// odd names have no agreed meaning as one element of a walk.
func odd(n string) bool {
	return n == "" || n == "." || strings.ContainsAny(n, "/\x00")
}

func (e *env) walk(fid, newfid uint32, names ...string) Msg {
	f := e.fids[fid]
	_, newUsed := e.fids[newfid]
	var hs []ent
	var rel string
	weird := false
	if f != nil {
		rel = f.path
		for i, n := range names {
			if odd(n) || (n == ".." && i == 0 && f.kind != 'd') || (n == ".." && i > 0 && hs[i-1].kind != 'd') {
				weird = true
			}
			rel = relJoin(rel, n)
			h, err := lstat(e.host(rel))
			if err != nil {
				break
			}
			hs = append(hs, h)
		}
	}
	if names == nil {
		names = []string{}
	}
	m := e.call(Twalk, fid, newfid, names)
	full := len(hs) == len(names)
	establish := func() {
		if len(names) == 0 {
			e.fids[newfid] = &mfid{path: f.path, ino: f.ino, kind: f.kind, stale: f.stale, unsure: false}
		} else {
			h := hs[len(hs)-1]
			e.fids[newfid] = &mfid{path: rel, ino: h.ino, kind: h.kind}
		}
	}
	switch {
	case f == nil:
		if !m.isErr() {
			e.bad("C10", "%s though the fid is unknown", e.last)
		}
	case f.stale || weird:
		// Whatever it says; the fid is established if all was visited.
		if !m.isErr() && len(m.F[0].([]QID)) == len(names) && (newfid != fid || len(names) > 0) {
			if newUsed && newfid != fid {
				e.bad("C10", "%s though the new fid is in use", e.last)
			}
			if len(names) == 0 || weird && full {
				establish()
				if weird {
					e.fids[newfid].stale = true
				}
			} else {
				e.fids[newfid] = &mfid{stale: true, kind: '?'}
			}
		}
	case len(names) == 0 && newfid == fid:
		// nothing to be done either way
	case newUsed && newfid != fid && full:
		if !m.isErr() {
			e.bad("C10 C22", "%s though the new fid is in use", e.last)
		}
	case newUsed && newfid != fid:
		if !m.isErr() && len(m.F[0].([]QID)) == len(names) && len(names) > 0 {
			e.bad("C10 C22", "%s though the new fid is in use and the names are not all there", e.last)
		}
	case len(hs) == 0 && len(names) > 0:
		if !m.isErr() {
			e.bad("C22", "%s though the first name can't be visited", e.last)
		}
	case f.open && newfid == fid && full:
		if !m.isErr() {
			e.bad("C10 C22", "%s though the fid is open", e.last)
		}
	case f.unsure && newfid == fid:
		if !m.isErr() && full && len(names) > 0 {
			establish()
		}
	case (f.open || f.unsure) && newfid != fid && m.isErr() && len(names) > 0:
		// The manual wants this; this server allows it.
	case len(names) > 16 && m.isErr():
		// More than the manual allows in one message.
	default:
		if m.isErr() {
			e.bad("C22", "%s though %d of %d names can be visited", e.last, len(hs), len(names))
		}
		qs := m.F[0].([]QID)
		if len(qs) != len(hs) {
			e.bad("C22", "%s: %d identities, %d of %d names can be visited", e.last, len(qs), len(hs), len(names))
		}
		for i, q := range qs {
			if rec := e.qids[hs[i].ino]; rec != nil && rec.path != q.P {
				e.bad("C13 C22", "%s: identity %d is %+v, the file at %q has path %d", e.last, i, q, path.Join(append([]string{f.path}, names[:i+1]...)...), rec.path)
			}
			e.judgeQID(q, hs[i], fmt.Sprintf("%q", names[:i+1]), true)
		}
		if full && len(names) > 0 || len(names) == 0 {
			establish()
		}
		if !full {
			e.r.count("partial walks", 1)
		}
	}
	e.r.count("walks judged", 1)
	e.settle("C15 C14 C11", nil)
	return m
}

// hostOpens says whether the host lets us open the file so.
func hostOpens(name string, flags int) error {
	fd, err := syscall.Open(name, flags|syscall.O_CLOEXEC|syscall.O_NONBLOCK, 0)
	if err != nil {
		return err
	}
	syscall.Close(fd)
	return nil
}

func accFlags(mode uint8) int {
	switch mode & 3 {
	case OWRITE:
		return syscall.O_WRONLY
	case ORDWR:
		return syscall.O_RDWR
	}
	return syscall.O_RDONLY
}

func (e *env) open(fid uint32, mode uint8) Msg {
	f := e.fids[fid]
	var h ent
	var herr error
	either := false
	if f != nil && !f.stale {
		h, herr = lstat(e.host(f.path))
		if herr == nil && h.kind != 'l' {
			herr = hostOpens(e.host(f.path), accFlags(mode))
			if herr == nil && mode&OTRUNC != 0 {
				if h.kind == 'd' {
					either = true
				} else {
					herr = hostOpens(e.host(f.path), syscall.O_WRONLY)
				}
			}
			if mode&3 == OEXEC && h.mode&0111 == 0 {
				either = true
			}
		}
	}
	m := e.call(Topen, fid, mode)
	e.judgeIounit(m)
	var want tree
	switch {
	case f == nil:
		if !m.isErr() {
			e.bad("C10", "%s though the fid is unknown", e.last)
		}
	case f.open:
		if !m.isErr() {
			e.bad("C10", "%s though the fid is open", e.last)
		}
	case f.unsure:
		if !m.isErr() {
			f.open, f.unsure, f.mode = true, false, mode
		}
	case f.stale || f.kind == 'l':
		if !m.isErr() {
			f.open, f.mode = true, mode
			f.listing, f.dirty = false, true
		}
		if e.deep && mode&OTRUNC != 0 {
			e.cur = snap(e.r, e.outer) // what it truncated is not ours to say
		}
	case herr != nil && !either:
		if !m.isErr() {
			e.bad("C11 C10", "%s though the host refuses it: %v", e.last, herr)
		}
	default:
		if m.isErr() {
			if either {
				break
			}
			e.bad("C10 C11", "%s though the fid is not open and the host allows it", e.last)
		}
		f.open, f.mode = true, mode
		f.listing, f.seen, f.set, f.dirty, f.off = false, nil, nil, false, 0
		e.judgeQID(m.F[0].(QID), h, f.path, false)
		if mode&OTRUNC != 0 && h.kind == 'f' {
			if n, err := lstat(e.host(f.path)); err != nil || n.size != 0 {
				e.bad("C11", "%s: opened with truncation, the file has %d bytes (%v)", e.last, n.size, err)
			}
			if e.deep {
				want = e.cur.copy()
				for k, w := range want {
					if w.ino == h.ino {
						w.content, w.size, w.freeM = "", 0, true
						want[k] = w
					}
				}
			}
			e.r.count("truncations judged", 1)
		}
		e.r.count("opens judged", 1)
	}
	e.settle("C11", want)
	return m
}

// judgeIounit: what one message is said to have room for it has to have room for.
func (e *env) judgeIounit(m Msg) {
	if m.isErr() {
		return
	}
	if u := m.F[1].(uint32); u != 0 && int64(u) > int64(e.x.msize)-23 { // the size of a Twrite without its data
		e.bad("C23", "%s: an iounit of %d, the message size is %d", e.last, u, e.x.msize)
	}
	e.r.count("iounits judged", 1)
}

func (f *mfid) readable() bool { return f.mode&3 != OWRITE }
func (f *mfid) writable() bool { return f.mode&3 == OWRITE || f.mode&3 == ORDWR }

// maxRead is what a reply of the negotiated size can carry.
func (e *env) maxRead() int64 { return int64(e.x.msize) - 11 }

// read reads from a fid that is not an open directory.
func (e *env) read(fid uint32, off uint64, count uint32) Msg {
	f := e.fids[fid]
	if f != nil && f.kind == 'd' && f.open {
		return e.readDir(fid, off, count)
	}
	var want []byte
	var size int64
	if f != nil && f.open && !f.stale && f.kind == 'f' && off < 1<<63 {
		h, err := lstat(e.host(f.path))
		e.r.must(err)
		size = h.size
		n := min(int64(count), size-int64(off), e.maxRead())
		if n > 0 {
			want = make([]byte, n)
			hf, err := openHost(e.host(f.path), h)
			e.r.must(err)
			_, err = hf.ReadAt(want, int64(off))
			hf.Close()
			e.r.must(err)
		}
	}
	m := e.call(Tread, fid, off, count)
	if !m.isErr() {
		if n := len(m.F[0].([]byte)); uint32(n) > count || int64(n) > e.maxRead() && n > 0 {
			e.bad("C11 C23", "%s: %d bytes, asked for %d, the message size is %d", e.last, n, count, e.x.msize)
		}
	}
	switch {
	case f == nil:
		if !m.isErr() {
			e.bad("C10", "%s though the fid is unknown", e.last)
		}
	case f.unsure:
	case !f.open:
		if !m.isErr() {
			e.bad("C10", "%s though the fid is not open", e.last)
		}
	case f.stale || f.kind != 'f':
	case !f.readable():
		if !m.isErr() && count > 0 {
			e.bad("C11", "%s though the fid is open for writing only", e.last)
		}
	case count >= 1<<31 && m.isErr(), off+uint64(count) >= 1<<62 && m.isErr(), off >= 1<<62 && m.isErr(), e.maxRead() <= 0 && m.isErr():
	case off >= 1<<63:
		if len(m.F[0].([]byte)) > 0 {
			e.bad("C11", "%s: data beyond any end", e.last)
		}
	default:
		if m.isErr() {
			e.bad("C11", "%s though the fid is open for reading (file length %d)", e.last, size)
		}
		got := m.F[0].([]byte)
		if len(got) != len(want) {
			e.bad("C11", "%s: %d bytes, the file (length %d) has %d there (message size %d)", e.last, len(got), size, len(want), e.x.msize)
		}
		if !bytes.Equal(got, want) {
			e.bad("C11", "%s: the data differ from the file's from byte %d on", e.last, firstDiff(got, want))
		}
		e.r.count("reads judged", 1)
		e.r.count("bytes read and compared", len(got))
	}
	e.settle("C11", nil)
	return m
}

// openHost opens a host file for reading whatever its mode is.
func openHost(name string, h ent) (*os.File, error) {
	f, err := os.OpenFile(name, os.O_RDONLY|noatime, 0)
	if os.IsPermission(err) {
		os.Chmod(name, os.FileMode(h.mode|0400))
		f, err = os.OpenFile(name, os.O_RDONLY|noatime, 0)
		os.Chmod(name, os.FileMode(h.mode))
	}
	return f, err
}

func overlay(old string, off int64, data []byte) string {
	n := max(int64(len(old)), off+int64(len(data)))
	if len(data) == 0 {
		n = int64(len(old))
	}
	b := make([]byte, n)
	copy(b, old)
	copy(b[min(off, n):], data)
	return string(b)
}

func (e *env) write(fid uint32, off uint64, data []byte) Msg {
	f := e.fids[fid]
	e.lastWrite = data
	m := e.call(Twrite, fid, off, data)
	var want tree
	switch {
	case f == nil:
		if !m.isErr() {
			e.bad("C10", "%s though the fid is unknown", e.last)
		}
	case f.unsure:
	case !f.open:
		if !m.isErr() {
			e.bad("C10", "%s though the fid is not open", e.last)
		}
	case f.stale || f.kind == 'l':
		if e.deep {
			e.cur = snap(e.r, e.outer)
		}
	case f.kind == 'd':
		if !m.isErr() && len(data) > 0 {
			e.bad("C11", "%s though the file is a directory", e.last)
		}
	case !f.writable():
		if !m.isErr() && len(data) > 0 {
			e.bad("C11", "%s though the fid is open for reading only", e.last)
		}
	default:
		if off >= 1<<44 || off+uint64(len(data)) >= 1<<44 { // beyond what the host's files can be
			if !m.isErr() && len(data) > 0 && off >= 1<<63 {
				e.bad("C11", "%s at an offset no file has", e.last)
			}
			if m.isErr() || len(data) == 0 {
				break
			}
		}
		if m.isErr() {
			if len(data) == 0 {
				break
			}
			e.bad("C11", "%s though the fid is open for writing", e.last)
		}
		n := m.F[0].(uint32)
		if int64(n) > int64(len(data)) {
			e.bad("C11", "%s: %d bytes acknowledged, %d sent", e.last, n, len(data))
		}
		if int(n) != len(data) {
			// The property allows it if what is acknowledged is there.
			e.r.count("short writes", 1)
		}
		ack := data[:n]
		if len(ack) > 0 {
			h, err := lstat(e.host(f.path))
			e.r.must(err)
			hf, err := openHost(e.host(f.path), h)
			e.r.must(err)
			got := make([]byte, len(ack))
			k, err := hf.ReadAt(got, int64(off))
			hf.Close()
			if k < len(ack) || !bytes.Equal(got, ack) {
				e.bad("C11", "%s: acknowledged, but the host's file has %d of these bytes at that offset and they differ from byte %d on (%v)", e.last, k, firstDiff(got, ack), err)
			}
		}
		e.r.count("writes judged", 1)
		e.r.count("bytes written and compared", len(ack))
		if e.deep {
			want = e.cur.copy()
			for k, w := range want {
				if w.ino == f.ino {
					if end := int64(off) + int64(len(ack)); w.size <= bigFile && end <= bigFile {
						w.content = overlay(w.content, int64(off), ack)
						w.size = int64(len(w.content))
					} else if len(ack) > 0 { // what is around the bytes written goes unjudged
						w.size = max(w.size, end)
						w.content = e.bigNow(f.path)
					}
					w.freeM = true
					want[k] = w
				}
			}
		}
	}
	e.settle("C11", want)
	return m
}

func (e *env) clunk(fid uint32) Msg {
	_, ok := e.fids[fid]
	m := e.call(Tclunk, fid)
	if !ok && !m.isErr() {
		e.bad("C10", "%s though the fid is unknown", e.last)
	}
	if ok && m.isErr() {
		e.bad("C10", "%s though the fid is valid", e.last)
	}
	delete(e.fids, fid)
	e.settle("C15 C14 C11", nil)
	return m
}

// spoil marks fids (of this connection and its peers) at or below rel.
func (e *env) spoil(rel string, except *mfid) {
	for _, x := range append([]*env{e}, e.peers...) {
		for _, f := range x.fids {
			if f != except && (f.path == rel || strings.HasPrefix(f.path, rel+"/")) {
				f.stale = true
			}
		}
	}
}

// dirtyDir marks listings under way of the directory rel.
func (e *env) dirtyDir(rel string) {
	for _, x := range append([]*env{e}, e.peers...) {
		for _, f := range x.fids {
			if f.path == rel || f.path == "/" && rel == "" {
				f.dirty = true
			}
		}
	}
}

func parentOf(rel string) string {
	p := path.Dir("/" + rel)
	if p == "/" {
		return ""
	}
	return path.Clean(p)
}

func (e *env) remove(fid uint32) Msg {
	f := e.fids[fid]
	expectOK := false
	var h ent
	if f != nil && !f.stale {
		var err error
		h, err = lstat(e.host(f.path))
		if err == nil && f.path != "" && syscall.Access(e.host(parentOf(f.path)), 3) == nil { // write and search
			expectOK = true
			if h.kind == 'd' {
				n := 0
				for k := range e.hostTree() {
					if strings.HasPrefix(k, e.inner+f.path+"/") {
						n++
					}
				}
				expectOK = n == 0
			}
		}
	}
	if f != nil && f.stale {
		if _, err := lstat(e.host(f.path)); err == nil {
			e.clunk(fid) // it would take away somebody else's file
			return Msg{}
		}
	}
	m := e.call(Tremove, fid)
	var want tree
	switch {
	case f == nil:
		if !m.isErr() {
			e.bad("C10", "%s though the fid is unknown", e.last)
		}
	case f.stale:
		if e.deep && !m.isErr() && !f.unsure {
			had := false
			for _, x := range e.cur {
				had = had || x.ino == f.ino
			}
			if !had {
				e.bad("C15", "%s though the file is gone", e.last)
			}
		}
	case f.path == "":
		if !m.isErr() {
			e.bad("C09 C15", "%s: the root was removed", e.last)
		}
	case !expectOK:
		if !m.isErr() {
			e.bad("C15", "%s though the host does not allow it", e.last)
		}
	default:
		if m.isErr() {
			e.bad("C15", "%s though the host allows it", e.last)
		}
		if e.deep {
			want = e.cur.copy()
			delete(want, e.inner+f.path)
		}
		if _, err := lstat(e.host(f.path)); err == nil {
			e.bad("C15", "%s, the file %q is still there", e.last, f.path)
		}
	}
	if f != nil {
		delete(e.fids, fid)
		if !m.isErr() {
			e.spoil(f.path, nil)
			e.dirtyDir(parentOf(f.path))
		}
		e.r.count("removes judged", 1)
	}
	e.settle("C15", want)
	return m
}

// hostTree is the tree as it is now.
func (e *env) hostTree() tree {
	if e.deep {
		return e.cur
	}
	return snap(e.r, e.outer)
}

// create makes a file in the directory of the fid. name must not contain
// slashes.
func (e *env) create(fid uint32, name string, perm uint32, mode uint8) Msg {
	f := e.fids[fid]
	if f != nil && f.stale {
		return Msg{Type: Rerror, F: []any{"skipped"}}
	}
	isdir := perm&DMDIR != 0
	expect := ""
	var rel string
	var old ent
	exists := false
	if f != nil && f.kind == 'd' {
		rel = relJoin(f.path, name)
		var err error
		old, err = lstat(e.host(f.path) + "/" + name)
		exists = err == nil
		switch {
		case odd(name) || name == "..":
			expect = "err"
		case exists && (isdir || old.kind == 'd'):
			expect = "err"
		case exists && old.kind == 'l':
			expect = "skip"
		case exists:
			if hostOpens(e.host(rel), accFlags(mode)) != nil || hostOpens(e.host(rel), syscall.O_WRONLY) != nil {
				expect = "err"
			} else {
				expect = "trunc"
			}
		case len(name) > 255 || syscall.Access(e.host(f.path), 3) != nil:
			expect = "err"
		default:
			expect = "new"
		}
	}
	if expect == "skip" {
		return Msg{Type: Rerror, F: []any{"skipped"}}
	}
	m := e.call(Tcreate, fid, name, perm, mode)
	e.judgeIounit(m)
	var want tree
	switch {
	case f == nil:
		if !m.isErr() {
			e.bad("C10", "%s though the fid is unknown", e.last)
		}
	case f.open:
		if !m.isErr() {
			e.bad("C10 C15", "%s though the fid is open", e.last)
		}
	case f.unsure && m.isErr():
	case f.kind != 'd':
		if !m.isErr() {
			e.bad("C15", "%s though the fid is not a directory", e.last)
		}
	case expect == "err":
		if !m.isErr() {
			e.bad("C15", "%s though that can't be (there: %v %c)", e.last, exists, old.kind)
		}
	default:
		if m.isErr() {
			e.bad("C15", "%s though the host allows it", e.last)
		}
		h, err := lstat(e.host(rel))
		if err != nil {
			e.bad("C15", "%s, the host has no such file: %v", e.last, err)
		}
		k := byte('f')
		if isdir {
			k = 'd'
		}
		if h.kind != k {
			e.bad("C15", "%s made a %c", e.last, h.kind)
		}
		if expect == "new" && h.mode != perm&0777&^e.umask {
			e.bad("C15", "%s made a file of mode %o, with umask %o", e.last, h.mode, e.umask)
		}
		if k == 'f' && h.size != 0 {
			e.bad("C15", "%s: the file has %d bytes", e.last, h.size)
		}
		e.judgeQID(m.F[0].(QID), h, rel, false)
		if e.deep {
			want = e.cur.copy()
			if expect == "new" {
				want[e.inner+rel] = ent{kind: k, ino: h.ino, mode: perm & 0777 &^ e.umask, freeM: true, freeA: true}
			} else {
				for key, w := range want {
					if w.ino == old.ino {
						w.content, w.size, w.freeM = "", 0, true
						want[key] = w
					}
				}
			}
		}
		if expect == "new" {
			e.dirtyDir(f.path)
		}
		f.path, f.ino, f.kind = rel, h.ino, k
		f.listing, f.seen, f.set, f.dirty, f.off = false, nil, nil, false, 0
		f.open, f.unsure, f.mode = !isdir, isdir, mode
		e.r.count("creates judged", 1)
		e.r.count("creates judged: "+expect, 1)
	}
	e.settle("C15", want)
	return m
}

func (e *env) stat(fid uint32) (Dir, bool) {
	f := e.fids[fid]
	m := e.call(Tstat, fid)
	var d Dir
	switch {
	case f == nil:
		if !m.isErr() {
			e.bad("C10", "%s though the fid is unknown", e.last)
		}
	case f.stale:
		if !m.isErr() {
			if _, err := lstat(e.host(f.path)); err != nil && f.kind != '?' {
				e.bad("C13", "%s though the file is gone", e.last)
			}
		}
	default:
		h, err := lstat(e.host(f.path))
		if err != nil {
			e.r.broken("%s: model lost %q: %v", e.last, f.path, err)
		}
		if m.isErr() {
			e.bad("C13 C10", "%s though the fid is valid and the file is there", e.last)
		}
		b := m.F[0].([]byte)
		var n int
		d, n, err = decodeDir(b, true)
		if err != nil || n != len(b) {
			e.bad("C13", "%s: stat data are not one entry: %v (%d of %d bytes)", e.last, err, n, len(b))
		}
		e.judgeDirEnt(d, h, path.Base(f.path), f.path == "")
		e.settle("C15 C14 C11", nil)
		return d, true
	}
	e.settle("C15 C14 C11", nil)
	return d, false
}

// maxEntry is more than any entry here takes.
const maxEntry = 49 + 255 + 3*64

// readDir reads an open directory.
func (e *env) readDir(fid uint32, off uint64, count uint32) Msg {
	f := e.fids[fid]
	if off == 0 {
		f.listing, f.off, f.seen, f.dirty = true, 0, map[string]bool{}, false
		f.set = map[string]ent{}
		if !f.stale {
			h, _ := lstat(e.host(f.path))
			if h.mode&0500 != 0500 {
				os.Chmod(e.host(f.path), 0700)
			}
			l, err := readNames(e.host(f.path))
			for _, n := range l {
				f.set[n], _ = lstat(e.host(f.path) + "/" + n)
			}
			if h.mode&0500 != 0500 {
				os.Chmod(e.host(f.path), os.FileMode(h.mode))
				f.dirty = true // entries can't be looked at
			}
			e.r.must(err)
		}
	}
	m := e.call(Tread, fid, off, count)
	if f.stale || f.dirty && m.isErr() {
		f.listing = false
		e.settle("C12", nil)
		return m
	}
	if m.isErr() {
		if f.readable() && int64(count) >= maxEntry && int64(count) < 1<<31 && e.maxRead() >= maxEntry && f.listing {
			e.bad("C12", "%s: reading a directory with room for an entry fails", e.last)
		}
		e.settle("C12", nil)
		return m
	}
	b := m.F[0].([]byte)
	if uint32(len(b)) > count || int64(len(b)) > e.maxRead() && len(b) > 0 {
		e.bad("C12 C23", "%s: %d bytes, asked for %d, message size %d", e.last, len(b), count, e.x.msize)
	}
	room := min(int64(count), e.maxRead())
	if len(b) == 0 && room >= maxEntry && f.listing && !f.dirty {
		for n := range f.set {
			if !f.seen[n] {
				e.bad("C12", "%s: the listing of %q ended without %q (%d of %d entries seen)", e.last, f.path, n, len(f.seen), len(f.set))
			}
		}
		e.r.count("complete listings judged", 1)
		f.listing = false
	}
	for rest := b; len(rest) > 0; {
		d, n, err := decodeDir(rest, true)
		if err != nil {
			e.bad("C12", "%s: the reply is not a sequence of whole entries: %v", e.last, err)
		}
		rest = rest[n:]
		if !f.listing {
			continue
		}
		if f.seen[d.Name] && !f.dirty {
			e.bad("C12", "%s: entry %q of %q came twice", e.last, d.Name, f.path)
		}
		f.seen[d.Name] = true
		if f.dirty {
			continue
		}
		was, ok := f.set[d.Name]
		if !ok {
			e.bad("C12", "%s: entry %q is not in %q on the host", e.last, d.Name, f.path)
		}
		h, err := lstat(e.host(f.path) + "/" + d.Name)
		if err != nil {
			e.r.broken("entry %q of %q: %v", d.Name, f.path, err)
		}
		if was.atime = h.atime; was != h {
			// It has changed since the listing was started. A server may
			// have made the entry ahead and kept it.
			if was.ino == h.ino {
				e.judgeQID(d.QID, h, fmt.Sprintf("%q", d.Name), false)
			}
			e.r.count("entries of files that changed during the listing", 1)
			continue
		}
		e.judgeDirEnt(d, h, d.Name, false)
		e.r.count("entries judged", 1)
	}
	f.off += uint64(len(b))
	e.settle("C12", nil)
	return m
}

// list reads a whole directory through an open fid.
func (e *env) list(fid uint32, count func() uint32) {
	f := e.fids[fid]
	off := uint64(0)
	for i := 0; i < 200000; i++ {
		c := count()
		m := e.readDir(fid, off, c)
		if m.isErr() {
			if f.stale || f.dirty {
				return
			}
			if int64(c) >= maxEntry && e.maxRead() >= maxEntry {
				return
			}
			continue
		}
		n := len(m.F[0].([]byte))
		off += uint64(n)
		if n == 0 && min(int64(c), e.maxRead()) >= maxEntry {
			return
		}
		if e.maxRead() < maxEntry && i > 100 {
			return // the messages are too small to tell
		}
	}
	e.bad("C12", "listing %q does not end", f.path)
}

// wstat sends d.
func (e *env) wstat(fid uint32, d Dir) Msg { return e.wstatBytes(fid, d, d.encode()) }

func (e *env) wstatBytes(fid uint32, d Dir, raw []byte) Msg {
	f := e.fids[fid]
	if f != nil && (f.stale || f.kind == 'l') {
		return Msg{Type: Rerror, F: []any{"skipped"}}
	}
	var h ent
	var newrel string
	refuse := "" // it has to be refused and nothing may change
	either := false
	if f != nil {
		var err error
		h, err = lstat(e.host(f.path))
		e.r.must(err)
		if d.User != "" || d.Group != "" {
			refuse = "it asks for another owner"
		}
		newrel = f.path
		if d.Name != "" {
			if strings.HasPrefix(d.Name, "/") {
				newrel = relJoin("", path.Clean("/"+d.Name))
			} else {
				newrel = relJoin(parentOf(f.path), path.Join("/", d.Name))
			}
			nh, err := os.Stat(e.host(newrel))
			switch {
			case err == nil && nh.IsDir():
				if refuse == "" {
					refuse = "the new name is a directory"
				}
			case f.path == "":
				if refuse == "" {
					refuse = "the root can't be renamed"
				}
			case err == nil && newrel != f.path:
				return Msg{Type: Rerror, F: []any{"skipped: would replace a file"}}
			case newrel == f.path:
				// It has that name.
			default:
				if _, e1 := lstat(e.host(newrel)); e1 == nil && newrel != f.path {
					return Msg{Type: Rerror, F: []any{"skipped: would replace a link"}}
				}
				if h.kind == 'd' && parentOf(newrel) != parentOf(f.path) && syscall.Access(e.host(f.path), 2) != nil {
					return Msg{Type: Rerror, F: []any{"skipped: a directory we may not write moves"}}
				}
				if _, e2 := lstat(e.host(parentOf(newrel))); e2 != nil || syscall.Access(e.host(parentOf(newrel)), 3) != nil || syscall.Access(e.host(parentOf(f.path)), 3) != nil ||
					strings.HasPrefix(newrel, f.path+"/") || strings.Contains(d.Name, "\x00") || len(path.Base(newrel)) > 255 {
					if refuse == "" {
						refuse = "the host can't rename it so"
					}
				}
			}
		}
		only := func() bool { // the field in question is the only one
			n := 0
			if d.Name != "" {
				n++
			}
			if d.Mode != noTouch.Mode {
				n++
			}
			if d.Length != noTouch.Length {
				n++
			}
			if d.Mtime != noTouch.Mtime || d.Atime != noTouch.Atime {
				n++
			}
			return n == 1
		}
		if refuse == "" && d.Length != noTouch.Length && d.Mode != noTouch.Mode && d.Mode&0200 == 0 {
			return Msg{Type: Rerror, F: []any{"skipped: the mode may be in the way of the length"}}
		}
		if refuse == "" && d.Length != noTouch.Length {
			if h.kind == 'd' || d.Length >= 1<<40 || hostOpens(e.host(f.path), syscall.O_WRONLY) != nil {
				if !only() {
					return Msg{Type: Rerror, F: []any{"skipped: half of it would fail"}}
				}
				if d.Length == uint64(h.size) || d.Length < 1<<63 && d.Length >= 1<<40 {
					either = true
				}
				refuse = "the length can't be changed"
			}
		}
	}
	before := e.cur
	m := e.call(Twstat, fid, raw)
	var want tree
	switch {
	case f == nil:
		if !m.isErr() {
			e.bad("C10", "%s though the fid is unknown", e.last)
		}
	case refuse != "" && m.isErr():
		e.r.count("wstats refused", 1)
	case refuse != "":
		if !either {
			e.bad("C14 C09", "%s though %s", e.last, refuse)
		}
	case m.isErr():
		e.bad("C14", "%s (%+v on %q, mode %o) though the host allows it", e.last, d, f.path, h.mode)
	default:
		if e.deep {
			want = tree{}
			for k, w := range before {
				if newrel != f.path && (k == e.inner+f.path || strings.HasPrefix(k, e.inner+f.path+"/")) {
					k = e.inner + newrel + strings.TrimPrefix(k, e.inner+f.path)
				}
				if w.ino == h.ino {
					if d.Mode != noTouch.Mode {
						w.mode = d.Mode & 0777
					}
					if d.Length != noTouch.Length {
						if w.kind == 'f' {
							if int64(d.Length) > bigFile || w.size > bigFile {
								w.content = e.bigNow(newrel)
							} else if int64(d.Length) < w.size {
								w.content = w.content[:d.Length]
							} else {
								w.content += string(make([]byte, int64(d.Length)-w.size))
							}
							w.size = int64(d.Length)
						}
						w.freeM = true
					}
					if d.Mtime != noTouch.Mtime {
						w.mtime, w.freeM = int64(d.Mtime)*1e9, false
					}
					if d.Atime != noTouch.Atime {
						w.atime = int64(d.Atime) * 1e9
					} else {
						w.atime = h.atime
					}
				}
				want[k] = w
			}
			// The target of the wstat itself, access time and all.
			e.atime = true
		}
		if newrel != f.path {
			e.spoil(f.path, f)
			e.spoil(newrel, f)
			e.dirtyDir(parentOf(f.path))
			e.dirtyDir(parentOf(newrel))
		}
		f.path = newrel
		e.r.count("wstats judged", 1)
	}
	at := e.atime
	e.settle("C14", want)
	if want != nil && at {
		e.atime = false
	}
	return m
}

// flush asks for an old tag.
func (e *env) flush(tag uint16) Msg {
	m := e.call(Tflush, tag)
	e.settle("C15 C14 C11", nil)
	return m
}

// version starts the session again.
func (e *env) version(msize uint32) Msg {
	m := e.call(Tversion, msize, "9P2000")
	if m.isErr() || m.F[1].(string) != "9P2000" || m.F[0].(uint32) > msize {
		e.bad("C10 C11 C23", "%s", e.last)
	}
	e.x.msize = m.F[0].(uint32)
	e.fids = map[uint32]*mfid{}
	e.settle("C15 C14 C11", nil)
	return m
}

// badVersion asks for a version that is refused, which changes nothing.
func (e *env) badVersion(msize uint32, version string) Msg {
	m := e.call(Tversion, msize, version)
	if !m.isErr() {
		// Answered with a version of the server's choice: that starts the session again.
		e.x.msize = m.F[0].(uint32)
		e.fids = map[uint32]*mfid{}
		e.version(msize)
		return m
	}
	e.r.count("refused versions", 1)
	e.settle("C15 C14 C11", nil)
	return m
}

// probe finds out whether fid is valid and open and compares with the model.
func (e *env) probe(fid uint32) {
	f := e.fids[fid]
	if e.tfid == 0 || e.fids[e.tfid] != nil {
		e.tfid = 0x7e57f1d0
		for e.fids[e.tfid] != nil {
			e.tfid++
		}
	}
	m := e.call(Twalk, fid, e.tfid, []string{})
	if f == nil && !m.isErr() {
		e.bad("C10", "fid %d is valid, nothing established it (%s)", fid, e.last)
	}
	if f != nil && m.isErr() {
		e.bad("C10", "fid %d is not valid any more, nothing ended it (%s)", fid, e.last)
	}
	e.r.count("fid probes", 1)
	if f == nil {
		return
	}
	m = e.call(Tclunk, e.tfid)
	if m.isErr() {
		e.bad("C10", "the duplicate of fid %d could not be clunked (%s)", fid, e.last)
	}
	if f.unsure || f.stale || f.kind == 'l' {
		return
	}
	if f.open && !f.readable() {
		m = e.call(Twrite, fid, uint64(0), []byte{})
	} else if f.kind == 'f' && f.open {
		m = e.call(Tread, fid, uint64(0), uint32(1))
	} else if !f.open {
		m = e.call(Tread, fid, uint64(0), uint32(1))
	} else {
		return
	}
	if f.open && m.isErr() && e.maxRead() > 0 {
		e.bad("C10", "fid %d is not open any more (%s)", fid, e.last)
	}
	if !f.open && !m.isErr() {
		e.bad("C10", "fid %d is open, nothing opened it (%s)", fid, e.last)
	}
}

// probeAll probes every fid of the model and numbers that resemble them.
func (e *env) probeAll(pool []uint32) {
	for _, f := range pool {
		e.probe(f)
	}
	if e.fds {
		e.judgeFDs()
	}
	e.settle("C15 C14 C11", nil)
}

// longPaths: everything once more far down a tree, with paths almost as long as the
// host allows.
func longPaths(r *R, prop string) {
	l := newUFS(r, false)
	for _, n := range []int{7, 60, 200, 255} {
		e := bench(r, l, fmt.Sprint("long", n), prop, 32768, nil)
		var names []string
		rel := ""
		for k := 0; ; k++ {
			nm := strings.Repeat(string(rune('a'+k%26)), n)
			if len(e.host(rel))+1+n > 4060 || k == 40 {
				break
			}
			rel += "/" + nm
			names = append(names, nm)
		}
		r.must(os.MkdirAll(e.host(rel), 0755))
		e.begin()
		inCase(func() {
			e.attach(0, NOFID, "me", "")
			// Each of the directories by name, by walks of all lengths, in steps, by attach.
			fid, at := uint32(1), ""
			e.walk(0, fid)
			for k, nm := range names {
				e.walk(fid, fid, nm)
				at += "/" + nm
				if e.fids[2] != nil {
					e.clunk(2)
				}
				e.attach(2, NOFID, "me", at)
				e.stat(2)
				if k < 16 {
					e.walk(0, 3, names[:k+1]...)
					if e.fids[3] != nil {
						e.stat(3)
						e.clunk(3)
					}
				}
				r.count("long paths", 1)
				r.eval(fmt.Sprint("long", n, k))
			}
			// Files at the end, up to what the host takes as a name and as a path; a
			// server that does not use the whole path could do more.
			room := 4095 - len(e.host(at)) - 1
			for _, k := range []int{1, 10, min(255, room-8)} {
				if k < 1 {
					continue
				}
				nm := strings.Repeat("z", k)
				if e.fids[4] != nil {
					e.clunk(4)
				}
				e.walk(1, 4)
				if m := e.create(4, nm, 0644, ORDWR); !m.isErr() {
					e.write(4, 0, []byte("far down"))
					e.read(4, 0, 100)
					e.stat(4)
					d := noTouch
					d.Mode = 0600
					e.wstat(4, d)
					d = noTouch
					d.Name = "y"
					e.wstat(4, d)
					if e.fids[5] != nil {
						e.clunk(5)
					}
					e.walk(1, 5, "y")
					e.open(5, OREAD)
					e.read(5, 0, 100)
					d.Name = nm
					e.wstat(4, d)
					e.attach(6, NOFID, "me", at+"/"+nm)
					if e.fids[6] != nil {
						e.clunk(6)
					}
					e.remove(4)
				}
				e.probeAll([]uint32{0, 1, 2, 3, 4, 5, 6, 7})
				r.eval(fmt.Sprint("long file", n, k))
			}
			// The way back.
			for k := range names {
				up := make([]string, min(k+1, 16))
				for i := range up {
					up[i] = ".."
				}
				if e.walk(1, 7, up...); e.fids[7] != nil {
					e.stat(7)
					e.clunk(7)
				}
			}
			e.remove(2)
		})
		e.done()
	}
	r.need("long paths", 50)
}
