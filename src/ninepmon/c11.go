package main

// C11, C12, C13: reading, writing, listing, attributes.

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	p "github.com/Harvey-OS/ninep/protocol"
)

func init() {
	checks["C11"] = check{run: c11, level: "exploration"}
	checks["C12"] = check{run: c12, level: "exploration"}
	checks["C13"] = check{run: c13, level: "exploration"}
}

// bench is an env on an otherwise empty root, judged for props.
func bench(r *R, l *p.Listener, name, props string, msize uint32, fill func(e *env)) *env {
	g := r.sub(name, 0)
	e := newEnv(r, g, name, props)
	e.umaskTo(0)
	if fill != nil {
		fill(e)
	}
	e.connect(l, name, false, msize, g.Intn(2))
	e.begin()
	return e
}

// reopen closes and opens a fid on path.
func (e *env) reopen(fid uint32, rel string, mode uint8) Msg {
	if e.fids[0] == nil {
		e.attach(0, NOFID, "me", "")
	}
	if e.fids[fid] != nil {
		e.clunk(fid)
	}
	e.walk(0, fid, split(rel)...)
	return e.open(fid, mode)
}

func c11(r *R) {
	r.rule = "A case is one read, write or open judged against the host's file: random histories in which the whole tree is compared after every request, and directed ones: every message " +
		"size with counts around it, offsets beyond 2, 4 and 1000 GB, transfers of up to the largest message, all access modes with all permissions, truncation, files changed behind the " +
		"server's back, two fids on one file, hosts that cut writes short or refuse them. Every write is also made to a shadow file by the host and the two compared. Distinct: by request, state of the file and reply."
	dictCases(r, "C11", false, false)
	longPaths(r, "C11")
	randomCases(r, caseOpts{props: "C11", cases: r.scale(60, 800), steps: 150, special: true, msize: []uint32{65536, 8192, 600, 200, 1 << 20, 24, 11, 12},
		w: weights{"attach": 1, "walk": 12, "open": 18, "read": 30, "write": 30, "clunk": 10, "create": 6, "wstat": 4, "clone": 2, "version": 1, "remove": 1}})
	l := newUFS(r, false)
	c11sizes(r, l)
	c11shadow(r, l)
	c11modes(r, l)
	c11faults(r, l)
	r.need("reads judged", 3000)
	r.need("writes judged", 600)
	r.need("truncations judged", 50)
	r.need("shadow comparisons", 500)
	r.need("writes cut short or refused by the host", 10)
}

// c11sizes: counts around what a reply can carry.
func c11sizes(r *R, l *p.Listener) {
	for msi, ms := range []uint32{11, 12, 13, 23, 24, 25, 64, 100, 255, 256, 257, 512, 1024, 4096, 8168, 8192, 8193, 8216, 16384, 32767, 32768, 65535, 65536, 65559, 65560, 1 << 17, 1 << 20, 2<<20 + 24, 2<<20 + 25, 1<<31 - 1, 1 << 31, 0xffffffff} {
		e := bench(r, l, fmt.Sprintf("size%d", ms), "C11", ms, func(e *env) {
			mkfile(r, e.root+"/big", pattern(3<<20+77), 0755)
			mkfile(r, e.root+"/small", pattern(100), 0755)
			mkfile(r, e.root+"/empty", nil, 0755)
		})
		e.deep = false
		inCase(func() {
			mr := e.maxRead()
			for _, f := range []string{"big", "small", "empty"} {
				mode := []uint8{OREAD, OEXEC, ORDWR}[msi%3]
				if m := e.reopen(1, f, mode); m.isErr() {
					mode = OREAD // nobody has to let files be executed
					e.reopen(1, f, mode)
				}
				for _, c := range []int64{0, 1, mr - 14, mr - 13, mr - 12, mr - 1, mr, mr + 1, mr + 11, mr + 12, mr + 13, 2*mr + 1, 100, 99, 101, 8192, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
					if c < 0 || c > 1<<32-1 {
						continue
					}
					for _, off := range []uint64{0, 1, 50, 99, 100, 101, 3 << 20, 3<<20 + 76, 3<<20 + 77, 3<<20 + 78, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
						e.read(1, off, uint32(c))
						r.eval(fmt.Sprint(ms, f, c, off))
					}
				}
				if mr > 50 {
					// The whole of it, piece by piece.
					if f == "big" && mr < 2000 {
						continue
					}
					var got []byte
					for {
						m := e.read(1, uint64(len(got)), uint32(e.g.Intn(int(min(mr*2, 1<<30))))+1)
						if m.isErr() || len(m.F[0].([]byte)) == 0 {
							break
						}
						got = append(got, m.F[0].([]byte)...)
					}
					w, _ := os.ReadFile(e.root + "/" + f)
					if !bytes.Equal(got, w) {
						e.bad("C11", "reading %q to its end gives %d bytes of %d, different from %d on", f, len(got), len(w), firstDiff(got, w))
					}
					r.count("whole files read", 1)
				}
			}
		})
		e.done()
	}
}

func pattern(n int) []byte {
	b := make([]byte, n)
	x := uint32(12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// c11shadow makes every write to a shadow file as well.
func c11shadow(r *R, l *p.Listener) {
	for i := 0; i < r.scale(30, 300); i++ {
		g := r.sub("shadow", i)
		huge := i%2 == 1
		e := bench(r, l, fmt.Sprintf("shadow%d", i), "C11", []uint32{2<<20 + 24, 65536, 8192}[i%3], func(e *env) {
			init := pattern(g.Intn(5000))
			mkfile(r, e.root+"/f", init, 0644)
			mkfile(r, e.outer+"/shadow", init, 0644)
		})
		e.deep = false
		sh, err := os.OpenFile(e.outer+"/shadow", os.O_RDWR, 0)
		r.must(err)
		inCase(func() {
			e.reopen(1, "f", ORDWR)
			e.reopen(2, "f", ORDWR)
			e.reopen(3, "f", OREAD)
			e.reopen(4, "f", OWRITE)
			type span struct {
				off uint64
				n   int
			}
			at := map[uint32]span{} // what the fids read last
			for s := 0; s < 60; s++ {
				fid := uint32(1 + g.Intn(4))
				off := uint64(g.Intn(10000))
				if huge {
					off = []uint64{1<<31 - 10, 1 << 31, 1<<32 - 10, 1 << 32, 1<<32 + 5, 1<<33 + 1<<31, 1<<40 - 3, 1 << 40, 3, 0, 1<<41 + 17}[g.Intn(11)] + uint64(g.Intn(30))
				}
				n := g.Intn(200)
				switch g.Intn(10) {
				case 0:
					n = int(e.x.msize) - 24 + g.Intn(2) - 1
				case 1:
					n = 65535 + g.Intn(3)
					if n > int(e.x.msize)-24 {
						n = int(e.x.msize) - 24
					}
				case 2:
					n = 1<<16 + g.Intn(300000)
					if n > int(e.x.msize)-24 {
						n = int(e.x.msize) - 24 - g.Intn(3)
					}
				case 3:
					n = 0
				case 4:
					n = 1
				}
				switch g.Intn(7) {
				case 0: // behind its back
					b := gBytes(g, g.Intn(300))
					hf, err := os.OpenFile(e.root+"/f", os.O_WRONLY, 0)
					r.must(err)
					hf.WriteAt(b, int64(off))
					hf.Close()
					sh.WriteAt(b, int64(off))
				case 1:
					if !huge || g.Intn(3) == 0 {
						r.must(os.Truncate(e.root+"/f", int64(off)))
						r.must(sh.Truncate(int64(off)))
					}
				case 2:
					e.reopen(fid, "f", []uint8{OREAD, OWRITE, ORDWR, ORDWR | OTRUNC, OWRITE | OTRUNC}[g.Intn(5)])
					if h, err := lstat(e.root + "/f"); err == nil && e.fids[fid].mode&OTRUNC != 0 && e.fids[fid].open {
						sh.Truncate(0)
						_ = h
					}
				case 3, 4:
					if !e.fids[fid].readable() {
						fid = 3
					}
					if g.Intn(3) == 0 { // the same range as before
						off, n = at[fid].off, at[fid].n
					} else if h, err := lstat(e.root + "/f"); err == nil && g.Intn(2) == 0 && h.size > int64(n) {
						off = uint64(g.Int63n(h.size - int64(n)))
					}
					at[fid] = span{off, n}
					if e.fids[3] != nil && e.fids[fid].open {
						e.read(fid, off, uint32(n))
					}
				default:
					if s := at[uint32(1+g.Intn(4))]; s.n > 0 && g.Intn(3) == 0 { // into what was read last
						off = s.off + uint64(g.Intn(s.n))
						n = min(n, s.n)
					}
					d := gBytes(g, n)
					switch h, err := lstat(e.root + "/f"); g.Intn(6) {
					case 0: // all zero, or all but one byte
						clear(d)
						if len(d) > 0 && g.Intn(3) == 0 {
							d[g.Intn(len(d))] = 1
						}
						fallthrough
					case 1: // ending at, before or after the end of the file
						if err == nil && h.size > 0 {
							back := g.Int63n(int64(2*n) + 2)
							if g.Intn(2) == 0 {
								back = int64(n)
							}
							off = uint64(max(0, h.size-back))
						}
					case 2: // what is there already, or almost
						if err == nil && int64(off)+int64(n) <= h.size {
							if hf, err := os.Open(e.root + "/f"); err == nil {
								hf.ReadAt(d, int64(off))
								hf.Close()
								if len(d) > 0 && g.Intn(2) == 0 {
									d[g.Intn(len(d))] ^= 1 << g.Intn(8)
								}
							}
						}
					}
					m := e.write(fid, off, d)
					if !m.isErr() {
						_, err := sh.WriteAt(lastData(e, m), int64(off))
						r.must(err)
					}
				}
				h1, err := lstat(e.root + "/f")
				r.must(err)
				h2, err := lstat(e.outer + "/shadow")
				r.must(err)
				c1, err := readHost(e.root+"/f", h1)
				r.must(err)
				c2, err := readHost(e.outer+"/shadow", h2)
				r.must(err)
				if h1.size != h2.size || c1 != c2 {
					e.bad("C11", "after %s the file has %d bytes and differs from what it has to be (%d bytes) from %d on", e.last, h1.size, h2.size, firstDiff([]byte(c1), []byte(c2)))
				}
				r.count("shadow comparisons", 1)
				if huge {
					r.count("shadow comparisons of files beyond 2 GB", 1)
				}
				r.eval(fmt.Sprint(i, s, e.last))
			}
		})
		sh.Close()
		e.done()
	}
}

// lastData is what the last write was acknowledged for.
func lastData(e *env, m Msg) []byte {
	return e.lastWrite[:min(int(m.F[0].(uint32)), len(e.lastWrite))]
}

// c11modes: every access mode on files of every permission.
func c11modes(r *R, l *p.Listener) {
	e := bench(r, l, "modes", "C11", 8192, nil)
	inCase(func() {
		for perm := uint32(0); perm < 8; perm++ {
			for mode := 0; mode < 256; mode++ {
				if mode&0xc0 != 0 && mode%7 != 0 && perm < 6 { // remove on close and unknown ones: a sample
					continue
				}
				name := fmt.Sprintf("f%d-%d", perm, mode)
				mkfile(r, e.root+"/"+name, pattern(50), os.FileMode(perm<<6))
				e.begin()
				m := e.reopen(1, name, uint8(mode))
				if m.isErr() {
					r.count("opens refused", 1)
				} else {
					e.read(1, 0, 100)
					e.write(1, 10, []byte("xyz"))
					e.read(1, 5, 100)
				}
				// Whether it is removed when it is closed is for the server to have or
				// not: it is gone before that.
				r.eval(fmt.Sprint("mode", perm, mode, m.isErr()))
				os.Remove(e.root + "/" + name)
				e.clunk1(1)
				e.begin()
			}
		}
		// A mode that was opened stays when the permissions change.
		mkfile(r, e.root+"/p", pattern(50), 0600)
		e.begin()
		for _, mode := range []uint8{OREAD, OWRITE, ORDWR, OEXEC} {
			for _, perm := range []os.FileMode{0, 0200, 0400, 0600} {
				r.must(os.Chmod(e.root+"/p", 0600))
				e.begin()
				e.reopen(1, "p", mode)
				r.must(os.Chmod(e.root+"/p", perm))
				e.begin()
				e.read(1, 0, 100)
				e.write(1, 7, []byte("pq"))
				e.read(1, 7, 1)
				r.eval(fmt.Sprint("chmod", mode, perm))
			}
		}
		// Directories.
		r.must(os.Mkdir(e.root+"/dir", 0777))
		mkfile(r, e.root+"/dir/x", pattern(5), 0600)
		e.begin()
		for mode := 0; mode < 0x14; mode++ {
			if mode >= 4 && mode < 0x10 {
				continue
			}
			e.reopen(1, "dir", uint8(mode))
			if f := e.fids[1]; f != nil && f.open {
				e.write(1, 0, []byte("junk"))
				e.write(1, 1<<33, []byte("junk"))
			}
			r.eval(fmt.Sprint("dir", mode))
		}
	})
	e.done()
}

// clunk1 gives up a fid whose file the host has removed.
func (e *env) clunk1(fid uint32) {
	if e.fids[fid] != nil {
		e.call(Tclunk, fid)
		delete(e.fids, fid)
	}
}

// c11faults: a host that cuts writes short or refuses them.
func c11faults(r *R, l *p.Listener) {
	signal.Ignore(syscall.SIGXFSZ)
	e := bench(r, l, "faults", "C11", 1<<20, func(e *env) {
		mkfile(r, e.root+"/f", pattern(1000), 0644)
		os.Symlink("/dev/full", e.root+"/full")
	})
	e.deep = false
	g := e.g
	inCase(func() {
		e.reopen(1, "f", ORDWR)
		var old syscall.Rlimit
		r.must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
		const lim = 200000
		for i := 0; i < 60; i++ {
			off := lim - 50000 + g.Intn(60000)
			n := 1 + g.Intn(80000)
			data := gBytes(g, n)
			before, err := os.ReadFile(e.root + "/f")
			r.must(err)
			r.must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: lim, Max: old.Max}))
			m := e.call(Twrite, uint32(1), uint64(off), data)
			r.must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
			now, err := os.ReadFile(e.root + "/f")
			r.must(err)
			ack := 0
			if !m.isErr() {
				ack = int(m.F[0].(uint32))
				if ack > n {
					e.bad("C11", "%s: %d acknowledged, %d sent", e.last, ack, n)
				}
				if ack > 0 && (len(now) < off+ack || !bytes.Equal(now[off:off+ack], data[:ack])) {
					e.bad("C11", "%s: acknowledged though the host's file can't have grown beyond %d bytes and has not these bytes", e.last, lim)
				}
			}
			if off+n > lim {
				r.count("writes cut short or refused by the host", 1)
			}
			// Nothing but the range asked for may have changed.
			for k := 0; k < len(now); k++ {
				if k < off || k >= off+n {
					w := byte(0)
					if k < len(before) {
						w = before[k]
					}
					if now[k] != w {
						e.bad("C11", "%s changed byte %d", e.last, k)
					}
				}
			}
			r.eval(fmt.Sprint("fsize", off, n, m.isErr(), ack))
			if i%7 == 6 {
				r.must(os.Truncate(e.root+"/f", 1000))
			}
		}
		if _, err := os.Stat("/dev/full"); err == nil {
			m := e.call(Twalk, uint32(0), uint32(9), []string{"full"})
			if !m.isErr() {
				m = e.call(Topen, uint32(9), uint8(OWRITE))
			}
			if !m.isErr() {
				for _, n := range []int{1, 100, 8000, 500000} {
					m := e.call(Twrite, uint32(9), uint64(0), gBytes(g, n))
					if !m.isErr() && m.F[0].(uint32) > 0 {
						e.bad("C11", "%s: acknowledged though the host refused every byte", e.last)
					}
					r.count("writes cut short or refused by the host", 1)
					r.eval(fmt.Sprint("full", n))
				}
			}
		}
	})
	e.done()
}

// C12

func c12(r *R) {
	r.rule = "A case is one listing of a directory (0 to several thousand entries, all kinds and lengths of names), read with counts that are large, random, exactly the size of the next entry, " +
		"one byte less and more, and message sizes likewise; restarted in the middle, after a count that was too small, interleaved on several fids; judged entry by entry against the host. Distinct: by directory and counts."
	l := newUFS(r, false)
	sizes := []int{0, 1, 2, 3, 7, 40, 300, 1500, 5000}
	if r.thorough {
		sizes = append(sizes, 20000, 70000)
	}
	long := strings.Repeat("n", 255)
	for si, n := range sizes {
		for kind := 0; kind < 3; kind++ {
			if n == 5000 && kind > 0 && !r.thorough {
				continue
			}
			e := bench(r, l, fmt.Sprintf("dir%d-%d", n, kind), "C12", []uint32{65536, 8192, maxEntry + 11}[(si+kind)%3], func(e *env) {
				r.must(os.Mkdir(e.root+"/dir", 0777))
				for i := 0; i < n; i++ {
					nm := fmt.Sprintf("f%d", i)
					switch kind {
					case 1:
						nm = long[:240+i%10] + fmt.Sprintf("%05d", i)
					case 2:
						nm = string(gName(e.g)) + fmt.Sprintf("%d", i)
					}
					f := e.root + "/dir/" + nm
					switch i % 9 {
					case 7:
						r.must(syscall.Mknod(f, syscall.S_IFSOCK|0755, 0))
					case 2:
						r.must(syscall.Mkfifo(f, 0640))
					case 3:
						r.must(os.Mkdir(f, 0755))
					case 5:
						r.must(os.Symlink("../nowhere", f))
					case 6:
						r.must(os.Symlink(".", f))
					default:
						mkfile(r, f, nil, 0644)
					}
				}
			})
			e.deep = false
			inCase(func() { c12dir(e, n, kind) })
			e.done()
		}
	}
	// Message sizes down to nothing.
	for _, d := range []int64{-3, -2, -1, 0, 1, 2, 50} {
		e := bench(r, l, fmt.Sprintf("small%d", d), "C12", uint32(11+52+int64(len(ufsUser)*2)+d), func(e *env) {
			for i := 0; i < 20; i++ {
				mkfile(r, fmt.Sprintf("%s/f%02d", e.root, i), nil, 0644)
			}
		})
		e.deep = false
		inCase(func() {
			e.reopen(1, "", OREAD)
			// Below the size of an entry nothing comes, from there on everything does.
			ent := int64(49 + 3 + 2*len(ufsUser))
			seen := map[string]bool{}
			off := uint64(0)
			for i := 0; i < 40; i++ {
				m := e.readDir(1, off, 8192)
				if m.isErr() {
					break
				}
				b := m.F[0].([]byte)
				if len(b) == 0 {
					break
				}
				off += uint64(len(b))
				for len(b) > 0 {
					d, k, err := decodeDir(b, true)
					if err != nil {
						e.bad("C12", "%s: not whole entries", e.last)
					}
					seen[d.Name] = true
					b = b[k:]
				}
			}
			if e.maxRead() >= ent && len(seen) != 20 {
				e.bad("C12", "with a message size of %d, which has room for an entry of %d bytes, the listing has %d of 20 entries", e.x.msize, ent, len(seen))
			}
			r.eval(fmt.Sprint("msize", d))
		})
		e.done()
	}
	dictCases(r, "C12", false, false)
	randomCases(r, caseOpts{props: "C12", cases: r.scale(25, 500), steps: 120, special: true, msize: []uint32{65536, 8192, 300, 600},
		w: weights{"attach": 2, "walk": 14, "open": 16, "list": 20, "readdir": 25, "clunk": 6, "create": 6, "mkdir": 4, "remove": 4, "clone": 2, "wstat": 2, "version": 1}})
	r.need("complete listings judged", 200)
	r.need("entries judged", 10000)
	r.need("counts too small", 200)
	r.need("counts exactly enough", 200)
}

func gName(g *rand.Rand) []byte {
	n := 1 + g.Intn(60)
	if g.Intn(4) == 0 {
		n = 200 + g.Intn(45)
	}
	b := make([]byte, n)
	for i := range b {
		for b[i] == 0 || b[i] == '/' {
			b[i] = byte(g.Intn(256))
			if g.Intn(2) == 0 {
				b[i] = ".abAB -*%"[g.Intn(9)]
			}
		}
	}
	return append([]byte("e"), b...)
}

func c12dir(e *env, n, kind int) {
	r, g := e.r, e.g
	big := func() uint32 { return 8192 }
	e.reopen(1, "dir", OREAD)
	e.list(1, big)
	r.eval(fmt.Sprint("whole", n, kind))
	e.list(1, big) // again
	e.list(1, func() uint32 { return uint32(maxEntry + g.Intn(2000)) })
	e.list(1, func() uint32 { return maxEntry })
	r.eval(fmt.Sprint("again", n, kind))
	// The order and the sizes, for exact counts.
	var order []string
	var size []int
	off := uint64(0)
	for {
		m := e.readDir(1, off, 65536)
		if m.isErr() {
			return
		}
		b := m.F[0].([]byte)
		if len(b) == 0 {
			break
		}
		off += uint64(len(b))
		for len(b) > 0 {
			d, k, err := decodeDir(b, true)
			if err != nil {
				e.bad("C12", "%s: not whole entries", e.last)
			}
			order, size = append(order, d.Name), append(size, k)
			b = b[k:]
		}
	}
	if len(order) != n {
		e.bad("C12", "listing of %d entries has %d", n, len(order))
	}
	stop := min(n, r.scale(120, 2000))
	exact := func(fid uint32, i int, off uint64) uint64 {
		// Too small, as often as one likes, loses nothing.
		for k := g.Intn(3); k > 0; k-- {
			c := size[i] - 1
			if g.Intn(3) == 0 {
				c = g.Intn(size[i])
			}
			if off == 0 && i > 0 {
				r.broken("offset 0 in the middle")
			}
			m := e.readDir(fid, off, uint32(c))
			if !m.isErr() && len(m.F[0].([]byte)) > 0 {
				e.bad("C12", "%s: %d bytes though the next entry, %q, takes %d", e.last, len(m.F[0].([]byte)), order[i], size[i])
			}
			r.count("counts too small", 1)
		}
		m := e.readDir(fid, off, uint32(size[i]))
		if m.isErr() || len(m.F[0].([]byte)) != size[i] {
			e.bad("C12", "%s: the next entry, %q, takes exactly %d bytes and does not come", e.last, order[i], size[i])
		}
		d, _, _ := decodeDir(m.F[0].([]byte), true)
		if d.Name != order[i] {
			e.bad("C12", "%s: entry %q, where %q was in the last listing and the directory is unchanged", e.last, d.Name, order[i])
		}
		r.count("counts exactly enough", 1)
		return off + uint64(size[i])
	}
	off = 0
	for i := 0; i < stop; i++ {
		off = exact(1, i, off)
	}
	if stop == n {
		m := e.readDir(1, off, 8192)
		if !m.isErr() && len(m.F[0].([]byte)) > 0 {
			e.bad("C12", "%s: more than the whole directory", e.last)
		}
	}
	r.eval(fmt.Sprint("exact", n, kind))
	// Starting again after a count too small, anywhere.
	for k := 0; k < 12 && n > 0; k++ {
		off = 0
		at := g.Intn(min(n, 30))
		for i := 0; i < at; i++ {
			off = exact(1, i, off)
		}
		if at > 0 {
			e.readDir(1, off, uint32(g.Intn(size[at])))
		} else {
			e.readDir(1, 0, uint32(g.Intn(size[at])))
		}
		r.count("counts too small", 1)
		if k%3 == 0 {
			e.list(1, big)
		}
		r.eval(fmt.Sprint("restart", n, kind, at))
	}
	// Several fids at once, one of them elsewhere, one walked from another.
	e.reopen(2, "dir", OREAD)
	e.walk(1, 3)
	e.open(3, OREAD)
	pos := map[uint32]int{1: 0, 2: 0, 3: 0}
	offs := map[uint32]uint64{}
	for k := 0; k < 3*min(n, 100); k++ {
		fid := uint32(1 + g.Intn(3))
		if pos[fid] >= n || g.Intn(60) == 0 {
			pos[fid], offs[fid] = 0, 0
		}
		offs[fid] = exact(fid, pos[fid], offs[fid])
		pos[fid]++
	}
	r.eval(fmt.Sprint("several", n, kind))
	// Changed on the host: a new listing has the new entries, those that are gone are gone.
	if n > 2 {
		os.RemoveAll(e.root + "/dir/" + order[0])
		mkfile(r, e.root+"/dir/newcomer", nil, 0600)
		e.list(1, big)
		e.list(2, big)
		r.eval(fmt.Sprint("changed", n, kind))
	}
	// Closed and opened again.
	e.reopen(1, "dir", OREAD)
	e.list(1, big)
	// A fid without a listing of its own does not disturb others.
	e.stat(2)
	e.list(3, big)
	r.eval(fmt.Sprint("last", n, kind))
}

// C13

func c13(r *R) {
	r.rule = "A case is one file looked at by all routes: stat, walk (whole, in steps, through dot-dot), attach by name, open, create and the listing of its directory, each judged against the host's " +
		"lstat; files of all kinds, all 512 permissions, lengths beyond 4 GB, times at the edges, hard and symbolic links; then changed and looked at again. Distinct: by file, route and reply."
	longPaths(r, "C13")
	l := newUFS(r, false)
	users := []string{"monitor-owner", "", "u", "harvey", strings.Repeat("w", 300), "\xff%s"}
	for ui, u := range users {
		flagMu.Lock()
		ufsUser = u
		flagMu.Unlock()
		l = newUFS(r, false)
		e := bench(r, l, fmt.Sprintf("attrs%d", ui), "C13", 65536, func(e *env) { c13fill(e, ui == 0 || r.thorough) })
		e.deep = false
		inCase(func() {
			e.attach(0, NOFID, "me", "")
			c13look(e, ui == 0)
			c13change(e)
			c13look(e, false)
		})
		e.done()
	}
	flagMu.Lock()
	ufsUser = users[0]
	flagMu.Unlock()
	dictCases(r, "C13", false, false)
	randomCases(r, caseOpts{props: "C13", cases: r.scale(30, 600), steps: 120, special: true,
		w: weights{"attach": 4, "walk": 20, "open": 10, "stat": 25, "list": 8, "wstat": 14, "write": 8, "clunk": 6, "create": 6, "mkdir": 4, "remove": 4, "clone": 2, "version": 1}})
	r.need("attributes judged", 5000)
	r.need("identities judged", 10000)
	r.need("versions that had to change", 100)
	r.need("looks by another route", 1000)
}

func c13fill(e *env, all bool) {
	r, g := e.r, e.g
	for _, d := range []string{"/m", "/md", "/s", "/t", "/k", "/deep", "/deep/er", "/deep/er/still"} {
		r.must(os.Mkdir(e.root+d, 0755))
	}
	for i := 0; i < 512; i++ {
		if !all && i%37 != 0 && i != 0777 && i != 0 {
			continue
		}
		mkfile(r, fmt.Sprintf("%s/m/%03o", e.root, i), gBytes(g, g.Intn(3)), os.FileMode(i))
		r.must(os.Mkdir(fmt.Sprintf("%s/md/%03o", e.root, i), 0700))
		r.must(os.Chmod(fmt.Sprintf("%s/md/%03o", e.root, i), os.FileMode(i)))
	}
	r.must(syscall.Chmod(e.root+"/m/777", 07777))
	r.must(syscall.Chmod(e.root+"/md/777", 07777))
	for _, n := range []int64{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<40 + 12345} {
		f := fmt.Sprintf("%s/s/%d", e.root, n)
		mkfile(r, f, nil, 0644)
		r.must(os.Truncate(f, n))
	}
	for i, t := range edgeTimes {
		f := fmt.Sprintf("%s/t/%d", e.root, i)
		mkfile(r, f, nil, 0644)
		r.must(os.Chtimes(f, time.Unix(77, 0), t))
		d := fmt.Sprintf("%s/t/d%d", e.root, i)
		r.must(os.Mkdir(d, 0755))
		r.must(os.Chtimes(d, time.Unix(78, 0), t))
	}
	mkfile(r, e.root+"/k/f", pattern(10), 0640)
	r.must(os.Symlink("f", e.root+"/k/lf"))
	r.must(os.Symlink("../m", e.root+"/k/ld"))
	r.must(os.Symlink("nowhere-at-all", e.root+"/k/dang"))
	r.must(os.Symlink("self", e.root+"/k/self"))
	r.must(os.Link(e.root+"/k/f", e.root+"/k/hard"))
	r.must(os.Link(e.root+"/k/f", e.root+"/deep/er/hard"))
	r.must(os.Link(e.root+"/k/lf", e.root+"/k/hardlink-of-lf"))
	r.must(syscall.Mkfifo(e.root+"/k/fifo", 0622))
	mkfile(r, e.root+"/k/"+strings.Repeat("N", 255), nil, 0600)
	mkfile(r, e.root+"/k/\x01\xff \t%d", nil, 0600)
	mkfile(r, e.root+"/deep/er/still/f", pattern(3), 0600)
}

var edgeTimes = []time.Time{time.Unix(0, 0), time.Unix(0, 999999999), time.Unix(1, 1), time.Unix(1<<31-1, 999999999), time.Unix(1<<31, 0), time.Unix(1<<32-1, 5), time.Unix(1<<32, 0),
	time.Unix(1234567890, 123456789), time.Unix(1234567890, 999000000), time.Unix(-1, 0), time.Unix(-100, 5e8), time.Unix(1600000000, 1000000), time.Unix(4294967, 296000000), time.Unix(4294967, 295000000)}

// c13look looks at every file in every way.
func c13look(e *env, all bool) {
	r, g := e.r, e.g
	var files []string
	filepath.Walk(e.root, func(p string, fi os.FileInfo, err error) error {
		files = append(files, strings.TrimPrefix(p, e.root))
		return nil
	})
	for i, rel := range files {
		h, err := lstat(e.root + rel)
		if err != nil {
			continue
		}
		m := e.walk(0, 1, split(rel)...)
		if m.isErr() || e.fids[1] == nil {
			continue
		}
		e.stat(1)
		r.eval("stat" + e.last)
		// by steps
		e.walk(0, 2)
		for _, n := range split(rel) {
			e.walk(2, 2, n)
		}
		e.stat(2)
		e.clunk(2)
		r.count("looks by another route", 1)
		// by detours
		if k := split(rel); len(k) > 0 {
			e.walk(0, 2, append([]string{"deep", "er", "..", "..", "..", "deep", ".."}, k...)...)
			e.stat(2)
			if h.kind == 'd' {
				e.walk(2, 3, "..")
				e.stat(3)
				e.clunk(3)
			}
			e.clunk(2)
			r.count("looks by another route", 1)
		}
		if h.kind != 'l' && h.kind != '?' {
			e.attach(4, NOFID, "me", rel)
			if e.fids[4] != nil {
				e.stat(4)
				e.clunk(4)
			}
			e.walk(1, 5)
			e.open(5, OREAD)
			if f := e.fids[5]; f != nil && f.open && h.kind == 'd' && (all || i%20 == 0 || len(files) < 300) {
				e.list(5, func() uint32 { return 8192 })
				r.eval("list" + e.last)
			}
			e.stat(5)
			e.clunk(5)
		}
		e.clunk(1)
		_ = g
	}
	e.attach(6, NOFID, "me", "")
	e.open(6, OREAD)
	e.list(6, func() uint32 { return 8192 })
	e.clunk(6)
}

// c13change changes files through the server and on the host, and looks.
func c13change(e *env) {
	r, g := e.r, e.g
	f := e.root + "/k/f"
	e.walk(0, 1, "k", "f")
	e.open(1, ORDWR)
	e.walk(0, 2, "k", "hard")
	for i := 0; i < 30; i++ {
		e.stat(1)
		switch i % 5 {
		case 0:
			time.Sleep(2 * time.Millisecond)
			e.write(1, uint64(g.Intn(100)), gBytes(g, 5))
		case 1:
			r.must(os.Chtimes(f, time.Unix(5, 0), edgeTimes[g.Intn(len(edgeTimes))]))
		case 2:
			r.must(os.Chmod(f, os.FileMode(0600|g.Intn(512))))
		case 3:
			r.must(os.Truncate(f, int64(g.Intn(1000))))
		case 4:
			t := time.Unix(1500000000+int64(i), int64(g.Intn(1e9)))
			r.must(os.Chtimes(f, t, t))
			e.stat(1)
			t = t.Add(time.Millisecond)
			r.must(os.Chtimes(f, t, t))
		}
		e.stat(1)
		e.stat(2)
		e.walk(0, 3, "deep", "er", "hard")
		e.stat(3)
		e.clunk(3)
		r.eval("change" + e.last)
	}
	e.clunk(1)
	e.clunk(2)
	// Created files: the identity create gave is the one seen afterwards.
	for i := 0; i < 20; i++ {
		e.walk(0, 1, "deep")
		perm := uint32(0600 | g.Intn(512))
		if i%2 == 1 {
			perm |= DMDIR | 0700
		}
		e.create(1, fmt.Sprintf("new%d", i), perm, OREAD)
		e.stat(1)
		e.walk(0, 2, "deep", fmt.Sprintf("new%d", i))
		e.stat(2)
		r.eval("create" + e.last)
		e.clunk(1)
		e.clunk(2)
	}
}
