package main

// C14, C15, C22: wstat, create and remove, walk.

import (
	"fmt"
	"os"
	"strings"
	"time"

	p "github.com/Harvey-OS/ninep/protocol"
)

func init() {
	checks["C14"] = check{run: c14, level: "exploration"}
	checks["C15"] = check{run: c15, level: "exploration"}
	checks["C22"] = check{run: c22, level: "exploration"}
}

func c14(r *R) {
	r.rule = "A case is one wstat after which the whole tree, attributes, access times and contents included, is compared with what it has to be: all 512 permissions, every combination of fields, " +
		"edge values of lengths and times, renames in place, to other directories and by absolute name, open and closed fids, wstats that have to be refused in combination with fields that " +
		"could be changed, stat data cut short at every byte; and random histories. Distinct: by file and wstat."
	longPaths(r, "C14")
	l := newUFS(r, false)
	fill := func(e *env) {
		e.buildTree(false)
		mkfile(r, e.root+"/f", pattern(300), 0644)
		mkfile(r, e.root+"/target", pattern(30), 0644)
		r.must(os.Chtimes(e.root+"/f", time.Unix(1111, 5000), time.Unix(2222, 6000)))
	}
	// One field.
	e := bench(r, l, "single", "C14", 8192, fill)
	inCase(func() {
		e.attach(0, NOFID, "me", "")
		e.walk(0, 1, "f")
		e.walk(0, 2, "empty")
		e.walk(0, 3, "f")
		e.open(3, ORDWR)
		one := func(fid uint32, f func(d *Dir)) {
			d := noTouch
			f(&d)
			e.wstat(fid, d)
			r.eval("one" + e.last)
		}
		for m := uint32(0); m < 512; m++ {
			one(1, func(d *Dir) { d.Mode = m })
			if m%8 == 0 {
				one(2, func(d *Dir) { d.Mode = m | DMDIR })
				one(2, func(d *Dir) { d.Mode = m })
				one(3, func(d *Dir) { d.Mode = m })
			}
		}
		one(1, func(d *Dir) { d.Mode = 0644 })
		one(2, func(d *Dir) { d.Mode = 0755 })
		for _, n := range []uint64{0, 1, 5, 300, 299, 301, 4095, 4096, 4097, 65536, 1 << 19, 1<<20 - 1, 100, 1 << 63, 1<<64 - 2, 1<<63 + 5} {
			one(1, func(d *Dir) { d.Length = n })
			one(3, func(d *Dir) { d.Length = n / 2 })
		}
		for _, t := range []uint32{0, 1, 59, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1234567890, 0x01020304} {
			for _, fid := range []uint32{1, 2, 3} {
				one(fid, func(d *Dir) { d.Mtime = t })
				one(fid, func(d *Dir) { d.Atime = t })
				one(fid, func(d *Dir) { d.Mtime, d.Atime = t, t+7 })
				one(fid, func(d *Dir) { d.Mtime, d.Atime = t^0xf0f0f0f, t })
			}
		}
		for _, fid := range []uint32{0, 1, 2, 3} {
			one(fid, func(d *Dir) {}) // nothing
		}
		for i, n := range []string{"g", "f", "g2", ".g", "..g", "a b", "\xff", strings.Repeat("w", 255), "%s", "d/x1", "/x2", "/d/e/x3", "d/e/../x4", "/../x5", "../x6", "../../x7", "./x8", "d//x9", "/d/../d/x10"} {
			one(1, func(d *Dir) { d.Name = n })
			e.stat(1)
			e.stat(3) // the other fid has the old name
			_ = i
		}
		for _, n := range []string{"d", "empty", "/", "..", ".", "/d/e", "nodir/x", "f/x", strings.Repeat("w", 256), "z\x00y", "d/.", "../.."} {
			one(1, func(d *Dir) { d.Name = n })
			one(2, func(d *Dir) { d.Name = n })
		}
		for _, u := range []string{"x", ufsUser, "root", " "} {
			one(1, func(d *Dir) { d.User = u })
			one(1, func(d *Dir) { d.Group = u })
			one(0, func(d *Dir) { d.User = u })
		}
	})
	e.done()
	// All combinations.
	for v := 0; v < r.scale(4, 40); v++ {
		e := bench(r, l, fmt.Sprintf("combi%d", v), "C14", 8192, fill)
		g := e.g
		inCase(func() {
			e.attach(0, NOFID, "me", "")
			for bits := 0; bits < 32; bits++ {
				for refuse := 0; refuse < 5; refuse++ {
					for _, what := range []string{"/f", "/d", "/d/e/g"} {
						// Find it again: it has other names now and then.
						rel := what
						d := noTouch
						if bits&1 != 0 {
							d.Mode = 0600 | uint32(g.Intn(512))
							if what == "/d" {
								d.Mode |= DMDIR | 0700
							}
						}
						if bits&2 != 0 && what != "/d" {
							d.Length = uint64(g.Intn(600))
						}
						if bits&4 != 0 {
							d.Mtime = uint32(g.Int31())
						}
						if bits&8 != 0 {
							d.Atime = uint32(g.Int31())
						}
						moved := false
						if bits&16 != 0 {
							d.Name = "renamed"
							if g.Intn(3) == 0 {
								d.Name = "/empty/renamed"
							}
							moved = true
						}
						switch refuse {
						case 1:
							d.User = "other"
						case 2:
							d.Group = "other"
						case 3:
							d.Name, moved = "/empty", false
						case 4:
							if what == "/f" || what == "/d" {
								d.Name, moved = "missing/below", false
							} else {
								d.Name, moved = "h", false // a directory beside it
							}
						}
						if refuse != 0 {
							moved = false
						}
						open := g.Intn(2) == 0
						e.walk(0, 1, split(rel)...)
						if open {
							if what == "/d" {
								e.open(1, OREAD)
							} else {
								e.open(1, ORDWR)
							}
						}
						e.wstat(1, d)
						r.eval(fmt.Sprint("combi", bits, refuse, what, open, v))
						if refuse != 0 {
							r.count("refused combinations", 1)
						}
						e.stat(1)
						if open && what != "/d" {
							e.read(1, 0, 1000)
						}
						if moved {
							// It denotes the renamed file: back through the same fid.
							d := noTouch
							d.Name = what
							e.wstat(1, d)
							e.stat(1)
						}
						e.clunk(1)
					}
				}
			}
		})
		e.done()
	}
	// Stat data cut short, at every byte.
	e = bench(r, l, "short", "C14 C04", 8192, fill)
	inCase(func() {
		e.attach(0, NOFID, "me", "")
		e.walk(0, 1, "f")
		for v := 0; v < 3; v++ {
			d := noTouch
			d.Mode, d.Length, d.Mtime, d.Atime = 0600, 5, 77, 78
			if v == 1 {
				d.Name = "short"
			}
			if v == 2 {
				d.ModUser = "last"
			}
			b := d.encode()
			for n := 0; n < len(b); n++ {
				m := e.call(Twstat, uint32(1), b[:n])
				if !m.isErr() {
					e.bad("C14", "a wstat with the first %d of %d bytes of its stat data succeeded", n, len(b))
				}
				e.settle("C14", nil)
				r.count("cut stat data refused", 1)
				r.eval(fmt.Sprint("short", v, n))
			}
		}
	})
	e.done()
	dictCases(r, "C14", false, false)
	randomCases(r, caseOpts{props: "C14", cases: r.scale(40, 800), steps: 120, special: true,
		w: weights{"attach": 3, "walk": 16, "open": 8, "stat": 8, "wstat": 40, "write": 4, "clunk": 8, "create": 5, "mkdir": 3, "clone": 3, "read": 2}})
	r.need("wstats judged", 1500)
	r.need("wstats refused", 400)
	r.need("cut stat data refused", 100)
}

func c15(r *R) {
	r.rule = "A case is one create or remove after which the whole tree is compared with what it has to be: all permissions and several masks, all access modes and what they then allow, names of all " +
		"kinds, taken and free, in directories that may not be written; removal of files, empty and full directories, links, of open and vanished files, and the fid afterwards; random histories. Distinct: by request and state."
	longPaths(r, "C15")
	l := newUFS(r, false)
	e := bench(r, l, "perms", "C15", 8192, func(e *env) {
		for b := 8; b < 32; b++ {
			for v := 0; v < 4; v++ {
				f := fmt.Sprintf("%s/old%d.%d", e.root, b, v)
				mkfile(r, f, []byte(f), []os.FileMode{0600, 0644, 0666, 0640}[v])
				r.must(os.Link(f, f+".too"))
			}
		}
	})
	inCase(func() {
		e.attach(0, NOFID, "me", "")
		n := 0
		mk := func(perm uint32, mode uint8) {
			n++
			name := fmt.Sprintf("n%d", n)
			e.walk(0, 1)
			m := e.create(1, name, perm, mode)
			r.eval(fmt.Sprint("perm", perm, mode, e.umask, m.isErr()))
			if !m.isErr() {
				e.stat(1)
				if perm&DMDIR == 0 {
					use(e, 1)
				}
			}
			e.remove(1)
			e.probe(1)
		}
		for _, um := range []uint32{0, 022, 077, 0777} {
			e.umaskTo(um)
			step := uint32(1)
			if um != 0 && !r.thorough {
				step = 11
			}
			for perm := uint32(0); perm < 512; perm += step {
				mk(perm, ORDWR)
				if perm%4 == 0 || r.thorough {
					mk(perm|DMDIR, OREAD)
				}
			}
		}
		e.umaskTo(0)
		for mode := 0; mode < 0x40; mode++ {
			mk(0666, uint8(mode))
			mk(0, uint8(mode))
			mk(DMDIR|0777, uint8(mode&3))
		}
		for b := uint(9); b < 31; b++ { // other permission bits; append-only and the like are for the server to have or not
			mk(0640|1<<b, ORDWR)
		}
		// A file that is there, that is there under another name too and that another fid
		// has open, is truncated and not another file.
		for b := uint(8); b < 32; b++ {
			if 1<<b == DMDIR {
				continue
			}
			for v := 0; v < 4; v++ {
				name := fmt.Sprintf("old%d.%d", b, v)
				e.walk(0, 2, name)
				e.open(2, ORDWR)
				e.walk(0, 1)
				m := e.create(1, name, []uint32{0600, 0644, 0666, 0222}[v]|1<<b, []uint8{OREAD, OWRITE, ORDWR, ORDWR | OTRUNC}[v])
				r.eval(fmt.Sprint("over", b, v, m.isErr()))
				if !m.isErr() {
					e.stat(1)
					use(e, 1)
				}
				use(e, 2)
				e.stat(2)
				e.clunk(1)
				e.clunk(2)
			}
		}
	})
	setUmask(0)
	e.done()
	for v := 0; v < r.scale(3, 30); v++ {
		e := bench(r, l, fmt.Sprintf("names%d", v), "C15", 8192, func(e *env) { e.buildTree(true) })
		g := e.g
		inCase(func() {
			e.attach(0, NOFID, "me", "")
			names := []string{"x", ".", "..", "", "...", ".x", "a", "d", "b", "big", "ro", "wo", "none", "empty", "hard", "rodir", "%n", "x\x00y", strings.Repeat("l", 255), strings.Repeat("l", 256), strings.Repeat("l", 60000),
				"new line\n", "\xff\xfe", "-", "*", "é", " ", "CON", "f", "e", "g"}
			for _, dir := range []string{"", "d", "d/e", "empty", "rodir", "nodir", "a", "none"} {
				for _, name := range names {
					for _, perm := range []uint32{0644, DMDIR | 0755, 0444, 0640 | 1<<(9+uint(g.Intn(22)))} {
						mode := []uint8{OREAD, OWRITE, ORDWR, OEXEC, ORDWR | OTRUNC}[g.Intn(5)]
						m := e.walk(0, 1, split(dir)...)
						if m.isErr() || e.fids[1] == nil {
							continue
						}
						if g.Intn(5) == 0 { // an open fid: refused
							e.open(1, OREAD)
						}
						had := e.cur[e.inner+relJoin("/"+dir, name)].kind != 0
						m = e.create(1, name, perm, mode)
						r.eval(fmt.Sprint("name", dir, name, perm, mode, m.isErr()))
						e.stat(1)
						if !m.isErr() && perm&DMDIR == 0 {
							use(e, 1)
						}
						if !m.isErr() && !had {
							e.remove(1)
						}
						if e.fids[1] != nil {
							e.clunk(1)
						}
					}
				}
			}
		})
		e.done()
	}
	c15remove(r, l)
	dictCases(r, "C15", false, false)
	randomCases(r, caseOpts{props: "C15", cases: r.scale(60, 800), steps: 120, special: true, probes: 20,
		w: weights{"attach": 3, "walk": 18, "open": 8, "stat": 4, "wstat": 4, "write": 4, "clunk": 6, "create": 20, "mkdir": 12, "remove": 22, "clone": 4, "read": 2}})
	r.need("creates judged: new", 500)
	r.need("creates judged: trunc", 20)
	r.need("removes judged", 500)
}

// use tries what the access mode of an open fid allows and what not.
func use(e *env, fid uint32) {
	f := e.fids[fid]
	if f == nil || !f.open || f.kind != 'f' {
		return
	}
	m := e.write(fid, 0, []byte("hello"))
	if f.writable() == m.isErr() {
		e.bad("C15", "after create with mode %#x: %s", f.mode, e.last)
	}
	m = e.read(fid, 0, 10)
	if f.readable() == m.isErr() {
		e.bad("C15", "after create with mode %#x: %s", f.mode, e.last)
	}
	e.r.count("access after create judged", 1)
}

func c15remove(r *R, l *p.Listener) {
	for v := 0; v < r.scale(6, 60); v++ {
		e := bench(r, l, fmt.Sprintf("remove%d", v), "C15", 8192, func(e *env) {
			e.buildTree(true)
			r.must(os.Symlink("d", e.root+"/ldir"))
			r.must(os.Symlink("../secret", e.root+"/lout"))
			r.must(os.Link(e.root+"/d/f", e.root+"/hardf"))
		})
		g := e.g
		inCase(func() {
			e.attach(0, NOFID, "me", "")
			for round := 0; round < 3; round++ {
				l := e.paths(0)
				g.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
				for _, rel := range l {
					if rel == "" {
						e.walk(0, 1)
						e.remove(1)
						e.probe(1)
						continue
					}
					m := e.walk(0, 1, split(rel)...)
					if m.isErr() || e.fids[1] == nil {
						continue
					}
					e.walk(1, 2)
					how := g.Intn(4)
					switch how {
					case 0:
						e.open(1, OREAD)
					case 1:
						if e.fids[2].kind == 'f' {
							e.open(2, ORDWR)
						}
					}
					e.remove(1)
					r.eval(fmt.Sprint("remove", rel, how, len(e.cur)))
					e.probe(1)
					e.probe(2)
					// Through the other fid, of a file that is gone perhaps: an error, and the fid goes.
					e.remove(2)
					e.probe(2)
					if e.fids[2] != nil {
						e.clunk(2)
					}
					e.remove(1) // unknown now
				}
			}
		})
		e.done()
	}
}

func c22(r *R) {
	r.rule = "A case is one walk: all sequences of up to four names (six thorough) out of a directory, a file, missing ones and dot-dot, from the root, a directory, a deeper one, a file and an open " +
		"fid, to a new fid, the same fid and one in use; long walks, walks through links and directories that may not be searched; random ones. Judged name by name against the host, and both " +
		"fids are looked at afterwards. Distinct: by start, names and kind of new fid."
	longPaths(r, "C22")
	l := newUFS(r, false)
	e := bench(r, l, "all", "C22", 8192, func(e *env) {
		e.buildTree(true)
		r.must(os.Symlink("d", e.root+"/ld"))
		r.must(os.Mkdir(e.root+"/d/d", 0755))
		mkfile(r, e.root+"/d/a", pattern(7), 0644)
		mkfile(r, e.root+"/d/d/a", pattern(8), 0644)
		r.must(os.Mkdir(e.root+"/d/d/d", 0755))
	})
	e.deep = false
	alphabet := []string{"d", "a", "missing", "..", "e"}
	maxLen := 4
	if r.thorough {
		maxLen = 6
	}
	// look says that a fid denotes what the model thinks.
	look := func(fid uint32) {
		f := e.fids[fid]
		if f == nil || f.stale {
			return
		}
		h, err := lstat(e.host(f.path))
		r.must(err)
		m := e.call(Tstat, fid)
		if m.isErr() {
			e.bad("C22", "fid %d has to denote %q: %s", fid, f.path, e.last)
		}
		d, _, err := decodeDir(m.F[0].([]byte), true)
		if err != nil {
			e.bad("C22", "%s: %v", e.last, err)
		}
		rec := e.qids[h.ino]
		if f.path != "" && d.Name != f.path[strings.LastIndex(f.path, "/")+1:] || rec != nil && rec.path != d.QID.P || d.Length != uint64(h.size) {
			e.bad("C22", "fid %d has to denote %q: %s", fid, f.path, e.last)
		}
		r.count("fids looked at", 1)
	}
	isFree := func(fid uint32) {
		m := e.call(Tstat, fid)
		if !m.isErr() && e.fids[fid] == nil {
			e.bad("C22 C10", "fid %d was established by a walk that did not visit all names (%s)", fid, e.last)
		}
	}
	inCase(func() {
		e.attach(0, NOFID, "me", "")
		// Learn the identities by walks of one name from attaches.
		for _, rel := range e.paths(0) {
			if m := e.walk(0, 1, split(rel)...); !m.isErr() && e.fids[1] != nil {
				e.stat(1)
				e.clunk(1)
			}
		}
		starts := [][]string{{}, {"d"}, {"d", "d", "d"}, {"a"}}
		for i, s := range starts {
			e.walk(0, uint32(10+i), s...)
		}
		e.walk(0, 14, "d")
		e.open(14, OREAD)
		e.walk(0, 15, "a")
		e.open(15, ORDWR)
		e.walk(0, 20, "d", "e") // in use
		var rec func(names []string)
		one := func(start uint32, kind int, names []string) {
			e.walk(start, 1)
			if start >= 14 && start <= 15 {
				// On the open fid itself.
				switch kind {
				case 0:
					e.walk(start, 2, names...)
				case 1:
					e.walk(start, start, names...)
				case 2:
					e.walk(start, 20, names...)
				}
				look(start)
				m := e.call(Tread, start, uint64(0), uint32(0))
				if m.isErr() {
					e.bad("C22 C10", "fid %d was open before the walk and is not now: %s", start, e.last)
				}
			} else {
				switch kind {
				case 0:
					e.walk(1, 2, names...)
				case 1:
					e.walk(1, 1, names...)
				case 2:
					e.walk(1, 20, names...)
				}
			}
			look(1)
			look(20)
			if e.fids[2] != nil {
				look(2)
				// Not open, whatever it came from.
				m := e.call(Tread, uint32(2), uint64(0), uint32(1))
				if !m.isErr() {
					e.bad("C22 C10", "the fid a walk established is open: %s", e.last)
				}
				e.clunk(2)
			} else {
				isFree(2)
			}
			e.clunk(1)
			r.eval(fmt.Sprint(start, kind, names))
		}
		rec = func(names []string) {
			for k := 0; k < 3; k++ {
				for st := uint32(10); st <= 15; st++ {
					if len(names) >= 4 && st != 10 && !r.thorough && e.g.Intn(4) > 0 {
						continue
					}
					one(st, k, append([]string{}, names...))
				}
			}
			if len(names) < maxLen {
				for _, a := range alphabet {
					rec(append(names[:len(names):len(names)], a))
				}
			}
		}
		rec([]string{})
		// Long walks.
		for _, n := range []int{5, 15, 16, 17, 18, 40, 100, 1000, 5000} {
			for k := 0; k < 3; k++ {
				var names []string
				for len(names) < n {
					names = append(names, []string{"d", ".."}[len(names)%2])
				}
				one(10, k, names)
				names[n-1] = "missing"
				one(10, k, names)
				names[n/2] = "missing"
				one(10, k, names)
			}
		}
		// Links, unsearchable directories, odd names.
		for _, names := range [][]string{{"ld"}, {"ld", "a"}, {"ld", "d", "a"}, {"ld", "missing"}, {"lnk"}, {"dangling"}, {"dangling", "x"}, {"nodir"}, {"nodir", "f"}, {"nodir", ".."}, {"rodir", "f"}, {"rodir", "missing"},
			{strings.Repeat("n", 255)}, {strings.Repeat("n", 256)}, {"d", strings.Repeat("n", 256)}, {strings.Repeat("n", 4096)}, {strings.Repeat("n", 65535)}, {" sp ace"}, {"\xff\xfe\x01"}, {"..x"}, {"..."}, {"%s%d"}, {"hard"},
			{"d", "e", "h", "i"}, {"d", "e", "h", "i", "x"}, {"big"}, {"none"}, {"none", "x"}, {"a\x00"}, {"d", "a\x00"}, {"D"}, {"A"}, {"a", "b"}, {"a", "a"}, {"a", "..", "d"}, {""}, {"."}, {"d", "."}, {"/"}, {"d/e"}, {"d", "", "e"}} {
			for k := 0; k < 3; k++ {
				for st := uint32(10); st <= 15; st++ {
					one(st, k, names)
				}
			}
		}
	})
	e.done()
	dictCases(r, "C22", false, false)
	randomCases(r, caseOpts{props: "C22", cases: r.scale(30, 600), steps: 120, special: true, shallow: true,
		w: weights{"attach": 3, "walk": 50, "open": 8, "stat": 12, "wstat": 3, "clunk": 8, "create": 4, "mkdir": 4, "remove": 4, "clone": 10}})
	r.need("walks judged", 10000)
	r.need("partial walks", 1000)
	r.need("fids looked at", 10000)
}
