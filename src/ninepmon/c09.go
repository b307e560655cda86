package main

// C09: containment in the root. Everything outside belongs to the scratch
// directory or to other users, and the server runs as nobody in particular, so
// a request that gets out does no harm but is seen.

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"

	p "github.com/Harvey-OS/ninep/protocol"
)

func init() {
	checks["C09"] = check{run: c09, level: "exploration"}
}

type jail struct {
	*env
	inside  map[uint64]bool // identities of files in the root
	secrets [][]byte
	root0   uint64
	keep    map[string]bool // what was inside at the start
}

// tidy removes what requests have left inside, so that a later one does not
// find it instead of something outside.
func (j *jail) tidy() {
	e := j.env
	for k := range e.cur {
		if strings.HasPrefix(k, e.inner+"/") && !j.keep[k] {
			os.RemoveAll(e.outer + k)
		}
	}
	e.begin()
}

// learn walks to every file inside by plain names and notes its identity.
func (j *jail) learn(fid uint32) {
	e := j.env
	j.inside = map[uint64]bool{}
	j.keep = map[string]bool{}
	for k := range e.cur {
		j.keep[k] = true
	}
	for _, rel := range e.paths(0) {
		n := split(rel)
		m := e.call(Twalk, fid, uint32(900), n)
		if m.isErr() {
			continue // nobody may go there
		}
		if len(n) == 0 {
			m2 := e.call(Tstat, uint32(900))
			d, _, err := decodeDir(m2.F[0].([]byte), true)
			if err != nil {
				e.r.fail("stat of the root: %v", err)
			}
			j.root0 = d.QID.P
			j.inside[d.QID.P] = true
		}
		for _, q := range m.F[0].([]QID) {
			j.inside[q.P] = true
		}
		if len(m.F[0].([]QID)) == len(n) {
			e.call(Tclunk, uint32(900))
		}
	}
}

func (j *jail) see(q QID, what string) {
	if !j.inside[q.P] {
		j.r.fail("%s: identity %+v is of no file inside the root", what, q)
	}
	j.r.count("identities checked to be inside", 1)
}

// content judges data for what only files outside contain.
func (j *jail) content(b []byte, what string) {
	for _, s := range j.secrets {
		if bytes.Contains(b, s) {
			j.r.fail("%s: the reply has data of a file outside the root", what)
		}
	}
}

// outsideSame compares everything that is not in the root with before.
func (j *jail) outsideSame(what string) {
	e := j.env
	now := snap(e.r, e.outer)
	before := e.cur
	in := func(k string) bool { return strings.HasPrefix(k, e.inner+"/") }
	w, g := tree{}, tree{}
	for k, v := range before {
		if !in(k) {
			v.freeA = true
			if k == e.inner {
				v.freeM = true
			}
			w[k] = v
		}
	}
	for k, v := range now {
		if !in(k) {
			g[k] = v
		}
	}
	if d := diffTree(w, w, g); d != "" {
		e.r.fail("%s: outside the root: %s", what, d)
	}
	// Nothing inside may have gone out, nor come in.
	for k, v := range now {
		if in(k) {
			for _, s := range j.secrets {
				if strings.Contains(v.content, string(s)) {
					e.r.fail("%s: %q now has the data of a file outside the root", what, k)
				}
			}
		}
	}
	e.cur = now
}

// hostile names: ways to say "up and then target"
func hostileNames(e *env, target string) []string {
	up := []string{"..", "../..", "../../..", "../../../../../../../..", "/..", "/../..", "./..", "a/..", "d/../..", "d/e/../../..", "nothere/../..", "a/../..",
		"..//..", "../.", "../x", "../../x", "../root/..", "../../x/root/../..", "/", "//", "///..", ".", "", "d/../../root2", "../root2", "..\\..", "../root/../root2", "d/e/h/../../../../..", "....//....//", ".../...//..", "..\x00", "d\x00/../.."}
	for i := 0; i < 6; i++ {
		s := dStr(e.g)
		up = append(up, s, s+"..", s+"/../..", "../"+s)
	}
	var l []string
	for _, u := range up {
		if target == "" {
			l = append(l, u)
			continue
		}
		l = append(l, u+"/"+target)
		l = append(l, "/"+u+"/"+target)
	}
	if target != "" {
		l = append(l, target, "/"+target, path.Join(e.outer, target), path.Join(e.outer, "x", target), path.Join(e.root, "..", target), e.root+"/../"+target,
			strings.Repeat("../", 30)+strings.TrimPrefix(e.outer, "/")+"/"+target, strings.Repeat("../", 30)+strings.TrimPrefix(e.outer, "/")+"/x/"+target)
	} else {
		l = append(l, e.outer, e.root, path.Dir(e.root), "/etc", "/etc/passwd", "../../../../../../etc/passwd", strings.Repeat("../", 40)+"etc", "/proc/self/root", "/tmp", "/dev/null")
	}
	return l
}

// jailOn opens a connection to a fresh tree.
func jailOn(r *R, l *p.Listener, i int, rootForm string, empty bool) *jail {
	g := r.sub("jail", i)
	e := newEnv(r, g, fmt.Sprintf("jail%d", i), "")
	e.deep = false
	j := &jail{env: e}
	if !empty {
		e.buildTree(false)
	} else {
		os.MkdirAll(e.outer+"/x/root2", 0777)
		mkfile(r, e.outer+"/x/secret", gBytes(g, 30), 0666)
		mkfile(r, e.outer+"/secret", gBytes(g, 30), 0666)
	}
	for k, f := range []string{"/secret", "/x/secret", "/x/rootfile", "/x/root2/inner"} {
		s := []byte(fmt.Sprintf("SECRET-%d-%d-%016x", i, k, g.Uint64()))
		if _, err := os.Stat(e.outer + f); err == nil {
			mkfile(r, e.outer+f, s, 0666)
			j.secrets = append(j.secrets, s)
		}
	}
	root := e.root
	switch rootForm {
	case "slash":
		root += "/"
	case "dots":
		root = e.root + "/../root/."
	case "twice":
		root = strings.Replace(e.root, "/x/", "//x/", 1)
	}
	a, b := newPipe("jail")
	e.x = ufsConn(r, l, root, i%7 == 3, a, b, "jail", 65536)
	e.x.log = true
	e.begin()
	return j
}

func c09(r *R) {
	r.rule = "A case is one request (attach, walk, create, wstat with a name) with a name meant to lead out of the root: dot-dot in all positions, absolute names, slashes in elements, siblings whose " +
		"names begin like the root's; spread over several requests too. Around the root lie files with known contents. After each request everything outside is compared with before, every identity " +
		"returned has to belong to a file inside, what the fid then yields is read and searched for outside data, and the answer must be the same whether or not the target outside exists. Distinct: by request."
	l := newUFS(r, false)
	forms := []string{"", "slash", "dots", "twice"}
	n := 0
	for i := 0; i < r.scale(8, 60); i++ {
		j := jailOn(r, l, i, forms[i%4], false)
		e := j.env
		g := e.g
		m := e.call(Tattach, uint32(0), uint32(NOFID), "u", "")
		if m.isErr() {
			r.fail("attach to the root (given as form %q) failed: %v", forms[i%4], m)
		}
		j.learn(0)
		j.see(m.F[0].(QID), "attach")
		if m.F[0].(QID).P != j.root0 {
			r.fail("attach gives %+v, a walk to the root %d", m.F[0], j.root0)
		}
		// Where to start from.
		e.call(Twalk, uint32(0), uint32(1), []string{"d"})
		e.call(Twalk, uint32(0), uint32(2), []string{"d", "e", "h"})
		e.call(Twalk, uint32(0), uint32(3), []string{"a"})
		targets := []string{"", "secret", "rootfile", "root2", "root2/inner", "sib", "nosuch", "x", "root"}

		follow := func(fid uint32, what string) {
			// Look at what was reached.
			sm := e.call(Tstat, fid)
			if !sm.isErr() {
				d, _, err := decodeDir(sm.F[0].([]byte), true)
				if err == nil {
					j.see(d.QID, what+", then stat")
				}
			}
			om := e.call(Topen, fid, uint8(OREAD))
			if !om.isErr() {
				off := uint64(0)
				for k := 0; k < 100; k++ {
					rm := e.call(Tread, fid, off, uint32(8000))
					if rm.isErr() {
						break
					}
					b := rm.F[0].([]byte)
					if len(b) == 0 {
						break
					}
					j.content(b, what+", then read")
					if d, _, err := decodeDir(b, true); err == nil && om.F[0].(QID).T&0x80 != 0 {
						j.see(d.QID, what+fmt.Sprintf(", then listed %q", d.Name))
					}
					off += uint64(len(b))
				}
			}
			e.call(Tclunk, fid)
		}
		// pairs: does the answer depend on what is outside?
		verdict := func(m Msg, name string) string {
			if m.isErr() {
				return "error"
			}
			return fmt.Sprint(m.F)
		}
		// other makes of a name one for which there is nothing outside.
		other := func(t, name string) (string, bool) {
			if t == "" || t == "root" || t == "x" || strings.Contains(name, "root/") || strings.Contains(name, "/x") {
				return "", false
			}
			parts := strings.Split(t, "/")
			for k := range parts {
				if parts[k] != "." && parts[k] != ".." {
					parts[k] = strings.Repeat("Z", len(parts[k]))
				}
			}
			return strings.Replace(name, t, strings.Join(parts, "/"), 1), true
		}
		step := func(what string) {
			n++
			r.eval(fmt.Sprint(what, i%4))
			r.count("hostile requests", 1)
			if n%6 == 0 {
				j.outsideSame(what)
			}
		}
		for _, t := range targets {
			for _, name := range hostileNames(e, t) {
				// attach
				what := fmt.Sprintf("attach %q", name)
				m := e.call(Tattach, uint32(10), uint32(NOFID), "u", name)
				if !m.isErr() {
					j.see(m.F[0].(QID), what)
					follow(10, what)
				}
				if t != "" && t != "root" && t != "x" {
					alt := strings.Replace(name, t, strings.Repeat("Z", len(t)), 1)
					m2 := e.call(Tattach, uint32(10), uint32(NOFID), "u", alt)
					if !m2.isErr() {
						e.call(Tclunk, uint32(10))
					}
					if a, b := verdict(m, name), verdict(m2, alt); a != b {
						r.fail("%s is answered %v but %q, for which nothing exists outside, %v", what, m, alt, m2)
					}
				}
				step(what)
				// walk: as one element, and as the elements it consists of
				for _, from := range []uint32{0, 1, 2, 3} {
					for _, names := range [][]string{{name}, strings.Split(name, "/")} {
						if from > 1 && g.Intn(3) > 0 {
							continue
						}
						what := fmt.Sprintf("walk from fid %d to %q", from, names)
						m := e.call(Twalk, from, uint32(10), names)
						if !m.isErr() {
							qs := m.F[0].([]QID)
							for _, q := range qs {
								j.see(q, what)
							}
							if len(qs) == len(names) {
								follow(10, what)
							}
						}
						if t != "" && t != "root" && t != "x" {
							var alt []string
							for _, s := range names {
								for _, part := range strings.Split(t, "/") {
									s = strings.Replace(s, part, strings.Repeat("Z", len(part)), 1)
								}
								alt = append(alt, s)
							}
							m2 := e.call(Twalk, from, uint32(10), alt)
							if !m2.isErr() && len(m2.F[0].([]QID)) == len(alt) {
								e.call(Tclunk, uint32(10))
							}
							if a, b := verdict(m, ""), verdict(m2, ""); a != b && !strings.Contains(strings.Join(names, "/"), "root/") && !strings.Contains(strings.Join(names, "/"), "/x") {
								r.fail("%s is answered %v but %q, for which nothing exists outside, %v", what, m, alt, m2)
							}
						}
						step(what)
					}
				}
				// create, file and directory
				for _, perm := range []uint32{0644, DMDIR | 0755} {
					from := []uint32{0, 1, 2, 3}[g.Intn(4)]
					what := fmt.Sprintf("create from fid %d of %q, perm %x", from, name, perm)
					e.call(Twalk, from, uint32(11), []string{})
					m := e.call(Tcreate, uint32(11), name, perm, uint8(OWRITE))
					if !m.isErr() {
						e.call(Twrite, uint32(11), uint64(0), []byte("intruder"))
						r.count("creates that stayed inside", 1)
						j.outsideSame(what)
						// A file that was not there, or the change would be seen.
						j.inside[m.F[0].(QID).P] = true
						if g.Intn(2) == 0 {
							e.call(Tremove, uint32(11))
						}
					}
					e.call(Tclunk, uint32(11))
					j.outsideSame(what)
					j.tidy()
					if alt, ok := other(t, name); ok {
						e.call(Twalk, from, uint32(11), []string{})
						m2 := e.call(Tcreate, uint32(11), alt, perm, uint8(OWRITE))
						if m.isErr() != m2.isErr() {
							r.fail("%s is answered %v, of %q, for which nothing exists outside, %v", what, m, alt, m2)
						}
						e.call(Tclunk, uint32(11))
						j.outsideSame(what)
						j.tidy()
						r.count("names tried with nothing outside", 1)
					}
					step(what)
				}
				// rename
				from := []string{"a", "d/f", "d/e/g", "empty", "d"}[g.Intn(5)]
				if _, err := os.Lstat(e.host("/" + from)); err == nil {
					what := fmt.Sprintf("rename of %q to %q", from, name)
					e.call(Twalk, uint32(0), uint32(12), split(from))
					d := noTouch
					d.Name = name
					m := e.call(Twstat, uint32(12), d.encode())
					j.outsideSame(what)
					if !m.isErr() {
						r.count("renames that stayed inside", 1)
						// Back again, and the fid must still be of something inside.
						sm := e.call(Tstat, uint32(12))
						if !sm.isErr() {
							d, _, _ := decodeDir(sm.F[0].([]byte), true)
							j.see(d.QID, what)
						}
						d.Name = "/" + from
						e.call(Twstat, uint32(12), d.encode())
						j.outsideSame(what + " and back")
					}
					e.call(Tclunk, uint32(12))
					j.tidy()
					if alt, ok := other(t, name); ok {
						e.call(Twalk, uint32(0), uint32(12), split(from))
						d := noTouch
						d.Name = alt
						m2 := e.call(Twstat, uint32(12), d.encode())
						if m.isErr() != m2.isErr() {
							r.fail("%s is answered %v, to %q, for which nothing exists outside, %v", what, m, alt, m2)
						}
						if !m2.isErr() {
							d.Name = "/" + from
							e.call(Twstat, uint32(12), d.encode())
						}
						e.call(Tclunk, uint32(12))
						j.outsideSame(what)
						j.tidy()
						r.count("names tried with nothing outside", 1)
					}
					step(what)
				}
			}
		}
		// Across several requests: climbing with a fid of its own.
		for k := 0; k < r.scale(40, 200); k++ {
			e.call(Twalk, uint32(g.Intn(4)), uint32(20), []string{})
			var trail []string
			for s := 0; s < 12; s++ {
				nm := []string{"..", "..", "..", "d", "e", "x", "root", "root2", "secret", ".", "a", "../..", "d/..", "/"}[g.Intn(14)]
				trail = append(trail, nm)
				what := fmt.Sprintf("walk in steps %q", trail)
				var m Msg
				if g.Intn(6) == 0 {
					d := noTouch
					d.Name = nm
					m = e.call(Twstat, uint32(20), d.encode())
					trail[s] = "rename:" + nm
					j.outsideSame(what)
				} else {
					m = e.call(Twalk, uint32(20), uint32(20), []string{nm})
					if !m.isErr() {
						for _, q := range m.F[0].([]QID) {
							j.see(q, what)
						}
					}
				}
				step(what)
			}
			follow(20, fmt.Sprintf("walk in steps %q", trail))
		}
		// The root stays, whatever leads to it.
		j.outsideSame("the walks")
		if i < 3 {
			r.sample("root form %q: attach, walk, create, rename with %d names", forms[i%4], len(targets)*len(hostileNames(e, "x")))
		}
		e.done()
	}
	// Removing and renaming the root, also when it is empty, through all routes.
	for i := 0; i < r.scale(12, 60); i++ {
		for _, op := range []string{"remove", "rename", "rename abs", "rename into"} {
			j := jailOn(r, l, 1000+n, forms[i%4], i%2 == 0)
			n++
			e := j.env
			type route struct {
				aname string
				names []string
			}
			routes := []route{{"", nil}, {"/", nil}, {"..", nil}, {"/../..", nil}, {".", nil}, {"", []string{".."}}, {"", []string{"."}}, {"", []string{"..", ".."}},
				{"", []string{"/"}}, {"d", []string{".."}}, {"", []string{"d", ".."}}, {"", []string{"d", "e", "..", ".."}}, {"", []string{"a", ".."}}, {"", []string{"d/.."}}, {"d/..", nil}, {"", []string{""}}}
			for k, rt := range routes {
				// What else the session does, before it has the fid and after.
				prelude := func() {
					for h := e.g.Intn(4); h > 0; h-- {
						switch e.g.Intn(6) {
						case 0, 1: // it has been somewhere else, which is no more
							e.call(Tattach, uint32(8), uint32(NOFID), "u", "")
							made := e.call(Tcreate, uint32(8), "was", uint32([]uint32{DMDIR | 0755, 0644}[e.g.Intn(2)]), uint8(ORDWR))
							e.call(Tclunk, uint32(8))
							if made.isErr() {
								break
							}
							e.call(Tattach, uint32(8), uint32(NOFID), "u", "was")
							e.call(Tattach, uint32(9), uint32(NOFID), "u", "/was")
							if e.g.Intn(2) == 0 {
								e.call(Tclunk, uint32(9))
							}
							e.call(Tremove, uint32(8))
							e.call(Tremove, uint32(9))
							os.Remove(e.root + "/was")
						case 2:
							e.call(Tattach, uint32(8), uint32(NOFID), "u", "nosuch")
							e.call(Tattach, uint32(5), uint32(5), "u", "")
						case 3:
							e.call(Tversion, uint32(8192), "9P2000")
						case 4: // a file of the root's name
							e.call(Tattach, uint32(8), uint32(NOFID), "u", "d")
							e.call(Twalk, uint32(8), uint32(9), []string{"e"})
							e.call(Tclunk, uint32(8))
							e.call(Tclunk, uint32(9))
						case 5:
							e.call(Tattach, uint32(8), uint32(NOFID), "u", "d")
							e.call(Topen, uint32(8), uint8(OREAD))
							e.call(Tattach, uint32(9), uint32(NOFID), "u", "a")
							e.call(Tclunk, uint32(8))
							e.call(Tclunk, uint32(9))
						}
					}
				}
				prelude()
				m := e.call(Tattach, uint32(5), uint32(NOFID), "u", rt.aname)
				if m.isErr() {
					continue
				}
				fid := uint32(5)
				if rt.names != nil {
					m := e.call(Twalk, uint32(5), uint32(6), rt.names)
					e.call(Tclunk, uint32(5))
					if m.isErr() || len(m.F[0].([]QID)) < len(rt.names) {
						continue
					}
					fid = 6
				}
				prelude()
				what := fmt.Sprintf("%s of the root reached by attach %q and walk %q", op, rt.aname, rt.names)
				ino, err := lstat(e.root)
				r.must(err)
				var m2 Msg
				d := noTouch
				switch op {
				case "remove":
					m2 = e.call(Tremove, fid)
				case "rename":
					d.Name = "newroot"
					m2 = e.call(Twstat, fid, d.encode())
				case "rename abs":
					d.Name = "/newroot"
					m2 = e.call(Twstat, fid, d.encode())
				case "rename into":
					d.Name = "../newroot"
					m2 = e.call(Twstat, fid, d.encode())
				}
				if !m2.isErr() {
					r.fail("%s succeeded", what)
				}
				if now, err := lstat(e.root); err != nil || now.ino != ino.ino {
					r.fail("%s: the root is gone or another directory (%v)", what, err)
				}
				j.outsideSame(what)
				e.call(Tclunk, fid)
				r.count("attacks on the root itself", 1)
				r.eval(fmt.Sprint(what, i%4, i%2, k))
			}
			e.done()
		}
	}
	_ = filepath.Join
	r.need("hostile requests", 3000)
	r.need("identities checked to be inside", 1000)
	r.need("creates that stayed inside", 20)
	r.need("renames that stayed inside", 20)
	r.need("names tried with nothing outside", 300)
	r.need("attacks on the root itself", 100)
}
