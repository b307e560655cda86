package main

import (
	"fmt"
	"os"
	"syscall"
)

func setUmask(m int) { syscall.Umask(m) }

func init() {
	checks["C10"] = check{run: c10, level: "exploration"}
}

func c10(r *R) {
	r.rule = "A case is a stretch of ten requests of a random history on the file server, judged request by request against a model of the fids; every few requests all fids and numbers resembling " +
		"them are probed for validity and open state. Distinct: by the requests and replies."
	c10many(r)
	dictCases(r, "C10", false, false)
	longPaths(r, "C10")
	randomCases(r, caseOpts{props: "C10", cases: r.scale(90, 900), steps: 120, w: evenWeights.with("version", 1), special: true, probes: 6})
	r.need("fids valid at once", 5000)
	r.need("fid probes", 3000)
	r.need("Rerror", 500)
}

// c10many: very many fids at once, each denoting what it was established as,
// each open or not, until it is clunked or the session starts anew.
func c10many(r *R) {
	sizes := []int{300, 1100, 5000}
	for _, v := range intsTo(20000) {
		if v > 5000 && len(sizes) < 5 {
			sizes = append(sizes, int(v)+1)
		}
	}
	if r.thorough {
		sizes = append(sizes, 33000, 70000)
	}
	for si, n := range sizes {
		l := newUFS(r, false)
		const files = 40
		e := bench(r, l, fmt.Sprintf("fids%d", n), "C10", 8192, func(e *env) {
			r.must(os.Mkdir(e.root+"/sub", 0755))
			for i := 0; i < files; i++ {
				mkfile(r, fmt.Sprintf("%s/f%d", e.root, i), []byte(fmt.Sprintf("file %d", i)), 0644)
			}
		})
		e.x.log = false
		g := e.g
		inCase(func() {
			type one struct {
				fid  uint32
				file int // -1: the directory
				open bool
			}
			var all []one
			have := map[uint32]bool{1: true}
			opened := 0
			e.call(Tattach, uint32(1), uint32(NOFID), "me", "")
			fail := func(what string) {
				e.bad("C10", "%s, with %d fids valid, %d of them open: %s", e.last, len(all), opened, what)
			}
			valid := func(o one) {
				m := e.call(Tstat, o.fid)
				if m.isErr() {
					fail("the fid is not valid any more")
				}
				d, _, err := decodeDir(m.F[0].([]byte), true)
				want := "sub"
				if o.file >= 0 {
					want = fmt.Sprint("f", o.file)
				}
				if err != nil || d.Name != want {
					fail(fmt.Sprintf("the fid was established as %s", want))
				}
				if o.file < 0 {
					return
				}
				m = e.call(Tread, o.fid, uint64(0), uint32(100))
				if m.isErr() == o.open {
					fail(fmt.Sprintf("the fid is open: %v", o.open))
				}
				if o.open && string(m.F[0].([]byte)) != fmt.Sprint("file ", o.file) {
					fail(fmt.Sprintf("the fid was established as file %d", o.file))
				}
				r.count("fid probes", 1)
			}
			for len(all) < n {
				o := one{fid: uint32(len(all) + 2), file: g.Intn(files)}
				if len(all)%2 == si%2 {
					o.fid = g32(g)
				}
				for o.fid == NOFID || have[o.fid] {
					o.fid = g.Uint32()
				}
				have[o.fid] = true
				var m Msg
				switch k := g.Intn(8); {
				case k == 0 && len(all) > 0: // a clone
					from := all[g.Intn(len(all))]
					o.file = from.file
					m = e.call(Twalk, from.fid, o.fid, []string{})
				case k == 1:
					m = e.call(Tattach, o.fid, uint32(NOFID), "me", fmt.Sprint("/f", o.file))
				case k == 2:
					o.file = -1
					m = e.call(Twalk, uint32(1), o.fid, []string{"sub"})
				default:
					m = e.call(Twalk, uint32(1), o.fid, []string{fmt.Sprint("f", o.file)})
				}
				if m.isErr() {
					fail("a fid could not be established")
				}
				if opened < 1500 && g.Intn(3) == 0 {
					if e.call(Topen, o.fid, uint8(OREAD)).isErr() {
						fail("a fid could not be opened")
					}
					o.open = true
					opened++
				}
				all = append(all, o)
				if len(all)%16 == 0 {
					valid(all[g.Intn(len(all))])
				}
				if len(all)%500 == 0 { // in use is in use
					if o := all[g.Intn(len(all))]; !e.call(Twalk, uint32(1), o.fid, []string{"f0"}).isErr() {
						fail("a fid in use was established again")
					}
				}
			}
			for _, o := range all {
				valid(o)
			}
			r.count("fids valid at once", len(all))
			g.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			gone := all[:n/4]
			for _, o := range gone {
				if e.call(Tclunk, o.fid).isErr() {
					fail("a clunk failed")
				}
			}
			all = all[n/4:]
			for i, o := range all {
				if i%3 == 0 {
					valid(o)
				}
			}
			for i, o := range gone {
				if i%3 == 0 && !e.call(Tstat, o.fid).isErr() {
					fail("the fid was clunked and is valid")
				}
			}
			e.x.rpc(Tversion, uint32(8192), "9P2000")
			for _, o := range all {
				if !e.call(Tstat, o.fid).isErr() {
					fail("the session was restarted and the fid is valid")
				}
			}
			r.eval(fmt.Sprint("fids", n))
		})
		e.fids = map[uint32]*mfid{}
		e.done()
	}
}
