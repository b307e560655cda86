package main

// C01 and C02: the codec against the reference codec.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"

	p "github.com/Harvey-OS/ninep/protocol"
)

func init() {
	checks["C01"] = check{run: c01, level: "exploration"}
	checks["C02"] = check{run: c02, level: "exploration"}
}

// dirtyBuf returns a buffer that has a past.
func dirtyBuf(g *rand.Rand) *bytes.Buffer {
	switch g.Intn(4) {
	case 0:
		return &bytes.Buffer{}
	case 1: // unread bytes
		return bytes.NewBuffer(gBytes(g, g.Intn(200)))
	case 2: // partly read, with room
		b := bytes.NewBuffer(make([]byte, 0, 4096))
		b.Write(gBytes(g, 1+g.Intn(300)))
		b.Next(g.Intn(b.Len() + 1))
		return b
	}
	b := &bytes.Buffer{} // full of an older message
	b.Write(gMsg(g, allTypes[g.Intn(len(allTypes))], small).frame())
	return b
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

// judgeCodec encodes and decodes m.
func judgeCodec(r *R, g *rand.Rand, m Msg, buf *bytes.Buffer) {
	want := m.frame()
	r.guard("encoding "+m.String(), func() { sutMarshal(buf, m) })
	got := buf.Bytes()
	if !bytes.Equal(got, want) {
		i := firstDiff(got, want)
		r.fail("%v encodes as %d bytes, the layout has %d; they differ at byte %d: got %s want %s", m, len(got), len(want), i,
			abbrev(got[min(i, len(got)):]), abbrev(want[min(i, len(want)):]))
	}
	// Decode bytes that are ours, in an array that goes on.
	in := make([]byte, len(want)-5, len(want)-5+g.Intn(64))
	copy(in, want[5:])
	var f []any
	var tag uint16
	var err error
	r.guard("decoding "+m.String(), func() { f, tag, err = sutUnmarshal(m.Type, bytes.NewBuffer(in)) })
	if err != nil {
		r.fail("%v does not decode: %v", m, err)
	}
	if tag != m.Tag || !eqFields(f, m.F) {
		r.fail("%v decodes as tag=%d%s", m, tag, fieldsStr(f))
	}
	// And what the encoder made.
	r.guard("decoding "+m.String(), func() { f, tag, err = sutUnmarshal(m.Type, bytes.NewBuffer(append([]byte{}, got[5:]...))) })
	if err != nil || tag != m.Tag || !eqFields(f, m.F) {
		r.fail("%v does not round-trip: tag=%d%s %v", m, tag, fieldsStr(f), err)
	}
	r.count("messages encoded and decoded", 1)
	r.count(tname(m.Type), 1)
	key := ""
	if len(want) > 7 {
		key = string(want[4:min(len(want), 300)]) + fmt.Sprint(len(want))
	}
	r.eval(key)
}

func judgeDir(r *R, g *rand.Rand, d Dir, buf *bytes.Buffer) {
	want := d.encode()
	r.guard("encoding an entry", func() { p.Marshaldir(buf, toDir(d)) })
	if got := buf.Bytes(); !bytes.Equal(got, want) {
		i := firstDiff(got, want)
		r.fail("directory entry %+v encodes as %d bytes, the layout has %d; they differ at byte %d", d, len(got), len(want), i)
	}
	var pd p.Dir
	var err error
	in := make([]byte, len(want), len(want)+g.Intn(64))
	copy(in, want)
	r.guard("decoding an entry", func() { pd, err = p.Unmarshaldir(bytes.NewBuffer(in)) })
	if err != nil || fromDir(pd) != d {
		r.fail("directory entry %+v decodes as %+v, %v", d, fromDir(pd), err)
	}
	r.count("directory entries encoded and decoded", 1)
	r.eval(string(want))
}

func zeroMsg(t uint8) Msg {
	m := Msg{Type: t}
	for _, k := range schema[t] {
		m.F = append(m.F, map[rune]any{'1': uint8(0), '2': uint16(0), '4': uint32(0), '8': uint64(0), 's': "", 'S': []string{}, 'q': QID{}, 'Q': []QID{},
			'd': []byte{}, 'D': []byte{}}[k])
	}
	return m
}

func withField(m Msg, i int, v any) Msg {
	f := append([]any{}, m.F...)
	f[i] = v
	m.F = f
	return m
}

// sweep calls f with messages of type t in which one field takes every
// single-bit value or every interesting length.
func sweep(g *rand.Rand, t uint8, base Msg, f func(Msg)) {
	for b := 0; b < 16; b++ {
		m := base
		m.Tag = 1 << uint(b)
		f(m)
	}
	for i, k := range schema[t] {
		switch k {
		case '1':
			for v := 0; v < 256; v++ {
				f(withField(base, i, uint8(v)))
			}
		case '2':
			for b := 0; b < 16; b++ {
				f(withField(base, i, uint16(1)<<uint(b)))
				f(withField(base, i, ^(uint16(1) << uint(b))))
			}
		case '4':
			for b := 0; b < 32; b++ {
				f(withField(base, i, uint32(1)<<uint(b)))
				f(withField(base, i, ^(uint32(1) << uint(b))))
			}
		case '8':
			for b := 0; b < 64; b++ {
				f(withField(base, i, uint64(1)<<uint(b)))
				f(withField(base, i, ^(uint64(1) << uint(b))))
			}
		case 's':
			for n := 0; n < 300; n++ {
				f(withField(base, i, string(gBytes(g, n))))
			}
			for c := 0; c < 256; c++ {
				f(withField(base, i, string([]byte{byte(c)})))
			}
			for b := 8; b <= 16; b++ {
				for d := -1; d <= 1; d++ {
					if n := 1<<uint(b) + d; n <= 65535 {
						f(withField(base, i, string(gBytes(g, n))))
					}
				}
			}
		case 'S':
			for n := 0; n < 70; n++ {
				f(withField(base, i, gNames(g, n)))
			}
			for _, n := range []int{127, 128, 255, 256, 257, 511, 512, 4095, 4096, 32767, 32768, 65534, 65535} {
				f(withField(base, i, gNames(g, n)))
			}
		case 'q':
			for b := 0; b < 8; b++ {
				f(withField(base, i, QID{T: 1 << uint(b)}))
			}
			for b := 0; b < 32; b++ {
				f(withField(base, i, QID{V: 1 << uint(b)}))
			}
			for b := 0; b < 64; b++ {
				f(withField(base, i, QID{P: 1 << uint(b)}))
			}
		case 'Q':
			for n := 0; n < 70; n++ {
				f(withField(base, i, gQIDs(g, n)))
			}
			for _, n := range []int{127, 128, 255, 256, 257, 511, 512, 4095, 4096, 32767, 32768, 65534, 65535} {
				f(withField(base, i, gQIDs(g, n)))
			}
		case 'd', 'D':
			for n := 0; n < 300; n++ {
				f(withField(base, i, gBytes(g, n)))
			}
			for b := 9; b <= 21; b++ {
				for d := -1; d <= 1; d++ {
					if n := 1<<uint(b) + d; n <= 65535 || k == 'd' {
						f(withField(base, i, gBytes(g, n)))
					}
				}
			}
		}
	}
}

func gNames(g *rand.Rand, n int) []string {
	l := make([]string, n)
	for i := range l {
		l[i] = edgeStr[g.Intn(15)]
	}
	return l
}

func gQIDs(g *rand.Rand, n int) []QID {
	l := make([]QID, n)
	for i := range l {
		l[i] = gQID(g)
	}
	return l
}

func c01(r *R) {
	r.rule = "A case is a message of one of the 25 types (or a directory entry) with generated field values, encoded by the code under test into a fresh, dirty or reused buffer " +
		"and compared byte for byte with a reference encoder, then decoded and compared field for field. Sweeps set every bit of every integer field, every byte value of " +
		"8-bit fields and all lengths to 300 and around powers of two; the rest is random. Non-trivial: it has at least one field; distinct: by its bytes."
	g := r.rng
	shared := &bytes.Buffer{}
	for _, t := range allTypes {
		sweep(g, t, zeroMsg(t), func(m Msg) { judgeCodec(r, g, m, shared) })
		base := gMsg(g, t, small)
		sweep(g, t, base, func(m Msg) { judgeCodec(r, g, m, dirtyBuf(g)) })
		for i := 0; i < r.scale(1500, 60000); i++ {
			m := gMsg(g, t, small)
			judgeCodec(r, g, m, dirtyBuf(g))
			if i < 1 {
				r.sample("%v", m)
			}
		}
		for i := 0; i < r.scale(150, 4000); i++ {
			judgeCodec(r, g, gMsg(g, t, medium), shared)
		}
		for i := 0; i < r.scale(12, 200); i++ {
			judgeCodec(r, g, gMsg(g, t, large), dirtyBuf(g))
		}
		if t == Twrite || t == Rread {
			for _, n := range []int{1<<24 - 1, 1<<24 + 12345} { // the top byte of the size
				m := withField(gMsg(g, t, small), len(schema[t])-1, gBytes(g, n))
				judgeCodec(r, g, m, shared)
				shared = &bytes.Buffer{}
			}
		}
	}
	// Every tag.
	for tag := 0; tag < 65536; tag++ {
		m := gMsg(g, allTypes[tag%len(allTypes)], small)
		m.Tag = uint16(tag)
		judgeCodec(r, g, m, shared)
	}
	for i := 0; i < r.scale(4000, 100000); i++ {
		judgeDir(r, g, gDir(g, 65535), dirtyBuf(g))
	}
	dirSweep(g, func(d Dir) { judgeDir(r, g, d, shared) })
	r.need("messages encoded and decoded", 50000)
	r.need("directory entries encoded and decoded", 4000)
}

func dirSweep(g *rand.Rand, f func(Dir)) {
	for b := 0; b < 64; b++ {
		f(Dir{Length: 1 << uint(b)})
		f(Dir{QID: QID{P: 1 << uint(b)}})
		if b < 32 {
			f(Dir{Dev: 1 << uint(b)})
			f(Dir{QID: QID{V: 1 << uint(b)}})
			f(Dir{Mode: 1 << uint(b)})
			f(Dir{Atime: 1 << uint(b)})
			f(Dir{Mtime: 1 << uint(b)})
		}
		if b < 16 {
			f(Dir{Type: 1 << uint(b)})
		}
		if b < 8 {
			f(Dir{QID: QID{T: 1 << uint(b)}})
		}
	}
	f(noTouch)
	for n := 0; n < 300; n++ {
		s := string(gBytes(g, n))
		f(Dir{Name: s})
		f(Dir{User: s})
		f(Dir{Group: s})
		f(Dir{ModUser: s})
	}
	for _, n := range []int{4095, 4096, 32767, 32768, 65000, 65535 - 47} {
		s := string(gBytes(g, n))
		f(Dir{Name: s})
		f(Dir{ModUser: s})
	}
}

// judgeDecode decodes arbitrary bytes: in starts at the tag.
func judgeDecode(r *R, t uint8, in []byte, why string) {
	var f []any
	var tag uint16
	var err error
	what := fmt.Sprintf("decoding %s from %s (%s)", tname(t), abbrev(in), why)
	for k, buf := range tails(in) {
		var f2 []any
		var tag2 uint16
		var err2 error
		r.guard(what, func() { f2, tag2, err2 = sutUnmarshal(t, bytes.NewBuffer(buf)) })
		if k == 0 {
			f, tag, err = f2, tag2, err2
			continue
		}
		// What lies behind the message in memory must not matter.
		r.count("decoded again with other bytes behind the message", 1)
		if (err == nil) != (err2 == nil) || tag != tag2 || !eqFields(f, f2) {
			r.fail("%s: the result depends on what is behind the message in memory: tag=%d%s %v or tag=%d%s %v", what, tag, fieldsStr(f), err, tag2, fieldsStr(f2), err2)
		}
	}
	var want []any
	var werr error = errShort
	var wtag uint16
	if len(in) >= 2 {
		wtag = binary.LittleEndian.Uint16(in)
		want, werr = decodeBody(t, in[2:])
	}
	switch {
	case err == nil && werr != nil:
		r.fail("%s: decoding malformed %s %s (%v) reports success: tag=%d%s", why, tname(t), abbrev(in), werr, tag, fieldsStr(f))
	case err == nil && (tag != wtag || !eqFields(f, want)):
		r.fail("%s: decoding %s %s gives tag=%d%s, the layout says tag=%d%s", why, tname(t), abbrev(in), tag, fieldsStr(f), wtag, fieldsStr(want))
	}
	key := ""
	if werr != nil {
		r.count("malformed inputs", 1)
		r.count("malformed: "+why, 1)
		key = string(t) + string(in[:min(len(in), 400)]) + fmt.Sprint(len(in))
	} else {
		r.count("well-formed inputs", 1)
	}
	if err != nil {
		r.count("inputs rejected", 1)
	}
	r.eval(key)
}

// tails are buffers holding in: one which ends there, and (unless in is long,
// then one of them in turn) one where the array goes on with zeros and one where
// it goes on with bytes that look like more message.
func tails(in []byte) [][]byte {
	var bufs [][]byte
	for k := 0; k < 3; k++ {
		if len(in) > 600 && k != len(in)%3 {
			continue
		}
		full := make([]byte, len(in)+40)
		copy(full, in)
		switch k {
		case 0:
			full = append(make([]byte, 0, len(in)), in...)
			full = full[:len(in):len(in)]
		case 1:
			for i := len(in); i < len(full); i++ {
				full[i] = 0xA5
			}
		}
		bufs = append(bufs, full[:len(in)])
	}
	return bufs
}

func judgeDirDecode(r *R, in []byte, why string) {
	var pd p.Dir
	var err error
	for k, buf := range tails(in) {
		var pd2 p.Dir
		var err2 error
		r.guard("decoding a directory entry from "+abbrev(in), func() { pd2, err2 = p.Unmarshaldir(bytes.NewBuffer(buf)) })
		if k == 0 {
			pd, err = pd2, err2
		} else if (err == nil) != (err2 == nil) || fromDir(pd) != fromDir(pd2) {
			r.fail("decoding a directory entry from %s: the result depends on what is behind it in memory: %+v %v or %+v %v", abbrev(in), fromDir(pd), err, fromDir(pd2), err2)
		}
	}
	want, _, werr := decodeDir(in, false)
	if err == nil && werr != nil {
		r.fail("%s: decoding a directory entry cut short, %s, reports success: %+v", why, abbrev(in), fromDir(pd))
	}
	if err == nil && fromDir(pd) != want {
		r.fail("%s: decoding directory entry %s gives %+v, the layout says %+v", why, abbrev(in), fromDir(pd), want)
	}
	if werr != nil {
		r.count("malformed directory entries", 1)
	}
	r.eval("dir" + string(in))
}

// mutate changes well-formed bytes.
func mutate(g *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + g.Intn(3); n > 0; n-- {
		if len(b) == 0 {
			b = append(b, gBytes(g, 1+g.Intn(4))...)
			continue
		}
		i := g.Intn(len(b))
		switch g.Intn(8) {
		case 0:
			b[i] ^= 1 << uint(g.Intn(8))
		case 1:
			b[i] = []byte{0, 1, 0x7f, 0x80, 0xff}[g.Intn(5)]
		case 2:
			b[i]++
		case 3:
			b[i]--
		case 4:
			b = append(b[:i], b[i+1:]...)
		case 5:
			b = append(b[:i], append(gBytes(g, 1+g.Intn(3)), b[i:]...)...)
		case 6:
			b = b[:i]
		case 7:
			b = append(b, gBytes(g, 1+g.Intn(5))...)
		}
	}
	return b
}

func c02(r *R) {
	r.rule = "A case is a byte sequence decoded as one message type (or directory entry) by the code under test and by a strict reference decoder: success of the former has to mean " +
		"success of the latter with the same values. Inputs: every truncation and several extensions of generated messages, every byte replaced by edge values, " +
		"32-bit and 16-bit lengths overwritten with edge values, all inputs of up to 2 bytes, random bytes, random mutations, bodies of other types; the backing array " +
		"continues past the message. Non-trivial: malformed; distinct: by type and bytes."
	g := r.rng
	for _, t := range allTypes {
		judgeDecode(r, t, nil, "empty")
		for a := 0; a < 256; a++ {
			judgeDecode(r, t, []byte{byte(a)}, "one byte")
			judgeDecode(r, t, []byte{byte(a), byte(g.Intn(256))}, "tag only")
		}
		for i := 0; i < r.scale(40, 400); i++ {
			m := gMsg(g, t, small)
			if i == 0 {
				m = zeroMsg(t)
			}
			w := m.frame()[5:]
			if i < 2 {
				r.sample("%s and what is made of it: %s", tname(t), abbrev(w))
			}
			for n := 0; n <= len(w); n++ {
				if n > 300 && n < len(w)-80 && g.Intn(10) > 0 {
					continue
				}
				judgeDecode(r, t, w[:n], "cut short")
			}
			for _, n := range []int{1, 2, 3, 4, 7, 8, 13, 255, 256, 65536} {
				if n > 300 && i > 3 {
					continue
				}
				judgeDecode(r, t, append(append([]byte{}, w...), make([]byte, n)...), "zeros left over")
				judgeDecode(r, t, append(append([]byte{}, w...), gBytes(g, n)...), "bytes left over")
			}
			for n := range w {
				if n > 100 && g.Intn(20) > 0 {
					continue
				}
				for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff, w[n] + 1, w[n] - 1} {
					x := append([]byte{}, w...)
					x[n] = v
					judgeDecode(r, t, x, "byte changed")
				}
				for _, v := range []uint32{0, 1, 0x7fff, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff, uint32(len(w)), uint32(len(w) - n), uint32(len(w) - n - 4), uint32(len(w)-n-4) + 1} {
					x := append([]byte{}, w...)
					if n+4 <= len(x) {
						binary.LittleEndian.PutUint32(x[n:], v)
						judgeDecode(r, t, x, "length changed")
					}
					if n+2 <= len(x) {
						x = append([]byte{}, w...)
						binary.LittleEndian.PutUint16(x[n:], uint16(v))
						judgeDecode(r, t, x, "length changed")
					}
				}
			}
			for _, t2 := range allTypes {
				judgeDecode(r, t2, w, "body of another type")
			}
		}
		for i := 0; i < r.scale(3000, 200000); i++ {
			judgeDecode(r, t, gBytes(g, g.Intn(60)), "random bytes")
			judgeDecode(r, t, mutate(g, gMsg(g, t, small).frame()[5:]), "mutated")
		}
		for i := 0; i < r.scale(6, 60); i++ {
			w := gMsg(g, t, large).frame()[5:]
			judgeDecode(r, t, w[:g.Intn(len(w)+1)], "long, cut short")
			judgeDecode(r, t, append(append([]byte{}, w...), 0), "long, left over")
			judgeDecode(r, t, mutate(g, w), "long, mutated")
		}
	}
	// Data and strings that are one short or one long at the boundaries of
	// their counts.
	for _, n := range []int{127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 131071, 131072, 1 << 20} {
		d := gBytes(g, n)
		for _, m := range []Msg{{Type: Rread, F: []any{d}}, {Type: Twrite, F: []any{uint32(1), uint64(2), d}}} {
			w := m.frame()[5:]
			judgeDecode(r, m.Type, w[:len(w)-1], "data one short")
			judgeDecode(r, m.Type, append(append([]byte{}, w...), 7), "data one long")
		}
		if n <= 65535 {
			for _, m := range []Msg{{Type: Rstat, F: []any{d}}, {Type: Twstat, F: []any{uint32(1), d}}, {Type: Rerror, F: []any{string(d)}},
				{Type: Tversion, F: []any{uint32(1), string(d)}}, {Type: Rversion, F: []any{uint32(1), string(d)}},
				{Type: Tattach, F: []any{uint32(1), uint32(2), "u", string(d)}}, {Type: Tattach, F: []any{uint32(1), uint32(2), string(d), ""}},
				{Type: Twalk, F: []any{uint32(1), uint32(2), []string{string(d)}}}, {Type: Tcreate, F: []any{uint32(1), string(d), uint32(0), uint8(0)}}} {
				w := m.frame()[5:]
				judgeDecode(r, m.Type, w[:len(w)-1], "data one short")
				judgeDecode(r, m.Type, append(append([]byte{}, w...), 7), "data one long")
			}
			for _, m := range []Msg{{Type: Twalk, F: []any{uint32(1), uint32(2), gNames(g, n)}}, {Type: Rwalk, F: []any{gQIDs(g, n)}}} {
				w := m.frame()[5:]
				judgeDecode(r, m.Type, w[:len(w)-1], "list one short")
				judgeDecode(r, m.Type, append(append([]byte{}, w...), 7), "list one long")
				judgeDecode(r, m.Type, w[:len(w)-13], "list one element short")
			}
		}
	}
	for i := 0; i < r.scale(60, 1500); i++ {
		w := gDir(g, 60).encode()
		for n := 0; n <= len(w); n++ {
			judgeDirDecode(r, w[:n], "cut short")
		}
		for n := range w {
			x := append([]byte{}, w...)
			x[n] = []byte{0, 0xff, w[n] + 1, 0x80}[g.Intn(4)]
			judgeDirDecode(r, x, "byte changed")
		}
	}
	for i := 0; i < r.scale(10000, 300000); i++ {
		judgeDirDecode(r, mutate(g, gDir(g, 300).encode()), "mutated")
		judgeDirDecode(r, gBytes(g, g.Intn(120)), "random bytes")
	}
	r.need("malformed inputs", 50000)
	r.need("well-formed inputs", 1000)
	r.need("malformed directory entries", 5000)
	for _, w := range []string{"cut short", "bytes left over", "length changed", "mutated"} {
		r.need("malformed: "+w, 1000)
	}
}
