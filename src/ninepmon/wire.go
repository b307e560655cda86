package main

// The reference codec: 9P2000 messages as the protocol's manual pages lay them
// out, written independently of the code under test and driven by one table.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
)

type QID struct {
	T uint8
	V uint32
	P uint64
}

// Msg is a message: F holds the fields in wire order as uint8, uint16, uint32,
// uint64, string, []string, QID, []QID or []byte.
type Msg struct {
	Type uint8
	Tag  uint16
	F    []any
}

const (
	Tversion = 100
	Rversion = 101
	Tauth    = 102
	Tattach  = 104
	Rattach  = 105
	Rerror   = 107
	Tflush   = 108
	Rflush   = 109
	Twalk    = 110
	Rwalk    = 111
	Topen    = 112
	Ropen    = 113
	Tcreate  = 114
	Rcreate  = 115
	Tread    = 116
	Rread    = 117
	Twrite   = 118
	Rwrite   = 119
	Tclunk   = 120
	Rclunk   = 121
	Tremove  = 122
	Rremove  = 123
	Tstat    = 124
	Rstat    = 125
	Twstat   = 126
	Rwstat   = 127

	NOFID = 0xFFFFFFFF
	NOTAG = 0xFFFF
)

// Field kinds: 1 2 4 8 integers, s string, S strings with 16-bit count, q QID,
// Q QIDs with 16-bit count, d data with 32-bit count, D data with 16-bit count.
var schema = map[uint8]string{
	Tversion: "4s", Rversion: "4s",
	Tattach: "44ss", Rattach: "q",
	Rerror: "s",
	Tflush: "2", Rflush: "",
	Twalk: "44S", Rwalk: "Q",
	Topen: "41", Ropen: "q4",
	Tcreate: "4s41", Rcreate: "q4",
	Tread: "484", Rread: "d",
	Twrite: "48d", Rwrite: "4",
	Tclunk: "4", Rclunk: "",
	Tremove: "4", Rremove: "",
	Tstat: "4", Rstat: "D",
	Twstat: "4D", Rwstat: "",
}

var tTypes = []uint8{Tversion, Tattach, Tflush, Twalk, Topen, Tcreate, Tread, Twrite, Tclunk, Tremove, Tstat, Twstat}
var allTypes = []uint8{Tversion, Rversion, Tattach, Rattach, Rerror, Tflush, Rflush, Twalk, Rwalk, Topen, Ropen, Tcreate, Rcreate,
	Tread, Rread, Twrite, Rwrite, Tclunk, Rclunk, Tremove, Rremove, Tstat, Rstat, Twstat, Rwstat}

var typeNames = map[uint8]string{Tversion: "Tversion", Rversion: "Rversion", Tattach: "Tattach", Rattach: "Rattach", Rerror: "Rerror",
	Tflush: "Tflush", Rflush: "Rflush", Twalk: "Twalk", Rwalk: "Rwalk", Topen: "Topen", Ropen: "Ropen", Tcreate: "Tcreate", Rcreate: "Rcreate",
	Tread: "Tread", Rread: "Rread", Twrite: "Twrite", Rwrite: "Rwrite", Tclunk: "Tclunk", Rclunk: "Rclunk", Tremove: "Tremove",
	Rremove: "Rremove", Tstat: "Tstat", Rstat: "Rstat", Twstat: "Twstat", Rwstat: "Rwstat"}

func tname(t uint8) string {
	if n, ok := typeNames[t]; ok {
		return n
	}
	return fmt.Sprintf("type%d", t)
}

func putStr(b []byte, s string) []byte {
	b = binary.LittleEndian.AppendUint16(b, uint16(len(s)))
	return append(b, s...)
}

func putQID(b []byte, q QID) []byte {
	b = append(b, q.T)
	b = binary.LittleEndian.AppendUint32(b, q.V)
	return binary.LittleEndian.AppendUint64(b, q.P)
}

// body encodes the fields only.
func (m Msg) body() []byte {
	var b []byte
	for i, k := range schema[m.Type] {
		switch k {
		case '1':
			b = append(b, m.F[i].(uint8))
		case '2':
			b = binary.LittleEndian.AppendUint16(b, m.F[i].(uint16))
		case '4':
			b = binary.LittleEndian.AppendUint32(b, m.F[i].(uint32))
		case '8':
			b = binary.LittleEndian.AppendUint64(b, m.F[i].(uint64))
		case 's':
			b = putStr(b, m.F[i].(string))
		case 'S':
			l := m.F[i].([]string)
			b = binary.LittleEndian.AppendUint16(b, uint16(len(l)))
			for _, s := range l {
				b = putStr(b, s)
			}
		case 'q':
			b = putQID(b, m.F[i].(QID))
		case 'Q':
			l := m.F[i].([]QID)
			b = binary.LittleEndian.AppendUint16(b, uint16(len(l)))
			for _, q := range l {
				b = putQID(b, q)
			}
		case 'd':
			d := m.F[i].([]byte)
			b = binary.LittleEndian.AppendUint32(b, uint32(len(d)))
			b = append(b, d...)
		case 'D':
			d := m.F[i].([]byte)
			b = binary.LittleEndian.AppendUint16(b, uint16(len(d)))
			b = append(b, d...)
		}
	}
	return b
}

// frame is the whole message as it goes over the wire.
func (m Msg) frame() []byte { return rawFrame(m.Type, m.Tag, m.body()) }

func rawFrame(typ uint8, tag uint16, body []byte) []byte {
	b := make([]byte, 0, 7+len(body))
	b = binary.LittleEndian.AppendUint32(b, uint32(7+len(body)))
	b = append(b, typ)
	b = binary.LittleEndian.AppendUint16(b, tag)
	return append(b, body...)
}

var errShort = errors.New("message cut short")
var errLong = errors.New("bytes left over")

type rd struct {
	b   []byte
	err error
}

func (r *rd) take(n int) []byte {
	if r.err != nil {
		return make([]byte, min(n, 16))
	}
	if n > len(r.b) {
		r.err = errShort
		return make([]byte, min(n, 16))
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *rd) u8() uint8   { return r.take(1)[0] }
func (r *rd) u16() uint16 { return binary.LittleEndian.Uint16(r.take(2)) }
func (r *rd) u32() uint32 { return binary.LittleEndian.Uint32(r.take(4)) }
func (r *rd) u64() uint64 { return binary.LittleEndian.Uint64(r.take(8)) }
func (r *rd) str() string {
	n := r.u16()
	if r.err != nil {
		return ""
	}
	return string(r.take(int(n)))
}
func (r *rd) qid() QID { return QID{r.u8(), r.u32(), r.u64()} }

// decodeBody decodes the fields of a message of type t, strictly.
func decodeBody(t uint8, body []byte) ([]any, error) {
	r := &rd{b: body}
	var f []any
	for _, k := range schema[t] {
		switch k {
		case '1':
			f = append(f, r.u8())
		case '2':
			f = append(f, r.u16())
		case '4':
			f = append(f, r.u32())
		case '8':
			f = append(f, r.u64())
		case 's':
			f = append(f, r.str())
		case 'S':
			n := int(r.u16())
			l := []string{}
			for i := 0; i < n && r.err == nil; i++ {
				l = append(l, r.str())
			}
			f = append(f, l)
		case 'q':
			f = append(f, r.qid())
		case 'Q':
			n := int(r.u16())
			l := []QID{}
			for i := 0; i < n && r.err == nil; i++ {
				l = append(l, r.qid())
			}
			f = append(f, l)
		case 'd':
			n := r.u32()
			if r.err == nil && uint64(n) > uint64(len(r.b)) {
				r.err = errShort
			}
			if r.err == nil {
				f = append(f, r.take(int(n)))
			}
		case 'D':
			n := r.u16()
			if r.err == nil && int(n) > len(r.b) {
				r.err = errShort
			}
			if r.err == nil {
				f = append(f, r.take(int(n)))
			}
		}
		if r.err != nil {
			return nil, r.err
		}
	}
	if len(r.b) > 0 {
		return nil, errLong
	}
	return f, nil
}

// decodeFrame decodes a complete frame, strictly.
func decodeFrame(b []byte) (Msg, error) {
	if len(b) < 7 {
		return Msg{}, errShort
	}
	if n := binary.LittleEndian.Uint32(b); uint64(n) != uint64(len(b)) {
		return Msg{}, fmt.Errorf("size field %d, frame of %d bytes", n, len(b))
	}
	m := Msg{Type: b[4], Tag: binary.LittleEndian.Uint16(b[5:])}
	if _, ok := schema[m.Type]; !ok {
		return m, fmt.Errorf("unknown message type %d", m.Type)
	}
	var err error
	m.F, err = decodeBody(m.Type, b[7:])
	return m, err
}

// Dir is a directory entry, the "stat" of the manual.
type Dir struct {
	Type    uint16
	Dev     uint32
	QID     QID
	Mode    uint32
	Atime   uint32
	Mtime   uint32
	Length  uint64
	Name    string
	User    string
	Group   string
	ModUser string
}

var noTouch = Dir{Type: 0xFFFF, Dev: 0xFFFFFFFF, QID: QID{0xFF, 0xFFFFFFFF, 0xFFFFFFFFFFFFFFFF}, Mode: 0xFFFFFFFF,
	Atime: 0xFFFFFFFF, Mtime: 0xFFFFFFFF, Length: 0xFFFFFFFFFFFFFFFF}

func (d Dir) encode() []byte {
	b := []byte{0, 0}
	b = binary.LittleEndian.AppendUint16(b, d.Type)
	b = binary.LittleEndian.AppendUint32(b, d.Dev)
	b = putQID(b, d.QID)
	b = binary.LittleEndian.AppendUint32(b, d.Mode)
	b = binary.LittleEndian.AppendUint32(b, d.Atime)
	b = binary.LittleEndian.AppendUint32(b, d.Mtime)
	b = binary.LittleEndian.AppendUint64(b, d.Length)
	b = putStr(b, d.Name)
	b = putStr(b, d.User)
	b = putStr(b, d.Group)
	b = putStr(b, d.ModUser)
	binary.LittleEndian.PutUint16(b, uint16(len(b)-2))
	return b
}

// decodeDir decodes one entry from the front of b and returns how long it is by
// its fields. The size prefix has to agree if strict.
func decodeDir(b []byte, strict bool) (Dir, int, error) {
	r := &rd{b: b}
	n := r.u16()
	d := Dir{Type: r.u16(), Dev: r.u32(), QID: r.qid(), Mode: r.u32(), Atime: r.u32(), Mtime: r.u32(), Length: r.u64()}
	d.Name = r.str()
	d.User = r.str()
	d.Group = r.str()
	d.ModUser = r.str()
	if r.err != nil {
		return d, 0, r.err
	}
	l := len(b) - len(r.b)
	if strict && l != int(n)+2 {
		return d, l, fmt.Errorf("entry says %d bytes, its fields take %d", n, l-2)
	}
	return d, l, nil
}

// abbrev renders a value for reports without flooding them.
func abbrev(v any) string {
	var s string
	switch x := v.(type) {
	case []byte:
		if len(x) > 24 {
			return fmt.Sprintf("[%d bytes %x...]", len(x), x[:24])
		}
		return fmt.Sprintf("%x", x)
	case string:
		if len(x) > 60 {
			return fmt.Sprintf("%q...(%d)", x[:60], len(x))
		}
		return fmt.Sprintf("%q", x)
	case []string:
		if len(x) > 8 {
			return fmt.Sprintf("%q...(%d names)", x[:8], len(x))
		}
		var l []string
		for _, e := range x {
			l = append(l, abbrev(e))
		}
		return "[" + strings.Join(l, " ") + "]"
	case []QID:
		if len(x) > 4 {
			return fmt.Sprintf("%v...(%d qids)", x[:4], len(x))
		}
	}
	s = fmt.Sprintf("%v", v)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func (m Msg) String() string {
	var l []string
	for _, f := range m.F {
		l = append(l, abbrev(f))
	}
	return fmt.Sprintf("%s tag=%d(%s)", tname(m.Type), m.Tag, strings.Join(l, ", "))
}

func fieldsStr(f []any) string {
	var l []string
	for _, x := range f {
		l = append(l, abbrev(x))
	}
	return "(" + strings.Join(l, ", ") + ")"
}

func eqField(a, b any) bool {
	switch x := a.(type) {
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	case []string:
		y, ok := b.([]string)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	case []QID:
		y, ok := b.([]QID)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	}
	return a == b
}

func eqFields(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqField(a[i], b[i]) {
			return false
		}
	}
	return true
}
