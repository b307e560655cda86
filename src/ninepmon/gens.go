package main

// Generators biased to the edges of the wire format.

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"
	"syscall"
)

var edge64 = []uint64{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xffffff, 0x1000000,
	0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 0x7fffffffffff, 0xffffffffffff, 0x1000000000000,
	0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffffe, 0xffffffffffffffff, 0x0102030405060708, 0xf1e2d3c4b5a69788}

func g64(g *rand.Rand) uint64 {
	switch g.Intn(5) {
	case 4:
		return dInt(g)
	case 0:
		return edge64[g.Intn(len(edge64))]
	case 1:
		return 1 << uint(g.Intn(64))
	case 2:
		return g.Uint64() >> uint(g.Intn(64))
	}
	return g.Uint64()
}
func g32(g *rand.Rand) uint32 {
	if g.Intn(3) == 0 {
		return 1 << uint(g.Intn(32))
	}
	return uint32(g64(g))
}
func g16(g *rand.Rand) uint16 {
	if g.Intn(8) == 0 {
		return uint16(dInt(g))
	}
	if g.Intn(3) == 0 {
		return 1 << uint(g.Intn(16))
	}
	return uint16(g64(g))
}
func g8(g *rand.Rand) uint8 {
	if g.Intn(8) == 0 {
		return uint8(dInt(g))
	}
	if g.Intn(2) == 0 {
		return 1 << uint(g.Intn(8))
	}
	return uint8(g.Intn(256))
}

var edgeStr = []string{"", "a", "/", ".", "..", "\x00", "a\x00b", "\xff\xfe", "é世界", "%s%d%v%n%!", "%", "a b", "new\nline", "9P2000", "harvey",
	"/a/../b", strings.Repeat("x", 255), strings.Repeat("y", 256), strings.Repeat("z%v", 100)}

func gStr(g *rand.Rand, max int) string {
	var s string
	switch g.Intn(6) {
	case 5:
		s = dStr(g)
	case 0, 1:
		s = edgeStr[g.Intn(len(edgeStr))]
	case 2:
		s = string(gBytes(g, g.Intn(40)))
	case 3:
		s = string(gBytes(g, []int{126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024}[g.Intn(12)]))
	default:
		s = string(gBytes(g, g.Intn(300)))
	}
	if len(s) > max {
		s = s[:max]
	}
	return s
}

// gErr is an error as file servers return them: one of their own making, with a
// text of any kind, or one of the system's, by itself, wrapped or as text only.
func gErr(g *rand.Rand, max int) error {
	var e error
	switch g.Intn(4) {
	case 0:
		e = sysErrs[g.Intn(len(sysErrs))]
	case 1:
		e = errors.New(sysErrs[g.Intn(len(sysErrs))].Error())
	default:
		return errors.New(gStr(g, max))
	}
	switch g.Intn(8) {
	case 0:
		e = &os.PathError{Op: "open", Path: gStr(g, 100), Err: e}
	case 1:
		e = fmt.Errorf("%w: %w", errors.New(gStr(g, 100)), e)
	}
	if len(e.Error()) > max {
		return errors.New(gStr(g, max))
	}
	return e
}

var sysErrs = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrInvalid, os.ErrClosed, os.ErrDeadlineExceeded,
	net.ErrClosed, context.Canceled, context.DeadlineExceeded, timeoutErr{}, syscall.ENOENT, syscall.EEXIST, syscall.EPERM, syscall.EACCES, syscall.EIO, syscall.EINVAL,
	syscall.ENOTDIR, syscall.EISDIR, syscall.ENOTEMPTY, syscall.ENOSPC, syscall.EAGAIN, syscall.EINTR, syscall.ESPIPE, syscall.EBADF, syscall.EPIPE, syscall.EMFILE}

func gBytes(g *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch g.Intn(4) {
	case 0:
		x := uint8(g.Intn(256))
		for i := range b {
			b[i] = x
		}
	case 1:
		for i := range b {
			b[i] = uint8(i) + uint8(i>>8) + uint8(i>>16)
		}
	default:
		g.Read(b)
	}
	return b
}

func gQID(g *rand.Rand) QID { return QID{g8(g), g32(g), g64(g)} }

// size classes of generated messages
const (
	small = iota
	medium
	large
)

func gLen(g *rand.Rand, size int) int {
	switch size {
	case small:
		return []int{0, 1, 2, 3, 7, 15, 16, 17, 31}[g.Intn(9)]
	case medium:
		return []int{0, 1, 16, 17, 127, 128, 255, 256, 257, 511, 512, 1024, 4096, 8168, 8192, 8193, g.Intn(10000)}[g.Intn(17)]
	}
	return []int{65534, 65535, 65536, 65537, 32767, 32768, 131072, 1<<20 + 7, g.Intn(300000), 70000}[g.Intn(10)]
}

// gMsg makes a message of type t.
func gMsg(g *rand.Rand, t uint8, size int) Msg {
	m := Msg{Type: t, Tag: g16(g)}
	for _, k := range schema[t] {
		switch k {
		case '1':
			m.F = append(m.F, g8(g))
		case '2':
			m.F = append(m.F, g16(g))
		case '4':
			m.F = append(m.F, g32(g))
		case '8':
			m.F = append(m.F, g64(g))
		case 's':
			if size == large && g.Intn(2) == 0 {
				m.F = append(m.F, string(gBytes(g, []int{65535, 65534, 32768, 32767, 4096}[g.Intn(5)])))
			} else {
				m.F = append(m.F, gStr(g, 65535))
			}
		case 'S':
			n := min(gLen(g, size), 65535)
			if size == medium && g.Intn(4) > 0 {
				n = min(n, 300)
			}
			l := make([]string, n)
			for i := range l {
				if n > 1000 {
					l[i] = edgeStr[(i*7)%10]
				} else {
					l[i] = gStr(g, 65535)
				}
			}
			m.F = append(m.F, l)
		case 'q':
			m.F = append(m.F, gQID(g))
		case 'Q':
			n := min(gLen(g, size), 65535)
			l := make([]QID, n)
			for i := range l {
				l[i] = gQID(g)
			}
			m.F = append(m.F, l)
		case 'd':
			m.F = append(m.F, gBytes(g, gLen(g, size)))
		case 'D':
			n := min(gLen(g, size), 65535)
			if g.Intn(3) == 0 {
				d := gDir(g, 300)
				if b := d.encode(); len(b) <= 65535 {
					m.F = append(m.F, b)
					continue
				}
			}
			m.F = append(m.F, gBytes(g, n))
		}
	}
	return m
}

func gDir(g *rand.Rand, max int) Dir {
	return Dir{Type: g16(g), Dev: g32(g), QID: gQID(g), Mode: g32(g), Atime: g32(g), Mtime: g32(g), Length: g64(g),
		Name: gStr(g, max), User: gStr(g, max), Group: gStr(g, max), ModUser: gStr(g, max)}
}

// trailer returns the reply type of a request type.
func rOf(t uint8) uint8 { return t + 1 }
