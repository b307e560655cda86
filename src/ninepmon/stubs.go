package main

// The one place that names the exported API of the code under test: encoders,
// decoders, client calls and the file server interface, as tables by type.

import (
	"bytes"

	p "github.com/Harvey-OS/ninep/protocol"
)

func toQ(q QID) p.QID   { return p.QID{Type: q.T, Version: q.V, Path: q.P} }
func fromQ(q p.QID) QID { return QID{q.Type, q.Version, q.Path} }
func toQs(l []QID) []p.QID {
	r := make([]p.QID, 0, len(l))
	for _, q := range l {
		r = append(r, toQ(q))
	}
	return r
}
func fromQs(l []p.QID) []QID {
	r := make([]QID, 0, len(l))
	for _, q := range l {
		r = append(r, fromQ(q))
	}
	return r
}
func toDir(d Dir) p.Dir {
	return p.Dir{Type: d.Type, Dev: d.Dev, QID: toQ(d.QID), Mode: d.Mode, Atime: d.Atime, Mtime: d.Mtime, Length: d.Length,
		Name: d.Name, User: d.User, Group: d.Group, ModUser: d.ModUser}
}
func fromDir(d p.Dir) Dir {
	return Dir{Type: d.Type, Dev: d.Dev, QID: fromQ(d.QID), Mode: d.Mode, Atime: d.Atime, Mtime: d.Mtime, Length: d.Length,
		Name: d.Name, User: d.User, Group: d.Group, ModUser: d.ModUser}
}

func fid(v any) p.FID       { return p.FID(v.(uint32)) }
func str(v any) string      { return v.(string) }
func u32(v any) uint32      { return v.(uint32) }
func byt(v any) []byte      { return v.([]byte) }
func msz(v any) p.MaxSize   { return p.MaxSize(v.(uint32)) }
func off(v any) p.Offset    { return p.Offset(v.(uint64)) }
func cnt(v any) p.Count     { return p.Count(int32(v.(uint32))) }
func fcnt(c p.Count) uint32 { return uint32(int32(c)) }

// sutMarshal encodes with the code under test.
func sutMarshal(b *bytes.Buffer, m Msg) {
	t, f := p.Tag(m.Tag), m.F
	switch m.Type {
	case Tversion:
		p.MarshalTversionPkt(b, t, msz(f[0]), str(f[1]))
	case Rversion:
		p.MarshalRversionPkt(b, t, msz(f[0]), str(f[1]))
	case Tattach:
		p.MarshalTattachPkt(b, t, fid(f[0]), fid(f[1]), str(f[2]), str(f[3]))
	case Rattach:
		p.MarshalRattachPkt(b, t, toQ(f[0].(QID)))
	case Rerror:
		p.MarshalRerrorPkt(b, t, str(f[0]))
	case Tflush:
		p.MarshalTflushPkt(b, t, p.Tag(f[0].(uint16)))
	case Rflush:
		p.MarshalRflushPkt(b, t)
	case Twalk:
		p.MarshalTwalkPkt(b, t, fid(f[0]), fid(f[1]), f[2].([]string))
	case Rwalk:
		p.MarshalRwalkPkt(b, t, toQs(f[0].([]QID)))
	case Topen:
		p.MarshalTopenPkt(b, t, fid(f[0]), p.Mode(f[1].(uint8)))
	case Ropen:
		p.MarshalRopenPkt(b, t, toQ(f[0].(QID)), msz(f[1]))
	case Tcreate:
		p.MarshalTcreatePkt(b, t, fid(f[0]), str(f[1]), p.Perm(u32(f[2])), p.Mode(f[3].(uint8)))
	case Rcreate:
		p.MarshalRcreatePkt(b, t, toQ(f[0].(QID)), msz(f[1]))
	case Tread:
		p.MarshalTreadPkt(b, t, fid(f[0]), off(f[1]), cnt(f[2]))
	case Rread:
		p.MarshalRreadPkt(b, t, byt(f[0]))
	case Twrite:
		p.MarshalTwritePkt(b, t, fid(f[0]), off(f[1]), byt(f[2]))
	case Rwrite:
		p.MarshalRwritePkt(b, t, cnt(f[0]))
	case Tclunk:
		p.MarshalTclunkPkt(b, t, fid(f[0]))
	case Rclunk:
		p.MarshalRclunkPkt(b, t)
	case Tremove:
		p.MarshalTremovePkt(b, t, fid(f[0]))
	case Rremove:
		p.MarshalRremovePkt(b, t)
	case Tstat:
		p.MarshalTstatPkt(b, t, fid(f[0]))
	case Rstat:
		p.MarshalRstatPkt(b, t, byt(f[0]))
	case Twstat:
		p.MarshalTwstatPkt(b, t, fid(f[0]), byt(f[1]))
	case Rwstat:
		p.MarshalRwstatPkt(b, t)
	default:
		panic("sutMarshal: type")
	}
}

// sutUnmarshal decodes with the code under test; b starts at the tag.
func sutUnmarshal(typ uint8, b *bytes.Buffer) (f []any, tag uint16, err error) {
	var t p.Tag
	switch typ {
	case Tversion:
		a, s, tt, e := p.UnmarshalTversionPkt(b)
		f, t, err = []any{uint32(a), s}, tt, e
	case Rversion:
		a, s, tt, e := p.UnmarshalRversionPkt(b)
		f, t, err = []any{uint32(a), s}, tt, e
	case Tattach:
		a, c, s, s2, tt, e := p.UnmarshalTattachPkt(b)
		f, t, err = []any{uint32(a), uint32(c), s, s2}, tt, e
	case Rattach:
		q, tt, e := p.UnmarshalRattachPkt(b)
		f, t, err = []any{fromQ(q)}, tt, e
	case Rerror:
		s, tt, e := p.UnmarshalRerrorPkt(b)
		f, t, err = []any{s}, tt, e
	case Tflush:
		o, tt, e := p.UnmarshalTflushPkt(b)
		f, t, err = []any{uint16(o)}, tt, e
	case Rflush:
		t, err = p.UnmarshalRflushPkt(b)
	case Twalk:
		a, c, s, tt, e := p.UnmarshalTwalkPkt(b)
		f, t, err = []any{uint32(a), uint32(c), s}, tt, e
	case Rwalk:
		q, tt, e := p.UnmarshalRwalkPkt(b)
		f, t, err = []any{fromQs(q)}, tt, e
	case Topen:
		a, m, tt, e := p.UnmarshalTopenPkt(b)
		f, t, err = []any{uint32(a), uint8(m)}, tt, e
	case Ropen:
		q, i, tt, e := p.UnmarshalRopenPkt(b)
		f, t, err = []any{fromQ(q), uint32(i)}, tt, e
	case Tcreate:
		a, n, pm, m, tt, e := p.UnmarshalTcreatePkt(b)
		f, t, err = []any{uint32(a), n, uint32(pm), uint8(m)}, tt, e
	case Rcreate:
		q, i, tt, e := p.UnmarshalRcreatePkt(b)
		f, t, err = []any{fromQ(q), uint32(i)}, tt, e
	case Tread:
		a, o, c, tt, e := p.UnmarshalTreadPkt(b)
		f, t, err = []any{uint32(a), uint64(o), fcnt(c)}, tt, e
	case Rread:
		d, tt, e := p.UnmarshalRreadPkt(b)
		f, t, err = []any{d}, tt, e
	case Twrite:
		a, o, d, tt, e := p.UnmarshalTwritePkt(b)
		f, t, err = []any{uint32(a), uint64(o), d}, tt, e
	case Rwrite:
		c, tt, e := p.UnmarshalRwritePkt(b)
		f, t, err = []any{fcnt(c)}, tt, e
	case Tclunk:
		a, tt, e := p.UnmarshalTclunkPkt(b)
		f, t, err = []any{uint32(a)}, tt, e
	case Rclunk:
		t, err = p.UnmarshalRclunkPkt(b)
	case Tremove:
		a, tt, e := p.UnmarshalTremovePkt(b)
		f, t, err = []any{uint32(a)}, tt, e
	case Rremove:
		t, err = p.UnmarshalRremovePkt(b)
	case Tstat:
		a, tt, e := p.UnmarshalTstatPkt(b)
		f, t, err = []any{uint32(a)}, tt, e
	case Rstat:
		d, tt, e := p.UnmarshalRstatPkt(b)
		f, t, err = []any{d}, tt, e
	case Twstat:
		a, d, tt, e := p.UnmarshalTwstatPkt(b)
		f, t, err = []any{uint32(a), d}, tt, e
	case Rwstat:
		t, err = p.UnmarshalRwstatPkt(b)
	default:
		panic("sutUnmarshal: type")
	}
	return f, uint16(t), err
}

// sutCall makes the client call for request type typ.
func sutCall(c *p.Client, typ uint8, f []any) (r []any, err error) {
	switch typ {
	case Tversion:
		a, s, e := c.CallTversion(msz(f[0]), str(f[1]))
		return []any{uint32(a), s}, e
	case Tattach:
		q, e := c.CallTattach(fid(f[0]), fid(f[1]), str(f[2]), str(f[3]))
		return []any{fromQ(q)}, e
	case Tflush:
		return nil, c.CallTflush(p.Tag(f[0].(uint16)))
	case Twalk:
		q, e := c.CallTwalk(fid(f[0]), fid(f[1]), f[2].([]string))
		return []any{fromQs(q)}, e
	case Topen:
		q, i, e := c.CallTopen(fid(f[0]), p.Mode(f[1].(uint8)))
		return []any{fromQ(q), uint32(i)}, e
	case Tcreate:
		q, i, e := c.CallTcreate(fid(f[0]), str(f[1]), p.Perm(u32(f[2])), p.Mode(f[3].(uint8)))
		return []any{fromQ(q), uint32(i)}, e
	case Tread:
		d, e := c.CallTread(fid(f[0]), off(f[1]), cnt(f[2]))
		return []any{d}, e
	case Twrite:
		n, e := c.CallTwrite(fid(f[0]), off(f[1]), byt(f[2]))
		return []any{fcnt(n)}, e
	case Tclunk:
		return nil, c.CallTclunk(fid(f[0]))
	case Tremove:
		return nil, c.CallTremove(fid(f[0]))
	case Tstat:
		d, e := c.CallTstat(fid(f[0]))
		return []any{d}, e
	case Twstat:
		return nil, c.CallTwstat(fid(f[0]), byt(f[1]))
	}
	panic("sutCall: type")
}

// recNS is a file server that hands every operation to h: the arguments as the
// fields of the T message, the results as the fields of the R message.
type recNS struct {
	h func(typ uint8, args []any) ([]any, error)
}

func cpb(b []byte) []byte { return append([]byte{}, b...) }

func (n *recNS) Rversion(m p.MaxSize, v string) (p.MaxSize, string, error) {
	r, err := n.h(Tversion, []any{uint32(m), v})
	if err != nil {
		return 0, "", err
	}
	return msz(r[0]), str(r[1]), nil
}
func (n *recNS) Rattach(a, b p.FID, s, s2 string) (p.QID, error) {
	r, err := n.h(Tattach, []any{uint32(a), uint32(b), s, s2})
	if err != nil {
		return p.QID{}, err
	}
	return toQ(r[0].(QID)), nil
}
func (n *recNS) Rwalk(a, b p.FID, l []string) ([]p.QID, error) {
	r, err := n.h(Twalk, []any{uint32(a), uint32(b), append([]string{}, l...)})
	if err != nil {
		return nil, err
	}
	return toQs(r[0].([]QID)), nil
}
func (n *recNS) Ropen(a p.FID, m p.Mode) (p.QID, p.MaxSize, error) {
	r, err := n.h(Topen, []any{uint32(a), uint8(m)})
	if err != nil {
		return p.QID{}, 0, err
	}
	return toQ(r[0].(QID)), msz(r[1]), nil
}
func (n *recNS) Rcreate(a p.FID, s string, pm p.Perm, m p.Mode) (p.QID, p.MaxSize, error) {
	r, err := n.h(Tcreate, []any{uint32(a), s, uint32(pm), uint8(m)})
	if err != nil {
		return p.QID{}, 0, err
	}
	return toQ(r[0].(QID)), msz(r[1]), nil
}
func (n *recNS) Rstat(a p.FID) ([]byte, error) {
	r, err := n.h(Tstat, []any{uint32(a)})
	if err != nil {
		return nil, err
	}
	return byt(r[0]), nil
}
func (n *recNS) Rwstat(a p.FID, d []byte) error {
	_, err := n.h(Twstat, []any{uint32(a), cpb(d)})
	return err
}
func (n *recNS) Rclunk(a p.FID) error {
	_, err := n.h(Tclunk, []any{uint32(a)})
	return err
}
func (n *recNS) Rremove(a p.FID) error {
	_, err := n.h(Tremove, []any{uint32(a)})
	return err
}
func (n *recNS) Rread(a p.FID, o p.Offset, c p.Count) ([]byte, error) {
	r, err := n.h(Tread, []any{uint32(a), uint64(o), fcnt(c)})
	if err != nil {
		return nil, err
	}
	return byt(r[0]), nil
}
func (n *recNS) Rwrite(a p.FID, o p.Offset, d []byte) (p.Count, error) {
	r, err := n.h(Twrite, []any{uint32(a), uint64(o), cpb(d)})
	if err != nil {
		return -1, err
	}
	return cnt(r[0]), nil
}
func (n *recNS) Rflush(o p.Tag) error {
	_, err := n.h(Tflush, []any{uint16(o)})
	return err
}

var _ p.NineServer = &recNS{}

// nsCall makes the file server call for request type typ.
func nsCall(n p.NineServer, typ uint8, f []any) (r []any, err error) {
	switch typ {
	case Tversion:
		a, s, e := n.Rversion(msz(f[0]), str(f[1]))
		return []any{uint32(a), s}, e
	case Tattach:
		q, e := n.Rattach(fid(f[0]), fid(f[1]), str(f[2]), str(f[3]))
		return []any{fromQ(q)}, e
	case Tflush:
		return nil, n.Rflush(p.Tag(f[0].(uint16)))
	case Twalk:
		q, e := n.Rwalk(fid(f[0]), fid(f[1]), f[2].([]string))
		return []any{fromQs(q)}, e
	case Topen:
		q, i, e := n.Ropen(fid(f[0]), p.Mode(f[1].(uint8)))
		return []any{fromQ(q), uint32(i)}, e
	case Tcreate:
		q, i, e := n.Rcreate(fid(f[0]), str(f[1]), p.Perm(u32(f[2])), p.Mode(f[3].(uint8)))
		return []any{fromQ(q), uint32(i)}, e
	case Tread:
		d, e := n.Rread(fid(f[0]), off(f[1]), cnt(f[2]))
		return []any{d}, e
	case Twrite:
		c, e := n.Rwrite(fid(f[0]), off(f[1]), byt(f[2]))
		return []any{fcnt(c)}, e
	case Tclunk:
		return nil, n.Rclunk(fid(f[0]))
	case Tremove:
		return nil, n.Rremove(fid(f[0]))
	case Tstat:
		d, e := n.Rstat(fid(f[0]))
		return []any{d}, e
	case Twstat:
		return nil, n.Rwstat(fid(f[0]), byt(f[1]))
	}
	panic("nsCall: type")
}
