package checks

import (
	"encoding/binary"
	"io"
	"math/rand"
)

type mRand = rand.Rand

// This file has the harness's own SUNRPC encoding, independent of the library.

func be(b []byte, v uint32) []byte { return binary.BigEndian.AppendUint32(b, v) }

func opaqueBytes(b []byte, v []byte) []byte {
	b = be(b, uint32(len(v)))
	b = append(b, v...)
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	return b
}

type auth struct {
	flavor uint32
	body   []byte
}

func putAuth(b []byte, a auth) []byte { return opaqueBytes(be(b, a.flavor), a.body) }

type call struct {
	xid, rpcvers, prog, vers, proc uint32
	cred, verf                     auth
	args                           []byte
}

func (c call) bytes() []byte {
	b := be(nil, c.xid)
	for _, w := range []uint32{0, c.rpcvers, c.prog, c.vers, c.proc} {
		b = be(b, w)
	}
	b = putAuth(b, c.cred)
	b = putAuth(b, c.verf)
	return append(b, c.args...)
}

// record puts a record mark before b.
func record(b []byte) []byte {
	return append(be(nil, 1<<31|uint32(len(b))), b...)
}

// rdr reads words; ok turns false at the end of the data.
type rdr struct {
	b  []byte
	ok bool
}

func (r *rdr) u32() uint32 {
	if len(r.b) < 4 {
		r.ok = false
		r.b = nil
		return 0
	}
	v := binary.BigEndian.Uint32(r.b)
	r.b = r.b[4:]
	return v
}

func (r *rdr) opaque(max int) []byte {
	n := int(r.u32())
	p := (n + 3) / 4 * 4
	if !r.ok || n > max || p > len(r.b) {
		r.ok = false
		return nil
	}
	v := r.b[:n]
	r.b = r.b[p:]
	return v
}

func (r *rdr) auth() auth { return auth{r.u32(), r.opaque(400)} }

// parseCall decodes a call message; ok is false if b is not one.
func parseCall(b []byte) (c call, ok bool) {
	r := &rdr{b, true}
	c.xid = r.u32()
	if r.u32() != 0 {
		return c, false
	}
	c.rpcvers, c.prog, c.vers, c.proc = r.u32(), r.u32(), r.u32(), r.u32()
	c.cred, c.verf = r.auth(), r.auth()
	c.args = r.b
	return c, r.ok
}

type reply struct {
	xid       uint32
	denied    bool
	verf      auth
	stat      uint32 // accept_stat or reject_stat
	low, high uint32 // of either mismatch
	authStat  uint32
	results   []byte // what follows the header
}

func parseReply(b []byte) (p reply, ok bool) {
	r := &rdr{b, true}
	p.xid = r.u32()
	if r.u32() != 1 {
		return p, false
	}
	switch r.u32() {
	case 0:
		p.verf = r.auth()
		p.stat = r.u32()
		if p.stat == 2 {
			p.low, p.high = r.u32(), r.u32()
		}
	case 1:
		p.denied = true
		p.stat = r.u32()
		switch p.stat {
		case 0:
			p.low, p.high = r.u32(), r.u32()
		case 1:
			p.authStat = r.u32()
		default:
			return p, false
		}
	default:
		return p, false
	}
	p.results = r.b
	return p, r.ok
}

func (p reply) bytes() []byte {
	b := be(be(nil, p.xid), 1)
	if p.denied {
		b = be(be(b, 1), p.stat)
		if p.stat == 0 {
			b = be(be(b, p.low), p.high)
		} else if p.stat == 1 {
			b = be(b, p.authStat)
		}
	} else {
		b = be(b, 0)
		b = putAuth(b, p.verf)
		b = be(b, p.stat)
		if p.stat == 2 {
			b = be(be(b, p.low), p.high)
		}
	}
	return append(b, p.results...)
}

// records splits a stream into single-fragment records. bad says what is wrong
// with the stream; rest is an incomplete tail.
func records(b []byte) (recs [][]byte, rest []byte, bad string) {
	for len(b) >= 4 {
		h := binary.BigEndian.Uint32(b)
		if h&(1<<31) == 0 {
			return recs, b, "record mark without the last-fragment bit"
		}
		n := int(h &^ (1 << 31))
		if len(b)-4 < n {
			return recs, b, ""
		}
		recs = append(recs, b[4:4+n])
		b = b[4+n:]
	}
	return recs, b, ""
}

// replier is a transport on which every call is answered at once: SUCCESS with
// the bytes in next.
type replier struct {
	r    *rand.Rand
	in   []byte
	out  []byte
	next []byte
	sent [][]byte
}

func (p *replier) Write(b []byte) (int, error) {
	p.out = append(p.out, b...)
	recs, rest, _ := records(p.out)
	for _, c := range recs {
		c = append([]byte{}, c...)
		p.sent = append(p.sent, c)
		rep := reply{xid: binary.BigEndian.Uint32(c), results: p.next}
		p.in = append(p.in, record(rep.bytes())...)
	}
	p.out = append([]byte{}, rest...)
	return len(b), nil
}

func (p *replier) Read(b []byte) (int, error) {
	if len(p.in) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.in)
	if p.r != nil && n > 1 && p.r.Intn(3) == 0 {
		n = 1 + p.r.Intn(n)
	}
	p.in = p.in[n:]
	return n, nil
}
