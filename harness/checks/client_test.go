package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"reflect"
	"testing"

	"verifharness/mon"
	"verifharness/ref"
	"verifharness/sim"
	"verifharness/units"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

func libAuth(a auth) rfc1057.Opaque_auth {
	return rfc1057.Opaque_auth{Flavor: rfc1057.Auth_flavor(a.flavor), Body: a.body}
}

// badArgs cannot be encoded, possibly after some bytes.
func badArgs(r *mRand) xdr.Xdrable {
	if r.Intn(2) == 0 {
		return &unenc{}
	}
	n := r.Intn(100)
	if r.Intn(20) == 0 {
		n = int(math.Exp(r.Float64() * math.Log(4<<20)))
	}
	return &unenc{&tagRes{1, make([]byte, n)}}
}

// script is a transport for one client: Write records, Read serves replies
// computed from each complete call record.
type script struct {
	r       *mRand
	out     []byte // everything written
	pos     int    // parsed so far
	in      []byte
	inErr   error
	onCall  func(rec []byte) []byte // raw bytes to send back
	chunk   func(int) int
	writeOK func(n int) (int, error)
	writes  int
	reads   int
	withEr  bool
	nrec    int
	block   chan struct{} // if set, reads without data wait for it
	after   func() []byte // what arrives after the reading error
}

func (s *script) Write(p []byte) (int, error) {
	s.writes++
	n, err := len(p), error(nil)
	if s.writeOK != nil {
		n, err = s.writeOK(len(p))
	}
	s.out = append(s.out, p[:n]...)
	for {
		recs, rest, bad := records(s.out[s.pos:])
		if bad != "" || len(recs) == 0 {
			return n, err
		}
		_ = rest
		s.nrec++
		s.pos += 4 + len(recs[0])
		if s.onCall != nil {
			s.in = append(s.in, s.onCall(append([]byte{}, recs[0]...))...)
		}
	}
}

func (s *script) Read(p []byte) (int, error) {
	s.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if len(s.in) == 0 && s.block != nil {
		<-s.block
	}
	if len(s.in) == 0 {
		if f := s.after; f != nil {
			s.after = nil
			s.in = f()
			return 0, s.inErr
		}
		if s.inErr != nil {
			return 0, s.inErr
		}
		return 0, io.EOF
	}
	n := min(len(p), len(s.in))
	if s.chunk != nil {
		if k := s.chunk(n); k < n {
			n = k
		}
	}
	copy(p, s.in[:n])
	s.in = s.in[n:]
	if s.withEr && len(s.in) == 0 && s.inErr != nil && s.after == nil {
		return n, s.inErr
	}
	return n, nil
}

// setXid moves the client's transaction id counter, if it has one by that name.
func setXid(c *rfc1057.Client, v uint32) bool {
	f := reflect.ValueOf(c).Elem().FieldByName("xid")
	if !f.IsValid() || f.Kind() != reflect.Uint32 {
		return false
	}
	*(*uint32)(f.Addr().UnsafePointer()) = v
	return true
}

func TestC16(t *testing.T) {
	run(t, "C16", "random sequences of calls (any program, version, procedure, credentials, argument types and sizes, failing replies, arguments or authenticators that cannot be encoded, failed writes in between) on one client; the byte stream it sends is parsed and compared with the calls made; non-trivial: sequences with at least two calls, distinct by sequence", func(m *mon.M) {
		r := rng(m, "calls")
		us := units.All()
		for i := 0; i < m.N(1500, 30000); i++ {
			m.Case(fmt.Sprint("sequence ", i))
			prog, vers := r.Uint32(), uint32(r.Intn(5))
			if r.Intn(4) == 0 {
				prog, vers = uint32(r.Intn(3)), r.Uint32()
			}
			s := &script{r: r}
			mode := 0
			s.onCall = func(rec []byte) []byte {
				if len(rec) < 4 {
					return nil
				}
				rep := reply{xid: binary.BigEndian.Uint32(rec)}
				switch mode {
				case 1:
					rep.stat = uint32(1 + r.Intn(5))
				case 2:
					rep.denied, rep.stat = true, uint32(r.Intn(2))
				case 3:
					rep.xid++
				case 4:
					return record(mutate(rep.bytes(), r))
				}
				return record(rep.bytes())
			}
			c := rfc1057.MakeClient(s, prog, vers)
			if r.Intn(20) == 0 {
				if setXid(c, 0xffffffff-uint32(r.Intn(12))) {
					m.Count("sequences_near_xid_wrap", 1)
				}
			}
			seen := map[uint32]int{}
			hist := fmt.Sprintf("client for (%d,%d):", prog, vers)
			n := 1 + r.Intn(25)
			// memory and variables that several calls use, with other contents
			usedCred, usedVerf := make([]byte, 400), make([]byte, 400)
			usedOpq := &opq{}
			var usedUnit units.Unit
			var usedVal units.Inst
			proc := uint32(0)
			for k := 0; k < n; k++ {
				if k == 0 || r.Intn(3) > 0 {
					proc = uint32(r.Intn(30))
				}
				if r.Intn(5) == 0 {
					proc = r.Uint32()
				}
				cred, verf := randAuth(r), randAuth(r)
				if r.Intn(3) == 0 {
					cred.body = usedCred[:[]int{8, 24, len(cred.body)}[r.Intn(3)]]
					r.Read(cred.body)
				}
				if r.Intn(3) == 0 {
					verf.body = usedVerf[:[]int{8, 24, len(verf.body)}[r.Intn(3)]]
					r.Read(verf.body)
				}
				var args xdr.Xdrable
				var enc []byte
				fails := false
				what := ""
				switch r.Intn(9) {
				case 0:
					args, fails, what = badArgs(r), true, "unencodable arguments"
				case 1:
					cred.body = make([]byte, 401+r.Intn(200))
					args, fails, what = &xdr.Void{}, true, "credential too long"
				case 2:
					verf.body = make([]byte, 401+r.Intn(200))
					args, fails, what = &opq{[]byte("x")}, true, "verifier too long"
				case 3:
					b := make([]byte, []int{0, 1, 100, 65536, 1<<20 + 3}[r.Intn(5)])
					r.Read(b)
					o := &opq{b}
					if r.Intn(2) == 0 {
						o = usedOpq
						if len(o.B) > 0 && r.Intn(2) == 0 {
							o.B[r.Intn(len(o.B))]++
							m.Count("arguments_changed_in_place", 1)
						} else {
							o.B = b
						}
					}
					args, enc, what = o, opaqueBytes(nil, o.B), fmt.Sprint("opaque ", len(o.B))
				default:
					u := us[r.Intn(len(us))]
					in := value(u, r, budget(r), false, nil)
					if r.Intn(3) == 0 && usedVal.X != nil {
						u, in = usedUnit, usedVal
						fresh := value(u, r, budget(r), false, nil)
						copyInto(in.RV, fresh.RV)
						m.Count("arguments_changed_in_place", 1)
					}
					usedUnit, usedVal = u, in
					enc, _ = u.S.Encode(u.T, in.RV)
					args, what = in.X, u.Name
				}
				mode = []int{0, 0, 1, 2, 3, 4}[r.Intn(6)]
				hist += fmt.Sprintf(" [proc %d %s, reply mode %d]", proc, what, mode)
				before := len(s.out)
				s.in = nil
				s.inErr = io.EOF
				err := c.Call(proc, libAuth(cred), libAuth(verf), args, &xdr.Void{})
				sent := s.out[before:]
				if fails {
					if err == nil {
						m.Violation("unreported", "%s: a call that cannot be encoded succeeded", hist)
					}
					if len(sent) > 0 {
						m.Violation("sent", "%s: a call that cannot be encoded sent %d bytes: %s", hist, len(sent), ref.Hex(sent))
					}
					m.Count("unencodable_calls", 1)
					continue
				}
				recs, rest, bad := records(sent)
				if len(recs) != 1 || len(rest) > 0 || bad != "" {
					m.Violation("record", "%s: the call sent %d records and %d stray bytes (%s): %s", hist, len(recs), len(rest), bad, ref.Hex(sent))
					break
				}
				got, ok := parseCall(recs[0])
				want := call{xid: got.xid, rpcvers: 2, prog: prog, vers: vers, proc: proc, cred: cred, verf: verf, args: enc}
				if !ok || !bytes.Equal(want.bytes(), recs[0]) {
					m.Violation("message", "%s: the call sent %s, expected %s", hist, ref.Hex(recs[0]), ref.Hex(want.bytes()))
					break
				}
				if j, dup := seen[got.xid]; dup {
					m.Violation("xid", "%s: call %d uses transaction id %08x of call %d again", hist, k, got.xid, j)
					break
				}
				seen[got.xid] = k
				m.Count("call_records", 1)
			}
			m.Eval([]byte(hist), n > 1)
			m.Sample(map[string]string{"sequence": fmt.Sprintf("%.300s", hist)})
		}
		failingCalls(m, r)
		// long sequences on one client
		for i := 0; i < m.N(2, 10); i++ {
			m.Case("long sequence")
			s := &replier{}
			c := rfc1057.MakeClient(s, 1, 1)
			seen := map[uint32]bool{}
			n := m.N(150000, 1500000)
			if i == 0 {
				n = m.N(1200000, 17500000)
			}
			for k := 0; k < n; k++ {
				if k%50000 == 0 {
					m.Case(fmt.Sprint("long sequence, call ", k))
				}
				c.Call(uint32(k), rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, &xdr.Void{})
				if len(s.sent) != 1 {
					m.Violation("record", "call %d of a long sequence sent %d records", k, len(s.sent))
					return
				}
				x := binary.BigEndian.Uint32(s.sent[0])
				s.sent = s.sent[:0]
				if seen[x] {
					m.Violation("xid", "call %d of a long sequence uses transaction id %08x again", k, x)
					return
				}
				seen[x] = true
			}
			m.Count("call_records", int64(n))
			m.Eval([]byte(fmt.Sprint("long", i)), true)
		}
		for _, n := range []int{1<<24 + 5, 1<<26 + 9, m.N(150<<20, 600<<20)} {
			m.Case(fmt.Sprintf("a call of %d bytes", n))
			s := &script{inErr: io.EOF}
			b := make([]byte, n)
			r.Read(b[:1000])
			rfc1057.MakeClient(s, 3, 2).Call(1, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &opq{b}, &xdr.Void{})
			x := binary.BigEndian.Uint32(append(s.out, 0, 0, 0, 0)[4:])
			if want := record(call{xid: x, rpcvers: 2, prog: 3, vers: 2, proc: 1, args: opaqueBytes(nil, b)}.bytes()); !bytes.Equal(s.out, want) {
				m.Violation("record", "a call with an opaque of %d bytes sent %d bytes, expected %d, or other contents", n, len(s.out), len(want))
			}
			m.Max("largest_call", int64(n))
			m.Eval([]byte(fmt.Sprint("large", n)), true)
		}
		if m.Thorough {
			// a call of 2 GiB cannot be marked and must send nothing
			s := &script{}
			c := rfc1057.MakeClient(s, 1, 1)
			err := c.Call(1, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &opq{make([]byte, 1<<31)}, &xdr.Void{})
			if err == nil || len(s.out) > 0 {
				m.Violation("huge", "a call of 2 GiB returned %v and sent %d bytes", err, len(s.out))
			}
			m.Eval([]byte("huge"), true)
		}
	})
}

// failingCalls makes sequences of calls on a transport on which writes and
// reads fail now and then, and looks at what the transport took.
func failingCalls(m *mon.M, r *mRand) {
	for i := 0; i < m.N(1500, 30000); i++ {
		m.Case(fmt.Sprint("failing calls ", i))
		s := &script{r: r, chunk: chunker(r)}
		fail := -1 // bytes of the next write that are taken
		var werr error
		s.writeOK = func(n int) (int, error) {
			if fail < 0 {
				return n, nil
			}
			k := min(fail, n)
			fail = -1
			return k, werr
		}
		cut := 0
		s.onCall = func(rec []byte) []byte {
			b := record(reply{xid: binary.BigEndian.Uint32(rec), results: opaqueBytes(nil, []byte("ok"))}.bytes())
			return b[:min(cut, len(b))]
		}
		c := rfc1057.MakeClient(s, 7, 2)
		hist := "client on a failing transport:"
		seen := map[uint32]int{}
		broken := false
		for k := 0; k < 2+r.Intn(12); k++ {
			args := make([]byte, []int{0, 3, 40, 2000, 70000}[r.Intn(5)])
			r.Read(args)
			proc, cred := uint32(r.Intn(9)), randAuth(r)
			full := 48 + len(opaqueBytes(nil, args)) + len(opaqueBytes(nil, cred.body)) - 4
			cut, fail = 1000, -1
			s.in, s.inErr, s.after = nil, faults[r.Intn(len(faults))], nil
			switch r.Intn(4) {
			case 0:
				fail, werr = []int{0, r.Intn(12), r.Intn(full + 1), full}[r.Intn(4)], faults[r.Intn(len(faults))]
				hist += fmt.Sprintf(" [write fails after %d of %d bytes: %v]", fail, full, werr)
			case 1:
				cut = r.Intn(30)
				hist += fmt.Sprintf(" [reply cut after %d bytes: %v]", cut, s.inErr)
			default:
				hist += " [call]"
			}
			failed := fail >= 0
			before := len(s.out)
			s.pos = before
			err := c.Call(proc, libAuth(cred), rfc1057.Opaque_auth{}, &opq{args}, &opq{})
			sent := s.out[before:]
			if len(sent) == 0 && (failed || broken) && err != nil {
				broken = broken || failed
				continue
			}
			x := uint32(0)
			if len(sent) >= 8 {
				x = binary.BigEndian.Uint32(sent[4:])
			}
			want := record(call{xid: x, rpcvers: 2, prog: 7, vers: 2, proc: proc, cred: cred, args: opaqueBytes(nil, args)}.bytes())
			switch {
			case failed && bytes.HasPrefix(want[:min(len(want), 4)], sent[:min(len(sent), 4)]) && (len(sent) < 8 || bytes.HasPrefix(want, sent)):
			case bytes.Equal(want, sent):
			default:
				m.Violation("failing", "%s: the call sent %s, expected %s or, if the write failed, part of it", hist, ref.Hex(sent), ref.Hex(want))
				stop(m)
			}
			if j, dup := seen[x]; dup && len(sent) >= 8 {
				m.Violation("failing", "%s: call %d uses transaction id %08x of call %d again", hist, k, x, j)
				stop(m)
			}
			if len(sent) >= 8 {
				seen[x] = k
			}
			broken = broken || failed || cut < 1000
			m.Count("calls_on_failing_transports", 1)
		}
		m.Eval([]byte(hist), true)
	}
}

// verdict says whether reply record content b is a success for transaction id
// xid, what follows the header, and whether it may go either way.
func verdict(b []byte, xid uint32) (ok bool, results []byte, either bool) {
	p, wf := parseReply(b)
	if !wf || p.xid != xid || p.denied || p.stat != 0 {
		return false, nil, false
	}
	// non-zero padding may be refused
	hdr := len(b) - len(p.results)
	n := len(p.verf.body)
	for i := 20 + n; i < hdr-4 && i < len(b); i++ {
		if b[i] != 0 {
			either = true
		}
	}
	return true, p.results, either
}

func TestC17(t *testing.T) {
	run(t, "C17", "one reply record per call: correct ones with random results of every type, every single-bit change of the header words, every status and discriminant value, truncation at every byte, over-limit verifiers and results, wrong kinds, mutations; Call must succeed exactly when the harness's own parser says the record is this call's success, with exactly those results; non-trivial: replies that are not plain successes, distinct by reply", func(m *mon.M) {
		r := rng(m, "replies")
		us := units.Shipped()
		s := &script{r: r}
		var raw []byte
		var mk func(xid uint32) []byte
		s.onCall = func(rec []byte) []byte {
			raw = mk(binary.BigEndian.Uint32(rec))
			return raw
		}
		c := rfc1057.MakeClient(s, 5, 1)
		var xid uint32
		// try makes one call answered with the record made by f (mark included
		// if own) and judges the outcome.
		try := func(u units.Unit, what string, f func(xid uint32) []byte, mark func(b []byte) []byte) {
			m.Case(what)
			if m.Violations() > 10 {
				return
			}
			out := u.Make()
			if r.Intn(3) == 0 { // results may go where earlier ones are
				out = value(u, r, 300, false, nil)
			}
			var b []byte
			mk = func(x uint32) []byte {
				xid = x
				b = f(x)
				out := mark(b)
				if r.Intn(2) == 0 {
					// The right reply behind the wrong one does not make up for it.
					g := u.Make()
					(&ref.Gen{S: u.S, R: r, Budget: 50}).Fill(u.T, g.RV)
					if e, err := u.S.Encode(u.T, g.RV); err == nil {
						out = append(append([]byte{}, out...), record(reply{xid: x, results: e}.bytes())...)
						m.Count("followed_by_good_reply", 1)
					}
				}
				return out
			}
			s.in = nil
			s.out, s.pos = nil, 0
			if s.r.Intn(2) == 0 {
				s.chunk = nil
			} else {
				s.chunk = func(n int) int { return 1 + s.r.Intn(n) }
			}
			var err error
			safely(m, "panic", what, func() {
				err = c.Call(3, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, out.X)
			})
			final := len(raw) >= 4 && raw[0]&0x80 != 0
			ok, results, either := verdict(b, xid)
			ok = ok && final
			if ok {
				want := u.Make()
				d := &ref.Dec{S: u.S, In: results}
				d.Decode(u.T, want.RV)
				if d.Err != nil {
					ok = false
				} else if d.Lenient != "" {
					either = true
				} else if err == nil {
					if df := u.S.Diff(u.T, want.RV, out.RV); df != "" {
						m.Violation("results", "%s: results differ at %s\nreply %s", what, df, ref.Hex(b))
					}
				}
			}
			if ok && err != nil && !either {
				m.Violation("refused", "%s: call failed with %q although its success reply was received: %s", what, err, ref.Hex(b))
			}
			if !ok && err == nil {
				m.Violation("accepted", "%s: call succeeded on reply (transaction id %08x): %s", what, xid, ref.Hex(raw))
			}
			if ok {
				m.Count("successes", 1)
			} else {
				m.Count("must_fail", 1)
			}
			m.Eval(append([]byte(u.Name+what), b...), !ok)
			if !ok {
				m.Sample(map[string]string{"case": what, "reply": ref.Hex(raw), "outcome": fmt.Sprint(err)})
			}
		}
		marked := record
		success := func(u units.Unit) (reply, []byte) {
			in := value(u, r, []int{0, 100, 600, 3000}[r.Intn(4)], false, nil)
			e, _ := u.S.Encode(u.T, in.RV)
			return reply{verf: randAuth(r), results: e}, e
		}
		for round := 0; round < m.N(60, 600); round++ {
			for _, u := range us {
				rep, _ := success(u)
				try(u, u.Name+" success", func(x uint32) []byte { rep.xid = x; return rep.bytes() }, marked)
				try(u, u.Name+" success with trailing bytes", func(x uint32) []byte { rep.xid = x; return append(rep.bytes(), 1, 2, 3, 4) }, marked)
				try(u, u.Name+" mutated", func(x uint32) []byte { rep.xid = x; return mutate(rep.bytes(), r) }, marked)
				try(u, u.Name+" mutated results", func(x uint32) []byte {
					rep.xid = x
					q := rep
					q.results = mutate(rep.results, r)
					return q.bytes()
				}, marked)
				try(u, u.Name+" truncated", func(x uint32) []byte { rep.xid = x; b := rep.bytes(); return b[:r.Intn(len(b))] }, marked)
			}
		}
		void := units.ByName("rfc1813", "uint32")
		for _, u := range []units.Unit{void, units.ByName("rfc1813", "GETATTR3res"), units.ByName("rfc1057", "pmaplist")} {
			for _, body := range [][]byte{nil, {1, 2, 3}, make([]byte, 400)} {
				rep, _ := success(u)
				rep.verf = auth{1, body}
				base := func(x uint32) []byte { rep.xid = x; return rep.bytes() }
				hdr := len(base(0)) - len(rep.results)
				for bit := 0; bit < hdr*8; bit++ {
					if bit/8 >= 20 && bit/8 < hdr-8 {
						continue // inside the verifier's body
					}
					try(u, fmt.Sprintf("%s header bit %d flipped", u.Name, bit), func(x uint32) []byte {
						b := base(x)
						b[bit/8] ^= 0x80 >> uint(bit%8)
						return b
					}, marked)
					m.Count("single_bit_headers", 1)
				}
				for n := 0; n <= len(base(0)); n++ {
					if n > 60 && n < len(base(0))-60 {
						continue
					}
					try(u, fmt.Sprintf("%s cut to %d bytes", u.Name, n), func(x uint32) []byte { return base(x)[:n] }, marked)
					m.Count("truncated_replies", 1)
				}
			}
			rep, _ := success(u)
			vals := append([]uint32{1, 2, 3, 4, 5, 6, 7, 8, 13, 255, 256, 1 << 16, 1 << 24, 1 << 31}, hostileWords...)
			for _, v := range vals {
				v := v
				try(u, fmt.Sprintf("accept_stat %d", v), func(x uint32) []byte {
					rep.xid = x
					q := rep
					q.stat = v
					return q.bytes()
				}, marked)
				try(u, fmt.Sprintf("reply_stat %d", v), func(x uint32) []byte {
					rep.xid = x
					q := rep
					q.verf = auth{}
					b := q.bytes()
					binary.BigEndian.PutUint32(b[8:], v)
					return b
				}, marked)
				try(u, fmt.Sprintf("message type %d", v), func(x uint32) []byte {
					rep.xid = x
					b := rep.bytes()
					binary.BigEndian.PutUint32(b[4:], v)
					return b
				}, marked)
				try(u, fmt.Sprintf("transaction id off by %d", v), func(x uint32) []byte { rep.xid = x + v; return rep.bytes() }, marked)
				try(u, fmt.Sprintf("transaction id lower by %d", v), func(x uint32) []byte { rep.xid = x - v; return rep.bytes() }, marked)
				try(u, fmt.Sprintf("transaction id %d", v), func(x uint32) []byte { rep.xid = v; return rep.bytes() }, marked)
				try(u, fmt.Sprintf("verifier of length %d", v%2000), func(x uint32) []byte {
					rep.xid = x
					q := rep
					q.verf = auth{1, make([]byte, v%2000)}
					return q.bytes()
				}, marked)
				try(u, fmt.Sprintf("denied, auth_stat %d", v), func(x uint32) []byte {
					return append(reply{xid: x, denied: true, stat: 1, authStat: v}.bytes(), rep.results...)
				}, marked)
				try(u, fmt.Sprintf("denied, versions %d..", v), func(x uint32) []byte {
					return append(reply{xid: x, denied: true, stat: 0, low: v, high: v}.bytes(), rep.results...)
				}, marked)
			}
			// denials laid out so that their words read like an accepted success
			for k := 0; k < 200; k++ {
				try(u, "denial with arbitrary words", func(x uint32) []byte {
					b := be(be(be(nil, x), 1), 1)
					for j := 0; j < 6; j++ {
						b = be(b, uint32(r.Intn(3)))
					}
					return append(b, rep.results...)
				}, marked)
			}
			try(u, "call message", func(x uint32) []byte {
				return call{xid: x, rpcvers: 2, prog: 5, vers: 1, proc: 3, args: rep.results}.bytes()
			}, marked)
			try(u, "empty record", func(x uint32) []byte { return nil }, marked)
			// non-final fragments
			for k := 0; k < 20; k++ {
				try(u, "non-final fragment", func(x uint32) []byte { rep.xid = x; return rep.bytes() }, func(b []byte) []byte {
					return append(be(nil, uint32(len(b))), b...)
				})
				// a whole final record right behind it does not make up for it
				try(u, "non-final fragment then final", func(x uint32) []byte { rep.xid = x; return rep.bytes() }, func(b []byte) []byte {
					return append(append(be(nil, 0), record(b)...), record(b)...)
				})
			}
			// an earlier call's reply
			var old uint32
			try(u, "success", func(x uint32) []byte { old = x; rep.xid = x; return rep.bytes() }, marked)
			try(u, "earlier call's reply", func(x uint32) []byte { rep.xid = old; return rep.bytes() }, marked)
			// bounded results over their limit
			for _, bu := range us {
				for _, st := range bu.S.Sites(bu.T, 1, ref.Bounded) {
					if st.T.N > 5000 {
						continue
					}
					in := bu.Make()
					g := &ref.Gen{S: bu.S, R: r, Budget: 60, Path: st.Path}
					g.At = func(t *ref.Type, rv reflect.Value) bool { g.FillLen(t, rv, int(t.N)+1); return true }
					g.Fill(bu.T, in.RV)
					e := bu.S.EncodeNoLimits(bu.T, in.RV)
					try(bu, bu.Name+st.Name+" over its limit", func(x uint32) []byte { return reply{xid: x, results: e}.bytes() }, marked)
					m.Count("over_limit_results", 1)
				}
			}
		}
		// large replies: whole, cut short, mutated at the end
		big := func() reply {
			b := make([]byte, int(math.Exp(r.Float64()*math.Log(1<<23))))
			r.Read(b)
			return reply{verf: randAuth(r), results: append(be(nil, 77), opaqueBytes(nil, b)...)}
		}
		resu := units.ByName("rfc1057", "call_result")
		for k := 0; k < m.N(60, 1000); k++ {
			rep := big()
			if k == 7 {
				rep.results = append(be(nil, 77), opaqueBytes(nil, make([]byte, 1<<27+r.Intn(1<<20)))...)
			}
			try(resu, fmt.Sprintf("call_result success of %d bytes", len(rep.results)), func(x uint32) []byte { rep.xid = x; return rep.bytes() }, marked)
			try(resu, "large call_result cut", func(x uint32) []byte {
				rep.xid = x
				b := rep.bytes()
				if r.Intn(2) == 0 {
					return b[:len(b)-1-r.Intn(min(9, len(rep.results)))]
				}
				return b[:r.Intn(len(b))]
			}, marked)
			rep.xid = 0
			try(resu, "large call_result of another call", func(x uint32) []byte { rep.xid = x + 1 + r.Uint32()>>1; return rep.bytes() }, marked)
			try(resu, "large call_result with another status", func(x uint32) []byte {
				rep.xid = x
				q := rep
				q.stat = 1 + uint32(r.Intn(6))
				return q.bytes()
			}, marked)
			q := rep
			q.verf = auth{1, make([]byte, []int{0, 3, 400}[r.Intn(3)])}
			hdr := len(q.bytes()) - len(q.results)
			for j := 0; j < 12; j++ {
				bit := r.Intn(20 * 8)
				if j%3 == 0 {
					bit = (hdr-4)*8 + r.Intn(32)
				}
				try(resu, fmt.Sprintf("call_result of %d bytes, header bit %d flipped", len(rep.results), bit), func(x uint32) []byte {
					q.xid = x
					b := q.bytes()
					b[bit/8] ^= 0x80 >> uint(bit%8)
					return b
				}, marked)
				m.Count("single_bit_headers", 1)
			}
			m.Max("largest_reply", int64(len(rep.results)))
			if m.Violations() > 10 {
				return
			}
		}
		// records received ahead of time: each call is decided by the next one
		for i := 0; i < m.N(600, 15000); i++ {
			type rec struct {
				b    []byte
				xid  uint32
				ok   bool
				body []byte
			}
			var queue []rec
			q := &script{r: r}
			if r.Intn(3) == 0 {
				q.chunk = chunker(r)
			}
			add := func(xid uint32, ok bool, most int) []byte {
				body := make([]byte, r.Intn(most))
				r.Read(body)
				rep := reply{xid: xid, verf: randAuth(r), results: opaqueBytes(nil, body)}
				if !ok {
					switch r.Intn(4) {
					case 0:
						rep.stat = uint32(1 + r.Intn(5))
					case 1:
						rep.denied, rep.stat = true, 1
					default:
						rep.xid += 1000000 + uint32(r.Intn(1000000))
					}
				}
				queue = append(queue, rec{rep.bytes(), rep.xid, ok, body})
				return record(rep.bytes())
			}
			if r.Intn(4) == 0 {
				q.in = append(q.in, add(r.Uint32()|1<<30, false, 50)...)
			}
			var now uint32
			var carry []byte
			q.onCall = func(b []byte) []byte {
				now = binary.BigEndian.Uint32(b)
				out := carry
				carry = nil
				out = append(out, add(now, r.Intn(5) > 0, []int{50, 6000}[r.Intn(2)])...)
				for r.Intn(3) == 0 {
					e := add(now+7777777, false, 6000)
					if r.Intn(2) == 0 { // the rest of it comes later
						k := r.Intn(len(e))
						carry = append([]byte{}, e[k:]...)
						return append(out, e[:k]...)
					}
					out = append(out, e...)
				}
				return out
			}
			cl := rfc1057.MakeClient(q, 5, 1)
			hist := ""
			for k := 0; k < 2+r.Intn(8); k++ {
				res := &opq{}
				var err error
				safely(m, "panic", "call", func() { err = cl.Call(3, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, res) })
				head := queue[0]
				queue = queue[1:]
				want := head.ok && head.xid == now
				hist += fmt.Sprintf(" [call %08x, next record: transaction %08x success %v, %d bytes]", now, head.xid, head.ok, len(head.b))
				m.Case(hist)
				if (err == nil) != want {
					m.Violation("next", "call %d returned %v, but the next record received decides:%s", k, err, hist)
					return
				}
				if want && !bytes.Equal(res.B, head.body) {
					m.Violation("next", "call %d: %d result bytes differ from those of the next record:%s", k, len(res.B), hist)
					return
				}
				m.Count("calls_with_records_ahead", 1)
			}
			m.Eval([]byte(hist), true)
		}
		if m.Violations() == 0 && s.nrec == 0 {
			m.Note("warning", "no calls seen")
		}
		slowCalls(t, m, m.N(200, 5000))
	})
}

func TestC18(t *testing.T) {
	run(t, "C18", "calls over a transport that ends or fails at every byte of the request and of the reply (alone or with data), in all segmentations, with arbitrary reply bytes and reply lengths announced but not supplied; and sequences mixing calls failing by what their complete reply says, calls that cannot be encoded and normal calls, where every normal one must succeed with its own results; Call runs as a goroutine judged at logical quiescence; non-trivial: runs with a fault or failing call, distinct by run", func(m *mon.M) {
		r := rng(m, "faults")
		// doCall reports whether Call returned once nothing could move any more.
		doCall := func(c *rfc1057.Client, args, res xdr.Xdrable) (returned bool, err error) {
			done := make(chan error, 1)
			go func() {
				var err error
				safely(m, "panic", "call", func() { err = c.Call(3, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, args, res) })
				done <- err
			}()
			sim.Quiesce()
			select {
			case err := <-done:
				return true, err
			default:
				return false, nil
			}
		}
		errs := faults
		// reply cut at every byte
		for _, size := range []int{0, 5, 60, 5, 60, 5} {
			for cut := 0; ; cut++ {
				b := make([]byte, size)
				r.Read(b)
				full := 0
				s := &script{r: r, inErr: errs[r.Intn(len(errs))], chunk: chunker(r), withEr: r.Intn(2) == 0}
				s.onCall = func(rec []byte) []byte {
					x := record(reply{xid: binary.BigEndian.Uint32(rec), results: opaqueBytes(nil, b)}.bytes())
					full = len(x)
					return x[:min(cut, len(x))]
				}
				c := rfc1057.MakeClient(s, 5, 1)
				res := &opq{}
				what := fmt.Sprintf("reply of %d result bytes cut at %d with %v", size, cut, s.inErr)
				m.Case(what)
				ret, err := doCall(c, &xdr.Void{}, res)
				switch {
				case !ret:
					m.Violation("hang", "%s: call does not return", what)
				case cut < full && err == nil:
					m.Violation("cut", "%s: call succeeded", what)
				case cut >= full && (err != nil || !bytes.Equal(res.B, b)):
					m.Violation("cut", "%s: the complete reply (%d bytes) gave %v", what, full, err)
				}
				m.Count("reply_cuts", 1)
				m.Eval([]byte(what), true)
				if cut > full {
					break
				}
				// the transport is at its end; a further call returns an error too
				if ret2, err2 := doCall(c, &unenc{}, &opq{}); !ret2 || err2 == nil {
					m.Violation("hang", "%s: the next call returned %v, error %v", what, ret2, err2)
				}
			}
		}
		// large replies, whole and cut
		for _, size := range []int{1<<16 - 28, 1 << 16, 1<<20 - 28, 1<<20 + 1, 1<<24 - 28, 1<<24 - 27, 1<<24 + 5, 1<<26 + 100, m.N(140<<20, 300<<20)} {
			for _, cut := range []int{0, 1, size / 2} {
				b := make([]byte, size)
				r.Read(b)
				s := &script{r: r, inErr: io.EOF}
				s.onCall = func(rec []byte) []byte {
					x := record(reply{xid: binary.BigEndian.Uint32(rec), results: opaqueBytes(nil, b)}.bytes())
					return x[:len(x)-cut]
				}
				res := &opq{}
				what := fmt.Sprintf("reply of %d result bytes without its last %d", size, cut)
				m.Case(what)
				ret, err := doCall(rfc1057.MakeClient(s, 5, 1), &opq{b}, res)
				if !ret {
					m.Violation("hang", "%s: call does not return", what)
				} else if cut > 0 && err == nil {
					m.Violation("cut", "%s: call succeeded", what)
				} else if cut == 0 && (err != nil || !bytes.Equal(res.B, b)) {
					m.Violation("cut", "%s: gave %v and %d bytes", what, err, len(res.B))
				}
				if cut == 0 && (s.nrec != 1 || !bytes.HasSuffix(s.out, opaqueBytes(nil, b))) {
					m.Violation("sent", "%s: the request of that size was not sent as one record", what)
				}
				m.Max("largest_reply", int64(size))
				m.Eval([]byte(what), true)
			}
		}
		// A read fails once, and what comes later would be a reply had the record
		// mark arrived, or if the mark were that of the request.
		for i := 0; i < m.N(400, 8000); i++ {
			k := r.Intn(4)
			body := make([]byte, 16+4*r.Intn(3))
			s := &script{r: r, inErr: errs[r.Intn(len(errs))], withEr: r.Intn(2) == 0}
			var later []byte
			s.onCall = func(rec []byte) []byte {
				rep := reply{xid: binary.BigEndian.Uint32(rec), results: opaqueBytes(nil, body)}.bytes()
				later = rep
				return record(rep)[:k]
			}
			s.after = func() []byte { return later }
			size := len(reply{results: opaqueBytes(nil, body)}.bytes()) - 44
			c := rfc1057.MakeClient(s, 5, 1)
			what := fmt.Sprintf("reading fails once with %v after %d bytes of the record mark, then the contents follow", s.inErr, k)
			m.Case(what)
			ret, err := doCall(c, &opq{make([]byte, max(size, 0))}, &opq{})
			if !ret {
				m.Violation("hang", "%s: call does not return", what)
			} else if err == nil {
				m.Violation("cut", "%s: call succeeded", what)
			}
			m.Count("reads_failing_once", 1)
			m.Eval([]byte(fmt.Sprint(what, i)), true)
		}
		// A read fails once anywhere, and then part of the reply comes again.
		for i := 0; i < m.N(1200, 20000); i++ {
			body := make([]byte, r.Intn(40))
			r.Read(body)
			if r.Intn(20) == 0 {
				body = make([]byte, r.Intn(3<<20))
			}
			s := &script{r: r, inErr: errs[r.Intn(len(errs))], chunk: chunker(r)}
			var p, q int
			var all, later []byte
			var xid uint32
			s.onCall = func(rec []byte) []byte {
				xid = binary.BigEndian.Uint32(rec)
				x := record(reply{xid: xid, verf: randAuth(r), results: opaqueBytes(nil, body)}.bytes())
				p = []int{r.Intn(len(x) + 1), r.Intn(9)}[r.Intn(2)]
				q = []int{0, 4, p, min(p, 4), r.Intn(p + 1)}[r.Intn(5)]
				later = x[q:]
				all = append(append([]byte{}, x[:p]...), later...)
				return x[:p]
			}
			s.after = func() []byte { return later }
			c := rfc1057.MakeClient(s, 5, 1)
			res := &opq{}
			m.Case(fmt.Sprint("reading fails once, part of the reply repeated ", i))
			ret, err := doCall(c, &xdr.Void{}, res)
			what := fmt.Sprintf("%d bytes of a reply with %d bytes of results, then %v once, then the reply from byte %d", p, len(body), s.inErr, q)
			good := false
			if recs, _, _ := records(all); len(recs) > 0 {
				ok, results, _ := verdict(recs[0], xid)
				want := &opq{}
				good = ok && xdr.DecodeBuf(results, want) == nil && bytes.Equal(want.B, res.B)
			}
			if !ret {
				m.Violation("hang", "%s: call does not return", what)
			} else if err == nil && !good {
				m.Violation("cut", "%s: call succeeded", what)
			}
			m.Count("replies_repeated_in_part", 1)
			m.Eval([]byte(fmt.Sprint(what, i)), true)
		}
		// a record mark which is not this reply's, followed by whole replies
		for i := 0; i < m.N(400, 5000); i++ {
			mark := []uint32{0xffffffff, 0x7fffffff, 0x80000000, 0, 0xfffffffe, 0x80000000 | uint32(1<<r.Intn(31)), uint32(r.Intn(1 << r.Intn(31))), 1<<31 | uint32(2000+r.Intn(1<<r.Intn(31)))}[r.Intn(8)]
			s := &script{r: r, inErr: errs[r.Intn(len(errs))], chunk: chunker(r)}
			var all []byte
			var xid uint32
			s.onCall = func(rec []byte) []byte {
				xid = binary.BigEndian.Uint32(rec)
				all = be(nil, mark)
				for k := 1 + r.Intn(3); k > 0; k-- {
					all = append(all, record(reply{xid: xid, results: opaqueBytes(nil, []byte("ok"))}.bytes())...)
				}
				return all
			}
			c := rfc1057.MakeClient(s, 5, 1)
			what := fmt.Sprintf("record mark %08x, then whole replies", mark)
			m.Case(what)
			ret, err := doCall(c, &xdr.Void{}, &opq{})
			good := false
			if recs, _, _ := records(all); len(recs) > 0 {
				good, _, _ = verdict(recs[0], xid)
			}
			if !ret {
				m.Violation("hang", "%s: call does not return", what)
			} else if err == nil && !good {
				m.Violation("cut", "%s: call succeeded", what)
			}
			m.Count("replies_after_a_foreign_mark", 1)
			m.Eval([]byte(fmt.Sprint(what, i)), true)
		}
		// request write failing at every byte
		for _, size := range []int{0, 7, 300, 7, 300} {
			for cut := 0; cut < 44+4+size+8; cut++ {
				s := &script{r: r, inErr: io.EOF}
				if r.Intn(2) == 0 {
					// the other direction stays open: nothing will ever arrive
					s.block = make(chan struct{})
				}
				werr := errs[r.Intn(len(errs))]
				total := 0
				s.writeOK = func(n int) (int, error) {
					if total+n > cut {
						k := cut - total
						total = cut
						return k, werr
					}
					total += n
					return n, nil
				}
				s.onCall = func(rec []byte) []byte {
					return record(reply{xid: binary.BigEndian.Uint32(rec), results: opaqueBytes(nil, []byte("ok"))}.bytes())
				}
				c := rfc1057.MakeClient(s, 5, 1)
				what := fmt.Sprintf("request with %d argument bytes, write fails with %v after %d bytes (reading stays open: %v)", size, werr, cut, s.block != nil)
				m.Case(what)
				ret, err := doCall(c, &opq{make([]byte, size)}, &opq{})
				if s.block != nil {
					close(s.block)
				}
				if !ret {
					m.Violation("hang", "%s: call does not return", what)
				} else if s.nrec == 0 && err == nil {
					m.Violation("write", "%s: call succeeded", what)
				} else if s.nrec == 1 && total < cut && err != nil {
					m.Violation("write", "%s: nothing failed, but the call did: %v", what, err)
				}
				m.Count("request_cuts", 1)
				m.Eval([]byte(what), true)
			}
		}
		// arbitrary bytes as replies, then the end
		for i := 0; i < m.N(4000, 100000); i++ {
			var b []byte
			s := &script{r: r, inErr: errs[r.Intn(len(errs))], chunk: chunker(r), withEr: r.Intn(2) == 0}
			s.onCall = func(rec []byte) []byte {
				switch r.Intn(4) {
				case 0:
					b = make([]byte, r.Intn(80))
					r.Read(b)
				case 1:
					b = append(be(nil, hostileWords[r.Intn(len(hostileWords))]), make([]byte, r.Intn(50))...)
				case 2:
					b = mutate(record(reply{xid: binary.BigEndian.Uint32(rec), verf: randAuth(r), results: opaqueBytes(nil, []byte("hello"))}.bytes()), r)
				default:
					b = append(be(nil, 1<<31|hostileWords[r.Intn(len(hostileWords))]), mutate(reply{xid: binary.BigEndian.Uint32(rec)}.bytes(), r)...)
				}
				return b
			}
			c := rfc1057.MakeClient(s, 5, 1)
			m.Case(fmt.Sprint("arbitrary reply ", i))
			ret, err := doCall(c, &xdr.Void{}, &opq{})
			if !ret {
				m.Violation("hang", "call does not return on reply bytes %s", ref.Hex(b))
			} else if err == nil {
				// only right if these bytes start with a complete reply
				recs, _, bad := records(b)
				if bad != "" && len(recs) == 0 || len(recs) == 0 {
					m.Violation("cut", "call succeeded on reply bytes %s", ref.Hex(b))
				}
			}
			m.Count("arbitrary_replies", 1)
			m.Eval(append([]byte("arb"), b...), true)
		}
		slowCalls(t, m, m.N(300, 8000))
		// alignment over sequences
		for i := 0; i < m.N(1200, 25000); i++ {
			s := &script{r: r, chunk: chunker(r)}
			mode := 0
			var body []byte
			s.onCall = func(rec []byte) []byte {
				x := binary.BigEndian.Uint32(rec)
				ok := reply{xid: x, verf: randAuth(r), results: opaqueBytes(nil, body)}
				switch mode {
				case 1: // some other status, with or without bytes behind it
					ok.stat = uint32(1 + r.Intn(5))
					if r.Intn(2) == 0 {
						ok.results = nil
					}
					ok.low, ok.high = 1, 9
				case 2:
					return record(append(reply{xid: x, denied: true, stat: 0, low: 2, high: 2}.bytes(), make([]byte, 4*r.Intn(3))...))
				case 3:
					return record(reply{xid: x, denied: true, stat: 1, authStat: uint32(1 + r.Intn(5))}.bytes())
				case 4:
					ok.xid += uint32(1 + r.Intn(1000))
				case 5: // undecodable results
					b := ok.bytes()
					return record(b[:len(b)-1-r.Intn(len(ok.results))])
				case 6: // not a reply message
					return record(call{xid: x, rpcvers: 2}.bytes())
				case 7: // undecodable header
					b := ok.bytes()
					return record(b[:r.Intn(24)])
				case 8:
					b := make([]byte, 60+r.Intn(1000))
					r.Read(b)
					b[0] ^= ^byte(x>>24) ^ b[0] // not this transaction
					return record(b)
				case 9:
					return record(append(ok.bytes(), make([]byte, r.Intn(500))...)) // success with more behind it
				case 10:
					return record(nil)
				case 11: // verifier over its limit
					ok.verf = auth{0, make([]byte, 404)}
				}
				return record(ok.bytes())
			}
			c := rfc1057.MakeClient(s, 5, 1)
			hist := ""
			n := 2 + r.Intn(20)
			nfail := 0
			for k := 0; k < n; k++ {
				body = make([]byte, []int{0, 1, 30, 1000, 5000}[r.Intn(5)])
				r.Read(body)
				mode = 0
				if r.Intn(2) == 0 {
					mode = 1 + r.Intn(11)
				}
				var args xdr.Xdrable = &opq{make([]byte, r.Intn(50))}
				bad := r.Intn(6) == 0
				if bad {
					args = badArgs(r)
				}
				res := &opq{}
				hist += fmt.Sprintf(" [mode %d unencodable %v size %d]", mode, bad, len(body))
				m.Case(hist)
				ret, err := doCall(c, args, res)
				if !ret {
					m.Violation("hang", "call %d does not return:%s", k, hist)
					break
				}
				good := !bad && (mode == 0 || mode == 9)
				if good && (err != nil || !bytes.Equal(res.B, body)) {
					m.Violation("aligned", "call %d should have succeeded with %d bytes, but gave %v and %d bytes:%s", k, len(body), err, len(res.B), hist)
					break
				}
				if !good {
					nfail++
					if err == nil {
						m.Violation("accepted", "call %d should have failed:%s", k, hist)
						break
					}
				}
				m.Count("sequence_calls", 1)
			}
			m.Eval([]byte(hist), nfail > 0)
			m.Sample(map[string]string{"sequence": fmt.Sprintf("%.300s", hist)})
		}
	})
}
