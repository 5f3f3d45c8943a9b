package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verifharness/mon"
	"verifharness/sim"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// quietStderr sends what the server prints about failed requests to /dev/null.
var realStderr *os.File // kept, or its finalizer would close the descriptor crashes are reported on

func quietStderr() func() {
	if realStderr == nil {
		realStderr = os.Stderr
	}
	f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stderr = f // for good: what is still running may print
	}
	return func() {}
}

// badRecord makes the contents of a record that is not a well-formed call.
func badRecord(r *mRand, g *rig) ([]byte, string) {
	good := call{xid: r.Uint32(), rpcvers: 2, prog: 100, vers: 1, proc: 1, cred: auth{0, nil}}
	switch r.Intn(9) {
	case 0:
		return nil, "empty"
	case 1: // truncated header
		p := newPlan(r, []int{0})
		good.args = p.argBytes()
		b := good.bytes()
		hdr := len(b) - len(good.args)
		return b[:r.Intn(hdr)], "truncated"
	case 2:
		rep := reply{xid: r.Uint32(), stat: uint32(r.Intn(5))}
		return rep.bytes(), "reply"
	case 3:
		rep := reply{xid: r.Uint32(), denied: true, stat: uint32(r.Intn(2)), low: 2, high: 2}
		return rep.bytes(), "denial"
	case 4:
		p := newPlan(r, []int{0, 5})
		g.add(p)
		good.args = p.argBytes()
		b := good.bytes()
		binary.BigEndian.PutUint32(b[4:], []uint32{2, 3, 0x80000000, 0xffffffff, 256}[r.Intn(5)])
		return b, "message type"
	case 5:
		good.cred = auth{1, make([]byte, 401+r.Intn(300))}
		return good.bytes(), "credential over limit"
	case 6:
		good.verf = auth{1, make([]byte, 401+r.Intn(300))}
		return good.bytes(), "verifier over limit"
	case 7:
		good.args = nil
		b := good.bytes()
		o := len(b) - []int{4, 12}[r.Intn(2)] // one of the auth lengths
		binary.BigEndian.PutUint32(b[o:], []uint32{100, 400, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.Intn(6)])
		return b, "auth length beyond the record"
	}
	b := make([]byte, r.Intn(60))
	r.Read(b)
	if len(b) >= 8 {
		b[7] |= 2 // never a call
	}
	return b, "random"
}

// randCall makes a call of some kind and what should come of it.
func randCall(r *mRand, g *rig, sizes []int) want {
	if g.nbare < maxBare && r.Intn(10) == 0 {
		p, c := g.bareCall(r)
		g.add(p)
		return g.expect(c, p)
	}
	p := newPlan(r, sizes)
	c := call{xid: r.Uint32(), rpcvers: 2, prog: 100, vers: []uint32{1, 3}[r.Intn(2)], proc: []uint32{0, 1, 2, 5}[r.Intn(4)],
		cred: randAuth(r), verf: randAuth(r), args: p.argBytes()}
	if r.Intn(6) == 0 {
		c.xid = []uint32{0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff}[r.Intn(6)] // duplicate and extreme transaction ids
	}
	p.result = []string{"alias", "alias", "fresh", "fresh", "nil", "void", "err", "errres", "unenc", "unencpart"}[r.Intn(10)]
	switch r.Intn(12) {
	case 0:
		c.rpcvers = []uint32{0, 1, 3, 0xffffffff, 0x02000000}[r.Intn(5)]
	case 1:
		c.prog = []uint32{0, 99, 101, 0xffffffff}[r.Intn(4)]
	case 2:
		c.vers = []uint32{0, 2, 4, 0xffffffff}[r.Intn(4)]
	case 3:
		c.proc = []uint32{3, 4, 6, 0xffffffff}[r.Intn(4)]
	case 4:
		if cut := r.Intn(len(c.args)); cut < len(c.args)-(len(p.b)+3)/4*4 || len(p.b) > 0 {
			c.args = c.args[:cut]
			w := g.expect(c, nil)
			if len(c.args) >= 8 {
				p.key = &[3]uint32{c.prog, c.vers, c.proc}
				g.add(p) // it is invoked, and reports that it cannot decode
				w.p = p
				if w.reply.stat != 4 || w.reply.denied {
					w.p = nil
				}
			}
			return w
		}
	case 5:
		c.args = append(c.args, make([]byte, []int{4 * (1 + r.Intn(5)), 1 + r.Intn(9), 1 + r.Intn(5000), 1 + r.Intn(70000)}[r.Intn(4)])...) // more than the procedure reads
	}
	g.add(p)
	return g.expect(c, p)
}

// invocations checks that exactly the expected procedures ran, once each.
func (g *rig) invocations(ws []want) (problems []string) {
	exp := map[*plan]bool{}
	for _, w := range ws {
		if w.p != nil {
			exp[w.p] = true
		}
	}
	g.mu.Lock()
	defer g.mu.Unlock()
	for _, p := range g.plans {
		want := 0
		if exp[p] {
			want = 1
		}
		if n := p.calls(); n != want {
			problems = append(problems, fmt.Sprintf("procedure for call id %x invoked %d times, expected %d", p.id, n, want))
		}
	}
	return problems
}

func report(m *mon.M, key, hist string, ps []string) bool {
	if len(ps) == 0 {
		return true
	}
	n := len(ps)
	if n > 6 {
		ps = ps[:6]
	}
	m.Violation(key, "%d problems:\n%s\nhistory: %.3000s", n, joinLines(ps), hist)
	return false
}

func joinLines(l []string) string {
	var b bytes.Buffer
	for _, s := range l {
		b.WriteString("  " + s + "\n")
	}
	return b.String()
}

func standardRegs(g *rig) {
	for _, v := range []uint32{1, 3} {
		for _, p := range []uint32{0, 1, 2, 5} {
			g.register(100, v, p)
		}
	}
	g.register(200, 7, 9)
	for k := uint32(0); k < maxBare; k++ {
		g.srv.Register(300, 1, k, g.bareHandler(k))
		g.regs[[3]uint32{300, 1, k}] = true
	}
}

// opts shapes a random history.
type opts struct {
	sizes    []int // of byte arguments and results
	servers  int
	conns    int
	calls    int
	badPct   int  // malformed records
	gatePct  int  // gated procedures
	hold     bool // block and release reply writes
	quiesce  int  // one in so many steps
	keys     [2]string
	plainPct int // calls restricted to properly dispatched ones
}

// history drives servers with a random history over several connections:
// calls of all kinds, malformed records, procedures gated at several points and
// released in random order, reply writes held up, random read segmentation.
// Everything is judged at the end, and at quiescent points in between.
func history(m *mon.M, r *mRand, o opts) {
	type cs struct {
		g    *rig
		c    *rconn
		ws   []want
		pend []byte
		held bool
	}
	var rigs []*rig
	for i := 0; i < max(o.servers, 1); i++ {
		g := newRig(m)
		standardRegs(g)
		rigs = append(rigs, g)
	}
	var cc []*cs
	for i := 0; i < o.conns; i++ {
		g := rigs[i%len(rigs)]
		yield := r.Intn(2) == 0
		c := g.conn(func(c *rconn) {
			c.Chunk = chunker(r)
			if yield {
				c.Yield = runtime.Gosched
			}
		})
		cc = append(cc, &cs{g: g, c: c})
	}
	hist := ""
	var gated []*plan
	all := map[*rig][]want{}
	n := 0
	ok := true
	settle := func() {
		sim.Quiesce()
		m.Count("quiescent_points", 1)
		for i, s := range cc {
			recs, rest, bad := s.c.Settled()
			if bad || rest > 0 && s.c.Held() == 0 { // a held write may be the rest
				ok = report(m, o.keys[0], hist, []string{fmt.Sprintf("connection %d: output so far is not a sequence of whole records: %d records, then %d bytes", i, recs, rest)})
				stop(m)
			}
		}
	}
	for k := 0; k < o.calls; k++ {
		i := r.Intn(o.conns)
		s := cc[i]
		if r.Intn(100) < o.badPct {
			b, what := badRecord(r, s.g)
			s.pend = append(s.pend, record(b)...)
			hist += fmt.Sprintf("conn %d: %s record %x\n", i, what, clip(b))
			m.Count("malformed_records", 1)
		} else {
			var w want
			if r.Intn(100) < o.plainPct {
				w = plainCall(r, s.g, o.sizes)
			} else {
				w = randCall(r, s.g, o.sizes)
			}
			if w.p != nil && r.Intn(100) < o.gatePct {
				for _, pt := range gatePoints {
					if r.Intn(3) == 0 {
						w.p.gates[pt] = make(chan struct{})
					}
				}
				gated = append(gated, w.p)
			}
			all[s.g] = append(all[s.g], w)
			n++
			s.ws = append(s.ws, w)
			s.pend = append(s.pend, record(w.call.bytes())...)
			hist += fmt.Sprintf("conn %d: %s\n", i, clipCall(w.call))
			m.Count("calls", 1)
		}
		// feed some of what is pending, at arbitrary byte boundaries
		for _, s := range cc {
			if len(s.pend) > 0 && r.Intn(3) == 0 {
				n := len(s.pend)
				if r.Intn(2) == 0 {
					n = 1 + r.Intn(n)
				}
				s.c.Feed(s.pend[:n])
				s.pend = s.pend[n:]
			}
		}
		if o.hold && r.Intn(4) == 0 {
			s := cc[r.Intn(len(cc))]
			s.held = !s.held
			s.c.Hold(s.held)
			m.Count("write_holds", 1)
		}
		if r.Intn(max(o.quiesce, 2)) == 0 {
			settle()
			for len(gated) > 0 && r.Intn(3) > 0 {
				release(r, &gated)
				if r.Intn(2) == 0 {
					settle()
				}
			}
		}
	}
	ended := map[int]bool{}
	for i, s := range cc {
		s.c.Feed(s.pend)
		if r.Intn(4) == 0 { // its input ends while calls may be under way
			s.c.End(faults[r.Intn(len(faults))])
			ended[i] = true
			hist += fmt.Sprintf("conn %d: input ends\n", i)
			m.Count("inputs_ended_during_calls", 1)
		}
	}
	settle()
	for len(gated) > 0 {
		release(r, &gated)
		if r.Intn(3) == 0 {
			settle()
		}
	}
	for _, s := range cc {
		s.c.Hold(false)
	}
	settle()
	for i, s := range cc {
		if done, err := s.c.finished(); done && !ended[i] {
			ok = report(m, o.keys[0], hist, []string{fmt.Sprintf("serving of connection %d ended with %v although its input had not ended", i, err)}) && ok
		}
		if n := s.c.Unread(); n > 0 {
			ok = report(m, o.keys[0], hist, []string{fmt.Sprintf("connection %d: %d bytes of input were never read", i, n)}) && ok
		}
		ok = report(m, o.keys[0], hist, match(s.c.Out(), s.ws)) && ok
		m.Count("replies_judged", int64(len(s.ws)))
	}
	for _, g := range rigs {
		ok = report(m, o.keys[1], hist, g.invocations(all[g])) && ok
		ok = report(m, o.keys[1], hist, g.problems()) && ok
	}
	if !ok {
		stop(m)
	}
	for _, g := range rigs {
		g.close()
	}
	for i, s := range cc {
		if done, err := s.c.finished(); !done || err == nil {
			ok = report(m, o.keys[0], hist, []string{fmt.Sprintf("connection %d: serving did not end with an error at end of input (returned %v, %v)", i, done, err)}) && ok
		}
		ok = report(m, o.keys[0], hist, match(s.c.Out(), s.ws)) && ok
	}
	if !ok {
		stop(m)
	}
	m.Eval([]byte(hist), n > 1)
	m.Sample(map[string]any{"connections": o.conns, "history": fmt.Sprintf("%.400s", hist)})
}

var gatePoints = []string{"enter", "mid", "decoded", "done", "encode"}

// plainCall makes a call that is dispatched and succeeds.
func plainCall(r *mRand, g *rig, sizes []int) want {
	if g.nbare < maxBare && r.Intn(10) == 0 {
		p, c := g.bareCall(r)
		p.result = []string{"alias", "fresh"}[r.Intn(2)]
		g.add(p)
		return g.expect(c, p)
	}
	p := newPlan(r, sizes)
	p.result = []string{"alias", "alias", "fresh"}[r.Intn(3)]
	c := call{xid: r.Uint32(), rpcvers: 2, prog: 100, vers: []uint32{1, 3}[r.Intn(2)], proc: []uint32{0, 1, 2, 5}[r.Intn(4)], cred: randAuth(r), args: p.argBytes()}
	g.add(p)
	return g.expect(c, p)
}

// holdSome gates some of the procedures the calls invoke.
func holdSome(r *mRand, ws []want) (held []*plan) {
	if r.Intn(3) == 0 {
		return nil
	}
	for _, w := range ws {
		if w.p != nil && r.Intn(2) == 0 {
			w.p.gates[gatePoints[r.Intn(len(gatePoints))]] = make(chan struct{})
			held = append(held, w.p)
		}
	}
	return held
}

// release lets one random gate of one gated procedure open (or all of one).
func release(r *mRand, gated *[]*plan) {
	i := r.Intn(len(*gated))
	p := (*gated)[i]
	var open []string
	for _, pt := range gatePoints {
		if ch := p.gates[pt]; ch != nil {
			select {
			case <-ch:
			default:
				open = append(open, pt)
			}
		}
	}
	if len(open) > 0 {
		if r.Intn(3) == 0 {
			for _, pt := range open {
				close(p.gates[pt])
			}
			open = nil
		} else {
			close(p.gates[open[0]])
			open = open[1:]
		}
	}
	if len(open) == 0 {
		*gated = append((*gated)[:i:i], (*gated)[i+1:]...)
	}
}

func TestC09(t *testing.T) {
	defer quietStderr()()
	run(t, "C09", "random histories of well-formed calls (all outcomes, duplicate ids, pipelined, on several connections, cut into arbitrary reads, procedures gated and released in random order) mixed with records that are not calls; oracle: multiset of replies per connection equals the model's and each accepted call's procedure ran once; non-trivial: histories with at least two calls, distinct by history", func(m *mon.M) {
		r := rng(m, "hist")
		for i := 0; i < m.N(500, 12000); i++ {
			m.Case(fmt.Sprint("history ", i))
			undo := procs([]int{1, 2, 8}[r.Intn(3)])
			sizes := [][]int{{0, 1, 3, 4, 10}, {0, 7, 100, 900}, {0, 5, 3000, 70000}}[r.Intn(3)]
			history(m, r, opts{sizes: sizes, conns: 1 + r.Intn(4), calls: 1 + r.Intn(40), badPct: 20, gatePct: 30, quiesce: 6, hold: i%4 == 0, keys: [2]string{"replies", "invocations"}})
			undo()
		}
		// every read boundary inside one short exchange
		for cut := 0; ; cut++ {
			g := newRig(m)
			standardRegs(g)
			w1, w2 := fixedCall(r, g), fixedCall(r, g)
			in := append(record(w1.call.bytes()), record(w2.call.bytes())...)
			if cut > len(in) {
				g.close()
				break
			}
			c := g.conn()
			c.Feed(in[:cut])
			sim.Quiesce()
			early := match(c.Out(), []want{w1, w2}[:(cut)/(len(in)/2)])
			c.Feed(in[cut:])
			sim.Quiesce()
			ok := report(m, "boundary", fmt.Sprintf("two calls, first read %d of %d bytes", cut, len(in)), append(early, match(c.Out(), []want{w1, w2})...))
			ok = report(m, "boundary", fmt.Sprintf("two calls, first read %d bytes", cut), append(g.invocations([]want{w1, w2}), g.problems()...)) && ok
			g.close()
			if !ok {
				stop(m)
			}
			m.Eval([]byte(fmt.Sprint("cut", cut)), true)
			m.Count("read_boundaries", 1)
		}
		sizeSweep(m, "sizes", m.N(100, 3000))
		virtual(t, m, "hours", func(r *mRand) {
			for i := 0; i < m.N(120, 3000); i++ {
				m.Case(fmt.Sprint("history over hours ", i))
				history(m, r, opts{sizes: []int{0, 3, 100, 3000}, conns: 1 + r.Intn(4), calls: 1 + r.Intn(40), badPct: 20, gatePct: 30, quiesce: 3, keys: [2]string{"replies", "invocations"}})
			}
		})
		virtual(t, m, "slow readers", func(r *mRand) {
			for i := 0; i < m.N(60, 1500); i++ {
				m.Case(fmt.Sprint("history with slow readers ", i))
				history(m, r, opts{sizes: []int{0, 3, 100, 3000}, conns: 1 + r.Intn(4), calls: 1 + r.Intn(40), badPct: 10, gatePct: 20, quiesce: 3, hold: true, keys: [2]string{"replies", "invocations"}})
			}
		})
		for i := 0; i < m.N(60, 2000); i++ {
			identical(m, r, i)
		}
		manyConnections(m, m.N(11000, 40000))
		connectionsInTurn(m, m.N(70000, 400000))
		longConnection(m, m.N(140000, 1500000), 60)
	})
}

// identical sends the very same call several times, alone or between others.
func identical(m *mon.M, r *mRand, i int) {
	srv := rfc1057.MakeServer()
	var mu sync.Mutex
	ran := map[string]int{}
	srv.Register(100, 1, 1, func(args *xdr.XdrState) (xdr.Xdrable, error) {
		o := &opq{}
		o.Xdr(args)
		if args.Error() != nil {
			return nil, args.Error()
		}
		mu.Lock()
		ran[string(o.B)]++
		mu.Unlock()
		return o, nil
	})
	c := sim.NewConn()
	go srv.Run(sim.Net{Conn: c})
	var pool []call
	for k := 1 + r.Intn(3); k > 0; k-- {
		b := make([]byte, []int{0, 4, 60, 4000, 70000}[r.Intn(5)])
		r.Read(b)
		pool = append(pool, call{xid: uint32(r.Intn(3)), rpcvers: 2, prog: 100, vers: 1, proc: uint32(1 + r.Intn(6)/5), cred: randAuth(r), args: opaqueBytes(nil, b)})
	}
	hist := fmt.Sprintf("identical calls %d: ", i)
	var ws []want
	exp := map[string]int{}
	for n := 2 + r.Intn(12); n > 0; n-- {
		k := r.Intn(len(pool))
		cl := pool[k]
		rep := &reply{xid: cl.xid, results: cl.args}
		if cl.proc != 1 {
			rep.stat, rep.results = 3, nil
		} else {
			exp[string(cl.args)]++
		}
		ws = append(ws, want{call: cl, reply: rep})
		hist += fmt.Sprint(k, " ")
		c.Feed(record(cl.bytes()))
		if r.Intn(2) == 0 {
			sim.Quiesce()
		}
	}
	m.Case(hist)
	sim.Quiesce()
	ps := match(c.Out(), ws)
	mu.Lock()
	for k, n := range ran {
		if w := exp[string(opaqueBytes(nil, []byte(k)))]; w != n {
			ps = append(ps, fmt.Sprintf("a call sent %d times ran %d times", w, n))
		}
	}
	if len(ran) != len(exp) {
		ps = append(ps, fmt.Sprintf("%d different calls ran, expected %d", len(ran), len(exp)))
	}
	mu.Unlock()
	if !report(m, "identical", hist, ps) {
		stop(m)
	}
	c.End(io.EOF)
	sim.Quiesce()
	m.Count("identical_calls", int64(len(ws)))
	m.Eval([]byte(fmt.Sprintf("%s %v", hist, pool)), true)
}

// longConnection makes a great many small calls on one connection.
// A malformed record comes before one in every so many.
func longConnection(m *mon.M, ncalls, bad int) {
	r := rng(m, "long")
	g := newRig(m)
	defer g.close()
	m.Case("long connection")
	srv := rfc1057.MakeServer()
	var mu sync.Mutex
	ran := map[uint64]int{}
	srv.Register(100, 1, 1, func(args *xdr.XdrState) (xdr.Xdrable, error) {
		var x uint64
		xdr.XdrU64(args, &x)
		if args.Error() != nil {
			return nil, args.Error()
		}
		mu.Lock()
		ran[x]++
		mu.Unlock()
		return &tagRes{x * 3, nil}, nil
	})
	c := sim.NewConn()
	fin := make(chan error, 1)
	go func() { fin <- srv.Run(sim.Net{Conn: c}) }()
	var ws []want
	accepted := 0
	for n := 0; n < ncalls; {
		var b []byte
		for k := 1 + r.Intn(200); k > 0; k-- {
			n++
			cl := call{xid: uint32(n), rpcvers: 2, prog: 100, vers: 1, proc: 1, args: be(be(nil, uint32(n>>10)), uint32(n))}
			id := uint64(n>>10)<<32 | uint64(n)
			rep := &reply{xid: cl.xid, results: opaqueBytes(be(be(nil, uint32(id*3>>32)), uint32(id*3)), nil)}
			if r.Intn(bad) == 0 {
				x, _ := badRecord(r, g)
				b = append(b, record(x)...)
				m.Count("malformed_records", 1)
			}
			switch r.Intn(60) {
			case 0:
				cl.proc, rep.stat, rep.results = 2, 3, nil
			case 1:
				cl.args, rep.stat, rep.results = cl.args[:4], 4, nil
			default:
				accepted++
			}
			b = append(b, record(cl.bytes())...)
			ws = append(ws, want{call: cl, reply: rep})
		}
		c.Feed(b)
		sim.Quiesce()
		recs, rest, bad := c.Settled()
		if recs != len(ws) || rest > 0 || bad {
			report(m, "long", fmt.Sprintf("%d calls on one connection", len(ws)), []string{fmt.Sprintf("%d replies and %d more bytes", recs, rest)})
			stop(m)
		}
		m.Case("long connection")
	}
	hist := fmt.Sprintf("%d calls on one connection", len(ws))
	ok := report(m, "long", hist, match(c.Out(), ws))
	mu.Lock()
	if len(ran) != accepted {
		ok = report(m, "long", hist, []string{fmt.Sprintf("%d procedures ran, expected %d", len(ran), accepted)})
	}
	for id, k := range ran {
		if k != 1 {
			ok = report(m, "long", hist, []string{fmt.Sprintf("the procedure of call %d ran %d times", id&0xffffffff, k)})
			break
		}
	}
	mu.Unlock()
	if !ok {
		stop(m)
	}
	c.End(io.EOF)
	sim.Quiesce()
	m.Count("calls", int64(len(ws)))
	m.Count("calls_on_one_connection", int64(len(ws)))
	m.Eval([]byte(hist), true)
}

// manyConnections serves a great many connections at once.
func manyConnections(m *mon.M, nconn int) {
	r := rng(m, "many")
	m.Case("many connections")
	g := newRig(m)
	standardRegs(g)
	ws := make([][]want, nconn)
	cc := make([]*rconn, nconn)
	for i := range cc {
		cc[i] = g.conn()
	}
	for k := 0; k < 2; k++ {
		for i, c := range cc {
			w := randCall(r, g, []int{0, 5, 40})
			ws[i] = append(ws[i], w)
			c.Feed(record(w.call.bytes()))
		}
		if k == 0 {
			sim.Quiesce()
		}
	}
	sim.Quiesce()
	ok := true
	var all []want
	for i, c := range cc {
		ok = ok && report(m, "many", fmt.Sprintf("connection %d of %d", i, nconn), match(c.Out(), ws[i]))
		all = append(all, ws[i]...)
	}
	ok = ok && report(m, "many", fmt.Sprintf("%d connections", nconn), append(g.invocations(all), g.problems()...))
	if !ok {
		stop(m)
	}
	g.close()
	m.Count("calls", int64(2*nconn))
	m.Count("connections_at_once", int64(nconn))
	m.Eval([]byte(fmt.Sprint("many ", nconn)), true)
}

// connectionsInTurn serves a great many connections one after the other.
func connectionsInTurn(m *mon.M, nconn int) {
	r := rng(m, "in turn")
	m.Case("connections in turn")
	var runs atomic.Int64
	s := rfc1057.MakeServer()
	s.Register(100, 1, 2, func(args *xdr.XdrState) (xdr.Xdrable, error) {
		runs.Add(1)
		var o opq
		o.Xdr(args)
		return &o, args.Error()
	})
	for i := 0; i < nconn; i++ {
		b := make([]byte, r.Intn(3)*4)
		r.Read(b)
		ok := i%5 != 4
		c := call{xid: r.Uint32(), rpcvers: 2, prog: 100, vers: 1, proc: 2, args: opaqueBytes(nil, b)}
		w := reply{xid: c.xid, results: c.args}
		if !ok {
			c.prog, w = 101, reply{xid: c.xid, stat: 1}
		}
		x := newMetered(record(c.bytes()), 1)
		x.keep = true
		done := make(chan bool)
		go func() {
			s.Run(x)
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
		}
		x.mu.Lock()
		got := x.out
		x.mu.Unlock()
		n := runs.Swap(0)
		if !bytes.Equal(got, record(w.bytes())) || (n == 1) != ok || n > 1 {
			m.Violation("many", "connection %d, one after the other, got %s and ran the procedure %d times for the call %s", i, fmt.Sprintf("%x", got), n, fmt.Sprintf("%x", c.bytes()))
			return
		}
	}
	m.Count("calls", int64(nconn))
	m.Count("connections_in_turn", int64(nconn))
	m.Eval([]byte(fmt.Sprint("in turn ", nconn)), true)
}

// sizeSweep makes calls whose records have every length around powers of two,
// and any others, one after the other and two at a time.
func sizeSweep(m *mon.M, key string, n int) {
	r := rng(m, "sizes")
	g := newRig(m)
	standardRegs(g)
	c := g.conn(func(c *rconn) { c.Chunk = chunker(r) })
	var sizes []int
	for e := 6; e <= 20; e++ {
		for d := -8; d <= 8; d += 4 {
			sizes = append(sizes, 1<<e+d)
		}
	}
	sizes = append(sizes, 1<<24-4, 1<<24, 1<<24+4, 1<<26+4, 1<<27+64)
	for i := 0; i < n; i++ {
		sizes = append(sizes, int(math.Exp(r.Float64()*math.Log(1<<21))))
	}
	r.Shuffle(len(sizes), func(i, j int) { sizes[i], sizes[j] = sizes[j], sizes[i] })
	for i := 0; i < len(sizes); {
		var all []want
		hist := ""
		from := len(c.Out())
		for k := 1 + r.Intn(2); k > 0 && i < len(sizes); k-- {
			// 40 header, 8 id, 4+4+4 words; contents split over the two parts
			n := max(sizes[i]-60, 0)
			p := newPlan(r, []int{0})
			pa := n
			if r.Intn(2) == 0 {
				pa = r.Intn(n+1) / 4 * 4
			}
			p.a, p.b = make([]byte, pa), make([]byte, n-pa)
			r.Read(p.a)
			r.Read(p.b)
			cl := call{xid: r.Uint32(), rpcvers: 2, prog: 100, vers: 1, proc: 2, args: p.argBytes()}
			g.add(p)
			all = append(all, g.expect(cl, p))
			b := cl.bytes()
			hist += fmt.Sprintf(" record of %d bytes", len(b))
			c.Feed(record(b))
			i++
		}
		m.Case(hist)
		sim.Quiesce()
		if !report(m, key, hist, append(match(c.Out()[from:], all), g.problems()...)) || !report(m, key, hist, g.invocations(all)) {
			stop(m)
		}
		g.mu.Lock()
		g.plans = map[uint64]*plan{}
		g.mu.Unlock()
		c.Forget()
		m.Count("calls", int64(len(all)))
		m.Count("record_sizes", int64(len(all)))
		m.Eval([]byte(hist), true)
	}
	g.close()
}

// fixedCall is a call of a fixed size.
func fixedCall(r *mRand, g *rig) want {
	p := newPlan(r, []int{6})
	c := call{xid: r.Uint32(), rpcvers: 2, prog: 100, vers: 3, proc: 5, args: p.argBytes()}
	g.add(p)
	return g.expect(c, p)
}

// tagRes is a result that names the registration it came from.
type tagRes struct {
	tag  uint64
	body []byte
}

func (t *tagRes) Xdr(xs *xdr.XdrState) {
	xdr.XdrU64(xs, &t.tag)
	xdr.XdrVarArray(xs, -1, &t.body)
}

func TestC10(t *testing.T) {
	defer quietStderr()()
	run(t, "C10", "random registration sets (sparse and extreme numbers, overlaps, re-registration, Register and RegisterMany) and calls in and around them, each reply compared byte for byte with the one RFC 1057 prescribes; non-trivial: every reply kind, distinct by registrations and call", func(m *mon.M) {
		r := rng(m, "disp")
		nums := []uint32{0, 1, 2, 3, 4, 5, 7, 100, 255, 256, 100003, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
		num := func() uint32 {
			if r.Intn(5) == 0 {
				return r.Uint32()
			}
			return nums[r.Intn(len(nums))]
		}
		for i := 0; i < m.N(1500, 40000); i++ {
			m.Case(fmt.Sprint("registration set ", i))
			srv := rfc1057.MakeServer()
			regs := map[[3]uint32]uint64{}
			kind := map[uint64]string{}
			bodies := map[uint64][]byte{}
			var runs []uint64 // tags of handlers run
			var tag uint64
			var progs, verss, procss []uint32
			mk := func() rfc1057.ProcHandler {
				tag++
				my := tag
				kind[my] = []string{"ok", "ok", "ok", "nil", "void", "err", "errres", "need8", "unenc", "unencpart"}[r.Intn(10)]
				bodies[my] = make([]byte, []int{0, 1, 2, 3, 4, 50, 5000}[r.Intn(7)])
				if i%100 == 7 {
					bodies[my] = make([]byte, int(math.Exp(r.Float64()*math.Log(1<<23))))
				}
				if i%500 == 9 && my == 1 {
					bodies[my] = make([]byte, 1<<24+r.Intn(1<<20))
				}
				r.Read(bodies[my])
				m.Max("largest_result", int64(len(bodies[my])))
				why := append(faults, errors.New("no"), errors.New(""))[r.Intn(len(faults)+2)]
				kept := &tagRes{my, bodies[my]}
				return func(args *xdr.XdrState) (xdr.Xdrable, error) {
					runs = append(runs, my)
					res := &tagRes{my, bodies[my]}
					if my%2 == 0 { // one variable for the results of all calls
						res = kept
					}
					switch kind[my] {
					case "nil":
						return nil, nil
					case "void":
						return &xdr.Void{}, nil
					case "err":
						return nil, why
					case "errres":
						return res, why
					case "need8":
						var x uint64
						xdr.XdrU64(args, &x)
						return res, args.Error()
					case "unenc":
						return &unenc{}, nil
					case "unencpart":
						return &unenc{res}, nil
					}
					return res, nil
				}
			}
			var many []xdr.ProcRegistration
			flush := func() {
				srv.RegisterMany(many)
				many = nil
			}
			more := func(n int) {
				for k := 0; k < n; k++ {
					key := [3]uint32{num(), num(), num()}
					if len(progs) > 0 && r.Intn(3) > 0 {
						key[0] = progs[r.Intn(len(progs))]
						if r.Intn(2) == 0 {
							key[1] = verss[r.Intn(len(verss))]
							if r.Intn(3) == 0 {
								key[2] = procss[r.Intn(len(procss))]
							}
						}
					}
					h := mk()
					if r.Intn(2) == 0 {
						many = append(many, xdr.ProcRegistration{Prog: key[0], Vers: key[1], Proc: key[2], Handler: h})
						if r.Intn(2) == 0 {
							flush()
						}
					} else {
						flush()
						srv.Register(key[0], key[1], key[2], h)
					}
					regs[key] = tag
					progs, verss, procss = append(progs, key[0]), append(verss, key[1]), append(procss, key[2])
				}
				flush()
			}
			more(r.Intn(12))
			g := &rig{m: m, srv: srv, plans: map[uint64]*plan{}, regs: map[[3]uint32]bool{}}
			for k := range regs {
				g.regs[k] = true
			}
			c := g.conn()
			var ws []want
			pick := func(l []uint32) uint32 {
				if len(l) == 0 || r.Intn(5) == 0 {
					return num()
				}
				x := l[r.Intn(len(l))]
				if r.Intn(6) == 0 {
					x += uint32(r.Intn(3)) - 1
				}
				return x
			}
			hist := fmt.Sprintf("registered %v\n", regs)
			again := r.Intn(20)
			for k := 0; k < 12; k++ {
				if k == again { // nothing is under way
					more(1 + r.Intn(6))
					for x := range regs {
						g.regs[x] = true
					}
					hist += fmt.Sprintf("after %d calls, registered %v\n", k, regs)
					if r.Intn(2) == 0 {
						c = g.conn()
					}
					m.Count("registrations_after_calls", 1)
				}
				cl := call{xid: r.Uint32(), rpcvers: 2, prog: pick(progs), vers: pick(verss), proc: pick(procss), cred: randAuth(r), verf: randAuth(r)}
				if j := r.Intn(len(progs) + 1); j < len(progs) && r.Intn(2) == 0 {
					cl.prog, cl.vers, cl.proc = progs[j], verss[j], procss[j]
				}
				if r.Intn(10) == 0 {
					cl.rpcvers = num()
				}
				cl.args = make([]byte, []int{0, 4, 7, 8, 20, r.Intn(1 << r.Intn(17))}[r.Intn(6)])
				r.Read(cl.args)
				w := g.expect(cl, nil)
				tg, isreg := regs[[3]uint32{cl.prog, cl.vers, cl.proc}]
				ran := isreg && cl.rpcvers == 2
				if ran {
					if b := bodies[tg]; len(b) > 0 { // other results than last time
						b[r.Intn(len(b))]++
					}
					// the handler decides
					w.reply.stat = 0
					switch kd := kind[tg]; {
					case kd == "err" || kd == "errres" || kd == "need8" && len(cl.args) < 8:
						w.reply.stat = 4
					case kd == "unenc" || kd == "unencpart":
						w.any = true
					case kd == "ok" || kd == "need8":
						w.reply.results = opaqueBytes(be(be(nil, 0), uint32(tg)), bodies[tg])
					}
				}
				runs = runs[:0]
				before := len(c.Out())
				c.Feed(record(cl.bytes()))
				sim.Quiesce()
				ps := match(c.Out()[before:], []want{w})
				if ran && (len(runs) != 1 || runs[0] != tg) {
					ps = append(ps, fmt.Sprintf("handlers run: %v, expected only %d", runs, tg))
				} else if !ran && len(runs) > 0 {
					ps = append(ps, fmt.Sprintf("handlers run: %v, expected none", runs))
				}
				ws = append(ws, w)
				if !report(m, "reply", hist+clipCall(cl), ps) {
					stop(m)
				}
				m.Count(fmt.Sprintf("replies_denied_%v_stat_%d_any_%v", w.reply.denied, w.reply.stat, w.any), 1)
				m.Eval([]byte(fmt.Sprintf("%v %v", hist, cl)), true)
				m.Sample(map[string]any{"registered": len(regs), "call": clipCall(cl), "reply": w.reply.String()})
			}
			g.close()
		}
		sizeSweep(m, "reply", m.N(40, 1500))
	})
}

// unenc is a result that cannot be encoded, possibly after some bytes.
type unenc struct{ first xdr.Xdrable }

func (u *unenc) Xdr(xs *xdr.XdrState) {
	if u.first != nil {
		u.first.Xdr(xs)
	}
	s := "12345"
	xdr.XdrString(xs, 4, &s)
}

func TestC15(t *testing.T) {
	defer quietStderr()()
	run(t, "C15", "histories with malformed records among well-formed calls; streams of calls cut (end of input or read error, alone or together with data) at every byte offset; non-final fragment marks; every reply write failing in turn, fully or after part of it, while other connections go on; non-trivial: runs with a fault or malformed record, distinct by history", func(m *mon.M) {
		r := rng(m, "bad")
		for i := 0; i < m.N(350, 8000); i++ {
			m.Case(fmt.Sprint("history ", i))
			undo := procs([]int{1, 2, 8}[r.Intn(3)])
			history(m, r, opts{sizes: []int{0, 1, 5, 60, 700}, conns: 1 + r.Intn(3), calls: 4 + r.Intn(30), badPct: 50, gatePct: 15, quiesce: 6, keys: [2]string{"contained", "contained"}})
			undo()
		}
		virtual(t, m, "hours", func(r *mRand) {
			for i := 0; i < m.N(80, 2000); i++ {
				m.Case(fmt.Sprint("history over hours ", i))
				history(m, r, opts{sizes: []int{0, 1, 5, 60, 700}, conns: 1 + r.Intn(3), calls: 4 + r.Intn(30), badPct: 50, gatePct: 15, quiesce: 4, keys: [2]string{"contained", "contained"}})
			}
		})
		// end of input at every byte
		for round := 0; round < m.N(12, 60); round++ {
			sizes := [][]int{{0, 3}, {5, 40}, {0, 300}}[round%3]
			for cut := 0; ; cut++ {
				m.Case(fmt.Sprint("cut ", round, cut))
				g := newRig(m)
				standardRegs(g)
				rr := rng(m, fmt.Sprint("cut", round)) // same stream for every cut
				var in []byte
				var ends []int
				var ws []want
				for k := 0; k < 3; k++ {
					if k == 1 && round%2 == 1 {
						b, _ := badRecord(rr, g)
						in = append(in, record(b)...)
						ends = append(ends, len(in))
						ws = append(ws, want{silent: true})
						continue
					}
					w := randCall(rr, g, sizes)
					in = append(in, record(w.call.bytes())...)
					ends = append(ends, len(in))
					ws = append(ws, w)
				}
				if cut > len(in) {
					g.close()
					break
				}
				var got []want
				for k, e := range ends {
					if e <= cut {
						got = append(got, ws[k])
					}
				}
				ferr := faults[r.Intn(len(faults))]
				other := g.conn()
				c := g.conn(func(c *rconn) {
					c.Chunk = chunker(r)
					c.WithEr = r.Intn(2) == 0
				})
				c.Feed(in[:cut])
				c.End(ferr)
				sim.Quiesce()
				hist := fmt.Sprintf("stream of %d bytes with records ending at %v, input ends at %d with %v (with data: %v)", len(in), ends, cut, ferr, c.WithEr)
				var ps []string
				if done, err := c.finished(); !done || err == nil {
					ps = append(ps, fmt.Sprintf("serving returned: %v, with error %v", done, err))
				}
				ps = append(ps, match(c.Out(), got)...)
				ps = append(ps, g.invocations(got)...)
				// another connection is unaffected
				w := fixedCall(r, g)
				other.Feed(record(w.call.bytes()))
				sim.Quiesce()
				ps = append(ps, match(other.Out(), []want{w})...)
				ps = append(ps, g.problems()...)
				ok := report(m, "cut", hist, ps)
				g.close()
				if !ok {
					stop(m)
				}
				m.Count("cut_points", 1)
				m.Eval([]byte(hist), true)
			}
		}
		longConnection(m, m.N(60000, 600000), 1)
		// reading fails once within a record, and what follows is there all the same
		for i := 0; i < m.N(400, 8000); i++ {
			g := newRig(m)
			standardRegs(g)
			m.Case(fmt.Sprint("fails once ", i))
			var in []byte
			var ends []int
			var ws []want
			for k := 0; k < 4; k++ {
				w := randCall(r, g, []int{0, 3, 30})
				in = append(in, record(w.call.bytes())...)
				ends = append(ends, len(in))
				ws = append(ws, w)
			}
			held := holdSome(r, ws)
			cut := r.Intn(len(in))
			if r.Intn(2) == 0 { // within or right before a record mark
				cut = append([]int{0}, ends...)[r.Intn(4)] + r.Intn(4)
			}
			var got []want
			for k, e := range ends {
				if e <= cut {
					got = append(got, ws[k])
				}
			}
			later := in[cut:]
			if r.Intn(2) == 0 { // or what follows starts with a whole record
				later = in[append([]int{0}, ends...)[r.Intn(4)]:]
			}
			ferr := faults[r.Intn(len(faults))]
			c := g.conn(func(c *rconn) { c.Chunk = chunker(r) })
			c.Feed(in[:cut])
			c.EndOnce(ferr, later)
			sim.Quiesce()
			for len(held) > 0 { // calls still in progress when serving ends
				release(r, &held)
				sim.Quiesce()
			}
			hist := fmt.Sprintf("stream of %d bytes with records ending at %v, reading fails once at %d with %v, then %x follows", len(in), ends, cut, ferr, clip(later))
			var ps []string
			if done, err := c.finished(); !done || err == nil {
				ps = append(ps, fmt.Sprintf("serving returned: %v, with error %v", done, err))
			}
			ps = append(ps, match(c.Out(), got)...)
			ps = append(ps, g.invocations(got)...)
			ps = append(ps, g.problems()...)
			ok := report(m, "cut", hist, ps)
			g.close()
			if !ok {
				stop(m)
			}
			m.Count("reads_failing_once", 1)
			m.Eval([]byte(hist), true)
		}
		// non-final fragments
		for i := 0; i < m.N(150, 2000); i++ {
			g := newRig(m)
			standardRegs(g)
			c := g.conn(func(c *rconn) { c.Chunk = chunker(r) })
			var ws []want
			k := r.Intn(4)
			for j := 0; j < k; j++ {
				w := randCall(r, g, []int{0, 30})
				ws = append(ws, w)
			}
			held := holdSome(r, ws)
			for _, w := range ws {
				c.Feed(record(w.call.bytes()))
			}
			w := fixedCall(r, g)
			b := w.call.bytes()
			mark := be(nil, uint32([]int{len(b), 0, 4, 1<<31 - 1}[r.Intn(4)]))
			c.Feed(append(mark, b...))
			w2 := fixedCall(r, g)
			c.Feed(record(w2.call.bytes()))
			sim.Quiesce()
			m.Count("in_progress_at_the_fragment", int64(len(held)))
			for len(held) > 0 {
				release(r, &held)
				sim.Quiesce()
			}
			hist := fmt.Sprintf("%d calls, then a record marked %x, then another call", k, mark)
			var ps []string
			if done, err := c.finished(); !done || err == nil {
				ps = append(ps, fmt.Sprintf("serving returned: %v, with error %v", done, err))
			}
			ps = append(ps, match(c.Out(), ws)...)
			ps = append(ps, g.invocations(ws)...)
			ok := report(m, "fragment", hist, ps)
			g.close()
			if !ok {
				stop(m)
			}
			m.Count("non_final_fragments", 1)
			m.Eval([]byte(hist), true)
		}
		// failing reply writes
		for i := 0; i < m.N(200, 4000); i++ {
			g := newRig(m)
			standardRegs(g)
			nth, part := r.Intn(5), r.Intn(40)
			werr := faults[r.Intn(len(faults))]
			other := g.conn()
			c := g.conn(func(c *rconn) {
				c.WriteOK = func(seq, n int) (int, error) {
					if seq >= nth {
						return min(part, n), werr
					}
					return n, nil
				}
			})
			var ws, ows []want
			for j := 0; j < 6; j++ {
				w := randCall(r, g, []int{0, 30, 2000})
				ws = append(ws, w)
				c.Feed(record(w.call.bytes()))
				w = randCall(r, g, []int{0, 30, 2000})
				ows = append(ows, w)
				other.Feed(record(w.call.bytes()))
				if r.Intn(2) == 0 {
					sim.Quiesce()
				}
			}
			sim.Quiesce()
			hist := fmt.Sprintf("reply write %d of a connection fails with %v after %d bytes", nth, werr, part)
			ps := match(other.Out(), ows)
			if done, _ := other.finished(); done {
				ps = append(ps, "serving of the other connection ended")
			}
			ps = append(ps, g.problems()...)
			ps = append(ps, g.invocations(append(append([]want{}, ows...), ws...))...)
			ok := report(m, "write", hist, ps)
			g.close()
			if !ok {
				stop(m)
			}
			m.Count("failed_writes", 1)
			m.Eval([]byte(hist+fmt.Sprint(i)), true)
		}
		// announced but never sent
		for _, n := range []uint32{1, 4, 1 << 20, 1<<20 + 1, 3 << 20, 1<<31 - 1} {
			for _, have := range []int{0, 1, 100, 100, 900, 5000, 1 << 20, 1<<20 + 5} {
				if uint32(have) >= n {
					continue
				}
				g := newRig(m)
				standardRegs(g)
				w := fixedCall(r, g)
				c := g.conn()
				c.Feed(record(w.call.bytes()))
				p := newPlan(r, []int{0})
				g.add(p)
				b := call{xid: 1, rpcvers: 2, prog: 100, vers: 1, proc: 1, args: p.argBytes()}.bytes()
				body := append(b, make([]byte, 2<<20)...)
				if r.Intn(2) == 0 { // calls, if they were read as records
					body = bytes.Repeat(record(b), (2<<20)/len(b)+1)
				}
				x := append(be(nil, 1<<31|n), body[:have]...)
				c.Feed(x)
				c.End(io.EOF)
				sim.Quiesce()
				var ps []string
				if done, err := c.finished(); !done || err == nil {
					ps = append(ps, fmt.Sprintf("serving returned: %v, with error %v", done, err))
				}
				ps = append(ps, match(c.Out(), []want{w})...)
				ps = append(ps, g.invocations([]want{w})...)
				ok := report(m, "short", fmt.Sprintf("a record announcing %d bytes with %d supplied", n, have), ps)
				g.close()
				if !ok {
					stop(m)
				}
				m.Eval([]byte(fmt.Sprint("short", n, have)), true)
			}
		}
	})
}
