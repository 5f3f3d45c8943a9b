package checks

import (
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verifharness/mon"
	"verifharness/sim"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

func TestC11(t *testing.T) {
	defer quietStderr()()
	run(t, "C11", "many procedures completing at once: all reply writes of a connection held and released together (repeatedly), reply sizes 0 to several MB, several connections, 1 to 8 threads; plus real TCP; oracle: the byte stream parses into whole single-fragment records, each the reply of a call; non-trivial: at least two replies written concurrently, distinct by run", func(m *mon.M) {
		r := rng(m, "hold")
		for i := 0; i < m.N(400, 8000); i++ {
			m.Case(fmt.Sprint("hold ", i))
			undo := procs([]int{1, 4, 8}[i%3])
			g := newRig(m)
			standardRegs(g)
			sizes := [][]int{{0}, {0, 1, 2, 3, 4, 5}, {0, 100, 5000}, {0, 30000, 70000, 200000}, {0, 1 << 20, 3 << 20}}[r.Intn(5)]
			if sizes[len(sizes)-1] > 1<<20 && r.Intn(4) > 0 {
				sizes = []int{0, 5}
			}
			ncalls := 2 + r.Intn(24)
			if i%200 == 100 {
				sizes = []int{1<<24 - 24, 17 << 20, m.N(20, 150) << 20}
			}
			if sizes[len(sizes)-1] > 100000 {
				ncalls = 2 + r.Intn(5)
			}
			m.Max("largest_size", int64(sizes[len(sizes)-1]))
			type cs struct {
				c  *rconn
				ws []want
			}
			var cc []*cs
			for k := 0; k < 1+r.Intn(3); k++ {
				c := g.conn(func(c *rconn) { c.Yield = runtime.Gosched })
				c.Hold(true)
				cc = append(cc, &cs{c: c})
			}
			peak := 0
			for k := 0; k < ncalls; k++ {
				s := cc[r.Intn(len(cc))]
				var w want
				if r.Intn(3) == 0 {
					w = randCall(r, g, sizes)
				} else {
					w = plainCall(r, g, sizes)
				}
				s.ws = append(s.ws, w)
				s.c.Feed(record(w.call.bytes()))
			}
			hist := fmt.Sprintf("run %d: %d calls on %d connections, sizes %v", i, ncalls, len(cc), sizes)
			sim.Quiesce()
			for _, s := range cc {
				peak = max(peak, s.c.Held())
			}
			m.Max("most_writes_in_progress_together", int64(peak))
			ok := true
			for rounds := 0; rounds < 3; rounds++ {
				for _, s := range cc {
					s.c.Hold(false)
				}
				if r.Intn(2) == 0 {
					runtime.Gosched()
					for _, s := range cc {
						s.c.Hold(true)
					}
					sim.Quiesce()
				}
			}
			for _, s := range cc {
				s.c.Hold(false)
			}
			sim.Quiesce()
			for _, s := range cc {
				ok = report(m, "records", hist, match(s.c.Out(), s.ws)) && ok
				m.Count("replies", int64(len(s.ws)))
				m.Count("stream_bytes", int64(len(s.c.Out())))
			}
			ok = report(m, "records", hist, g.problems()) && ok
			if !ok {
				stop(m)
			}
			g.close()
			undo()
			m.Eval([]byte(hist), peak > 1)
			m.Sample(map[string]any{"run": hist, "writes_in_progress_together": peak})
		}
		// procedures released together rather than writes
		for i := 0; i < m.N(150, 3000); i++ {
			burst := i%75 == 40 // a great many, with writing held up until all have finished
			m.Case(fmt.Sprint("gate ", i))
			undo := procs([]int{1, 4, 8}[i%3])
			g := newRig(m)
			standardRegs(g)
			c := g.conn(func(c *rconn) { c.Yield = runtime.Gosched })
			var ws []want
			gate := make(chan struct{})
			pt := []string{"done", "encode"}[r.Intn(2)]
			ncalls, sizes := 2+r.Intn(40), []int{0, 1, 7, 300, 9000}
			if burst {
				ncalls, sizes = 3000+r.Intn(m.N(3000, 20000)), []int{0, 1, 7, 80, 80, 80, 80, 80, 80, 80, 2000}
			}
			for k := 0; k < ncalls; k++ {
				w := plainCall(r, g, sizes)
				w.p.gates[pt] = gate
				ws = append(ws, w)
				c.Feed(record(w.call.bytes()))
			}
			sim.Quiesce()
			c.Hold(burst)
			close(gate)
			sim.Quiesce()
			m.Max("most_procedures_finishing_together", int64(len(ws)))
			m.Max("most_writes_in_progress_together", int64(c.Held()))
			c.Hold(false)
			sim.Quiesce()
			hist := fmt.Sprintf("run %d: %d procedures finishing at once", i, len(ws))
			if !report(m, "records", hist, append(match(c.Out(), ws), g.problems()...)) {
				stop(m)
			}
			m.Count("replies", int64(len(ws)))
			g.close()
			undo()
			m.Eval([]byte(hist), true)
		}
		tcpStorm(m, "records", m.N(4, 40), m.N(400, 2000))
	})
}

// tcpStorm serves real TCP connections with many calls in flight and compares
// the reply streams with the calls.
func tcpStorm(m *mon.M, key string, rounds, ncalls int) {
	r := rng(m, "tcp")
	for round := 0; round < rounds; round++ {
		m.Case(fmt.Sprint("tcp ", round))
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			m.Note("tcp", "no loopback network: "+err.Error())
			return
		}
		g := newRig(m)
		standardRegs(g)
		var wg sync.WaitGroup
		nconn := 3
		type cs struct {
			in  []byte
			ws  []want
			out []byte
			err error
		}
		cc := make([]*cs, nconn)
		for i := range cc {
			s := &cs{}
			cc[i] = s
			for k := 0; k < ncalls; k++ {
				w := plainCall(r, g, []int{0, 1, 30, 500, 4000, 40000}[:3+r.Intn(4)])
				s.ws = append(s.ws, w)
				s.in = append(s.in, record(w.call.bytes())...)
			}
		}
		for i := range cc {
			s := cc[i]
			cl, err := net.Dial("tcp", l.Addr().String())
			if err != nil {
				m.Note("tcp", err.Error())
				return
			}
			sv, err := l.Accept()
			if err != nil {
				m.Note("tcp", err.Error())
				return
			}
			wg.Add(3)
			go func() { defer wg.Done(); g.srv.Run(sv) }()
			go func() { defer wg.Done(); cl.Write(s.in) }()
			go func() {
				defer wg.Done()
				want := 0
				for _, w := range s.ws {
					want += 4 + len(w.reply.bytes())
				}
				buf := make([]byte, 1<<16)
				cl.SetReadDeadline(time.Now().Add(5 * time.Minute)) // only against hanging for ever
				for len(s.out) < want {
					n, err := cl.Read(buf)
					s.out = append(s.out, buf[:n]...)
					if err != nil {
						s.err = err
						break
					}
				}
				cl.Close()
				sv.Close()
			}()
		}
		wg.Wait()
		l.Close()
		ok := true
		for i, s := range cc {
			hist := fmt.Sprintf("tcp round %d connection %d: %d calls at once, %d reply bytes, read error %v", round, i, len(s.ws), len(s.out), s.err)
			if s.err != nil && !errors.Is(s.err, io.EOF) {
				if e, isNet := s.err.(net.Error); isNet && e.Timeout() {
					fmt.Println("INCONCLUSIVE: " + hist)
					stop(m)
				}
			}
			ok = report(m, key, hist, match(s.out, s.ws)) && ok
			m.Count("tcp_replies", int64(len(s.ws)))
			m.Eval([]byte(hist), true)
		}
		ok = report(m, key, "tcp", g.problems()) && ok
		if !ok {
			stop(m)
		}
	}
}

func TestC12(t *testing.T) {
	defer quietStderr()()
	run(t, "C12", "overlapping requests of widely varying sizes on several connections and servers, procedures gated before, between and after decoding their arguments and while their results are encoded, reply writes held, partial records pending, malformed records in between; procedures compare their (shared-memory) arguments with what was sent at every gate and the transport compares each buffer before and after its write; replies compared byte for byte; non-trivial: histories with overlapping calls, distinct by history", func(m *mon.M) {
		r := rng(m, "hist")
		for i := 0; i < m.N(700, 16000); i++ {
			m.Case(fmt.Sprint("history ", i))
			undo := procs([]int{1, 1, 1, 8}[r.Intn(4)])
			sizes := [][]int{{0, 8, 64, 65}, {40}, {0, 100, 1000, 10000}, {3, 4000, 4001}, {0, 50, 66000, 300000}, {1 << 20, 20, 1<<20 + 500}}[[]int{0, 0, 0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5}[r.Intn(16)]]
			n := 6 + r.Intn(40)
			if sizes[len(sizes)-1] > 1<<20 {
				n = 4 + r.Intn(5)
			}
			history(m, r, opts{sizes: sizes, servers: 1 + r.Intn(2), conns: 1 + r.Intn(4), calls: n, badPct: 8, gatePct: 70, plainPct: 80,
				hold: r.Intn(2) == 0, quiesce: 3, keys: [2]string{"replies", "isolation"}})
			undo()
		}
		virtual(t, m, "hours", func(r *mRand) {
			for i := 0; i < m.N(80, 2000); i++ {
				m.Case(fmt.Sprint("history over hours ", i))
				history(m, r, opts{sizes: [][]int{{0, 8, 64, 65}, {40}, {0, 100, 1000, 10000}}[r.Intn(3)], servers: 1 + r.Intn(2), conns: 1 + r.Intn(4), calls: 6 + r.Intn(40), badPct: 8, gatePct: 70, plainPct: 80,
					quiesce: 3, keys: [2]string{"replies", "isolation"}})
			}
		})
	})
}

func TestC13(t *testing.T) {
	defer quietStderr()()
	run(t, "C13", "sets of procedures blocked at random points, then further complete calls: at logical quiescence all of those are answered; then procedures released one at a time in random order: after each release exactly its reply has been added; non-trivial: runs with at least one blocked procedure, distinct by run", func(m *mon.M) {
		blockRuns(m, rng(m, "block"), m.N(250, 5000), true)
		virtual(t, m, "hours", func(r *mRand) { blockRuns(m, r, m.N(40, 800), false) })
		blockMany(m, m.N(80000, 300000), 0)
		blockMany(m, m.N(48, 250), 6<<20)
	})
}

// blockMany blocks a great many procedures, with arguments of the given size,
// on two connections. In the end their results, of that size too, are not
// taken at first.
func blockMany(m *mon.M, n, size int) {
	m.Case(fmt.Sprint(n, " blocked procedures"))
	srv := rfc1057.MakeServer()
	var inside atomic.Int64
	gate := make(chan struct{})
	body := &opq{make([]byte, size)}
	args := be(nil, uint32(size))
	args = append(args, body.B...)
	srv.Register(100, 1, 1, func(args *xdr.XdrState) (xdr.Xdrable, error) {
		inside.Add(1)
		<-gate
		if size > 0 {
			return body, nil
		}
		return &xdr.Void{}, nil
	})
	srv.Register(100, 1, 2, func(args *xdr.XdrState) (xdr.Xdrable, error) { return &xdr.Void{}, nil })
	var cc [3]*sim.Conn
	for i := range cc {
		cc[i] = sim.NewConn()
		go srv.Run(cc[i])
	}
	// until waits, and gives up when nothing moves any more
	until := func(what func() bool) bool {
		for i := 0; i < 60000; i++ {
			if what() {
				return true
			}
			time.Sleep(time.Millisecond)
		}
		sim.Quiesce()
		return what()
	}
	for i := 0; i < n; i++ {
		cc[i%2].Feed(record(call{xid: uint32(i), rpcvers: 2, prog: 100, vers: 1, proc: 1, args: args}.bytes()))
		if (i%1000 == 999 || size > 0) && !until(func() bool { return inside.Load() == int64(i+1) }) {
			report(m, "delayed", "procedures that all block", []string{fmt.Sprintf("only %d of %d received calls were executed while others were blocked", inside.Load(), i+1)})
			stop(m)
		}
		if i%1000 == 0 {
			m.Case(fmt.Sprint(i, " blocked procedures"))
		}
	}
	for i, c := range cc {
		c.Feed(record(call{xid: 7, rpcvers: 2, prog: 100, vers: 1, proc: 2}.bytes()))
		if !until(func() bool { recs, _, _ := c.Settled(); return recs == 1 }) {
			report(m, "delayed", fmt.Sprintf("%d blocked procedures on two connections", n), []string{fmt.Sprintf("a further call on connection %d is not answered", i)})
			stop(m)
		}
	}
	taken := 1
	if size > 0 {
		cc[0].Hold(true)
		cc[1].Hold(true)
		close(gate)
		sim.Quiesce()
		cc[2].Feed(record(call{xid: 8, rpcvers: 2, prog: 100, vers: 1, proc: 2}.bytes()))
		taken++
		if !until(func() bool { recs, _, _ := cc[2].Settled(); return recs == taken }) {
			report(m, "delayed", fmt.Sprintf("%d replies of %d bytes not taken by two connections", n, size), []string{"a call on another connection is not answered"})
			stop(m)
		}
		cc[0].Hold(false)
		cc[1].Hold(false)
		m.Max("most_bytes_blocked_together", int64(n*size))
	} else {
		close(gate)
	}
	for i, c := range cc[:2] {
		if !until(func() bool { recs, _, _ := c.Settled(); return recs == 1+n/2 }) {
			recs, _, _ := c.Settled()
			report(m, "delayed", fmt.Sprintf("%d blocked procedures on two connections, released", n), []string{fmt.Sprintf("connection %d: %d replies, expected %d", i, recs, 1+n/2)})
			stop(m)
		}
	}
	for _, c := range cc {
		c.End(io.EOF)
	}
	m.Max("most_procedures_blocked_together", int64(n))
	m.Eval([]byte(fmt.Sprint(n, size, "blocked")), true)
}

// blockRuns makes n runs with blocked procedures, with reply writes that are
// stuck and large numbers too if all is set.
func blockRuns(m *mon.M, r *mRand, n int, all bool) {
	for i := 0; i < n; i++ {
		m.Case(fmt.Sprint("run ", i))
		undo := procs([]int{1, 2, 8}[r.Intn(3)])
		g := newRig(m)
		standardRegs(g)
		// connections whose peers take no replies
		var stuck []*rconn
		var stuckWs [][]want
		rest := []int{0, 10, 500} // sizes of calls that are not blocked
		if r.Intn(3) == 0 {
			rest = []int{0, 500, 5000, 20000, 40000, 300000}
		}
		if all && i%3 == 1 {
			for k := 1 + r.Intn(4); k > 0; k-- {
				c := g.conn(func(c *rconn) { c.Chunk = chunker(r) })
				c.Hold(true)
				var ws []want
				for j := 1 + r.Intn(20); j > 0; j-- {
					w := randCall(r, g, append([]int{0, 10, 5000}, rest...))
					ws = append(ws, w)
					c.Feed(record(w.call.bytes()))
				}
				stuck, stuckWs = append(stuck, c), append(stuckWs, ws)
			}
			sim.Quiesce()
			for _, c := range stuck {
				m.Count("stuck_writes_meanwhile", int64(c.Held()))
			}
		}
		nconn := 1 + r.Intn(3)
		var cc []*rconn
		ws := make([][]want, nconn)   // answered
		wait := make([][]want, nconn) // blocked
		for k := 0; k < nconn; k++ {
			c := g.conn(func(c *rconn) { c.Chunk = chunker(r) })
			cc = append(cc, c)
		}
		nblock := []int{1, 2, 3, 5, 8, 17, 40, 70, 130, 300}[r.Intn(10)]
		if all && i%80 == 40 {
			nblock = 1100 + r.Intn(1500)
			if i == 40 {
				nblock = 10300 + r.Intn(m.N(2000, 20000))
			}
		}
		sizes := []int{0, 10, 500}
		if nblock <= 8 && r.Intn(2) == 0 {
			sizes = []int{0, 500, 4096, 70000, 300000, 1<<20 + 100, 3 << 20}
		}
		hist := fmt.Sprintf("run %d: %d blocked procedures on %d connections", i, nblock, nconn)
		type blocked struct {
			w    want
			conn int
			ch   chan struct{}
		}
		var bl []*blocked
		same := r.Intn(2) == 0
		for k := 0; k < nblock; k++ {
			j := r.Intn(nconn)
			if same {
				j = 0
			}
			w := plainCall(r, g, sizes)
			m.Max("largest_blocked_request", int64(len(w.call.bytes())))
			ch := make(chan struct{})
			w.p.gates[gatePoints[r.Intn(len(gatePoints))]] = ch
			bl = append(bl, &blocked{w, j, ch})
			wait[j] = append(wait[j], w)
			cc[j].Feed(record(w.call.bytes()))
			if r.Intn(3) == 0 { // others in between
				j := r.Intn(nconn)
				w := randCall(r, g, rest)
				ws[j] = append(ws[j], w)
				cc[j].Feed(record(w.call.bytes()))
			}
		}
		sim.Quiesce()
		inside := 0
		for _, b := range bl {
			if b.w.p.where() != "" {
				inside++
			}
		}
		m.Max("most_procedures_blocked_together", int64(inside))
		ok := true
		if inside != nblock {
			ok = report(m, "delayed", hist, []string{fmt.Sprintf("only %d of %d received calls were executed while others were blocked", inside, nblock)})
		}
		judge := func(when string) {
			for j, c := range cc {
				ok = report(m, "delayed", hist+", "+when, match(c.Out(), ws[j])) && ok
			}
		}
		judge("before any is released")
		for k := 0; k < 1+r.Intn(6) && ok; k++ {
			j := r.Intn(nconn)
			w := randCall(r, g, []int{0, 10, 5000})
			ws[j] = append(ws[j], w)
			cc[j].Feed(record(w.call.bytes()))
		}
		sim.Quiesce()
		judge("after further calls")
		if !ok {
			stop(m)
		}
		r.Shuffle(len(bl), func(x, y int) { bl[x], bl[y] = bl[y], bl[x] })
		for k, b := range bl {
			before := len(cc[b.conn].Out())
			close(b.ch)
			if k > 12 && k < len(bl)-4 { // in bulk
				ws[b.conn] = append(ws[b.conn], b.w)
				continue
			}
			sim.Quiesce()
			if k > 12 {
				ws[b.conn] = append(ws[b.conn], b.w)
				judge(fmt.Sprintf("after release %d", k))
			} else {
				ws[b.conn] = append(ws[b.conn], b.w)
				// replies come in completion order: this one is exactly what was added
				if ps := match(cc[b.conn].Out()[before:], []want{b.w}); len(ps) > 0 {
					ok = report(m, "order", hist+fmt.Sprintf(", after release %d", k), ps)
				}
			}
			if !ok {
				stop(m)
			}
			m.Count("releases_judged", 1)
		}
		sim.Quiesce()
		judge("at the end")
		for _, c := range stuck {
			c.Hold(false)
		}
		sim.Quiesce()
		for j, c := range stuck {
			ok = report(m, "stuck", hist+", a connection whose writes had been stuck", match(c.Out(), stuckWs[j])) && ok
		}
		ok = report(m, "delayed", hist, g.problems()) && ok
		if !ok {
			stop(m)
		}
		g.close()
		undo()
		m.Eval([]byte(hist), true)
		m.Sample(map[string]any{"run": hist, "blocked_together": inside})
	}
}
