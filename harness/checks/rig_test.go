package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"

	"verifharness/mon"
	"verifharness/ref"
	"verifharness/sim"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// plan says what one invocation of a scripted procedure does, and records what
// it saw. Its arguments are: hyper id, opaque a<>, unsigned w, opaque b<>.
type plan struct {
	id     uint64
	a, b   []byte // what the caller sends
	w      uint32
	gates  map[string]chan struct{}
	result string     // alias, fresh, nil, void, err, errres, unenc, unencpart
	bare   bool       // its procedure takes no arguments
	key    *[3]uint32 // the procedure called
	ra, rb []byte     // fresh results

	mu      sync.Mutex
	invoked int
	at      string // gate it waits at
	passed  []string
	encoded int
	bad     []string
}

func (p *plan) note(f string, a ...any) {
	p.mu.Lock()
	p.bad = append(p.bad, fmt.Sprintf(f, a...))
	p.mu.Unlock()
}

// arrive waits at a gate if the plan has it there.
func (p *plan) arrive(pt string) {
	g := p.gates[pt]
	if g == nil {
		return
	}
	p.mu.Lock()
	p.at = pt
	p.mu.Unlock()
	<-g
	p.mu.Lock()
	p.at = ""
	p.passed = append(p.passed, pt)
	p.mu.Unlock()
}

func (p *plan) where() string { p.mu.Lock(); defer p.mu.Unlock(); return p.at }
func (p *plan) calls() int    { p.mu.Lock(); defer p.mu.Unlock(); return p.invoked }

func (p *plan) problems() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string{}, p.bad...)
}

func (p *plan) argBytes() []byte {
	if p.bare {
		return nil
	}
	b := be(be(nil, uint32(p.id>>32)), uint32(p.id))
	b = opaqueBytes(b, p.a)
	b = be(b, p.w)
	return opaqueBytes(b, p.b)
}

// resultBytes is what follows the reply header on success.
func (p *plan) resultBytes() []byte {
	b := be(be(nil, uint32(p.id>>32)), uint32(p.id))
	switch p.result {
	case "alias":
		return opaqueBytes(opaqueBytes(b, p.a), p.b)
	case "fresh":
		return opaqueBytes(opaqueBytes(b, p.ra), p.rb)
	}
	return nil
}

// accept is the accept_stat of a properly dispatched call with these plans; -1
// stands for any that is not SUCCESS.
func (p *plan) accept() int {
	switch p.result {
	case "err", "errres":
		return 4
	case "unenc", "unencpart":
		return -1
	}
	return 0
}

// result of a scripted procedure.
type planRes struct {
	p    *plan
	a, b []byte
}

func (r *planRes) Xdr(xs *xdr.XdrState) {
	r.p.mu.Lock()
	r.p.encoded++
	r.p.mu.Unlock()
	if r.p.result == "unenc" {
		xs.SetError("cannot be encoded")
		return
	}
	xdr.XdrU64(xs, &r.p.id)
	xdr.XdrVarArray(xs, -1, &r.a)
	r.p.arrive("encode")
	if r.p.result == "unencpart" {
		s := "too long"
		xdr.XdrString(xs, 3, &s)
		return
	}
	xdr.XdrVarArray(xs, -1, &r.b)
}

type rconn struct {
	*sim.Conn
	done bool
	err  error
	mu   sync.Mutex
	fed  []byte
}

func (c *rconn) finished() (bool, error) { c.mu.Lock(); defer c.mu.Unlock(); return c.done, c.err }

// rig is one server with scripted procedures and its connections.
type rig struct {
	m     *mon.M
	srv   *rfc1057.Server
	mu    sync.Mutex
	plans map[uint64]*plan
	stray []string
	conns []*rconn
	regs  map[[3]uint32]bool
	bare  map[uint32]*plan // of program 300
	nbare uint32
	first int // which connections are net.Conns
}

var rigs atomic.Int64

func newRig(m *mon.M) *rig {
	return &rig{m: m, srv: rfc1057.MakeServer(), plans: map[uint64]*plan{}, regs: map[[3]uint32]bool{}, first: int(rigs.Add(1))}
}

func (g *rig) add(p *plan) {
	g.mu.Lock()
	g.plans[p.id] = p
	g.mu.Unlock()
}

func (g *rig) register(prog, vers, proc uint32) {
	g.srv.Register(prog, vers, proc, g.handler(prog, vers, proc))
	g.regs[[3]uint32{prog, vers, proc}] = true
}

// handler is a scripted procedure, which checks that it is the one called.
func (g *rig) handler(prog, vers, proc uint32) rfc1057.ProcHandler {
	return func(args *xdr.XdrState) (xdr.Xdrable, error) {
		var id uint64
		xdr.XdrU64(args, &id)
		if args.Error() != nil {
			return nil, args.Error()
		}
		g.mu.Lock()
		p := g.plans[id]
		if p == nil {
			g.stray = append(g.stray, fmt.Sprintf("procedure (%d,%d,%d) invoked with unknown id %x", prog, vers, proc, id))
		}
		if p != nil && p.key != nil && *p.key != [3]uint32{prog, vers, proc} {
			g.stray = append(g.stray, fmt.Sprintf("procedure (%d,%d,%d) invoked by a call of %v", prog, vers, proc, *p.key))
		}
		g.mu.Unlock()
		if p == nil {
			return nil, errors.New("unknown id")
		}
		return g.run(p, args)
	}
}

// bareCall makes a call of a procedure without arguments, one of a great many,
// so that the procedure called identifies the call.
func (g *rig) bareCall(r *mRand) (*plan, call) {
	p := newPlan(r, []int{0})
	p.bare = true
	fill := make([]byte, r.Intn(10))
	r.Read(fill)
	p.ra = fill
	p.result = []string{"alias", "fresh", "nil", "void"}[r.Intn(4)]
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.bare == nil {
		g.bare = map[uint32]*plan{}
	}
	k := g.nbare
	g.nbare++
	g.bare[k] = p
	return p, call{xid: r.Uint32(), rpcvers: 2, prog: 300, vers: 1, proc: k}
}

const maxBare = 512

func (g *rig) bareHandler(k uint32) rfc1057.ProcHandler {
	return func(args *xdr.XdrState) (xdr.Xdrable, error) {
		g.mu.Lock()
		p := g.bare[k]
		if p == nil {
			g.stray = append(g.stray, fmt.Sprintf("procedure (300,1,%d) invoked without a call", k))
		}
		g.mu.Unlock()
		if p == nil {
			return nil, errors.New("unknown id")
		}
		return g.run(p, args)
	}
}

// run is what every scripted procedure does once it knows its plan.
func (g *rig) run(p *plan, args *xdr.XdrState) (xdr.Xdrable, error) {
	{
		id := p.id
		p.mu.Lock()
		p.invoked++
		n := p.invoked
		p.mu.Unlock()
		if n > 1 {
			return &planRes{p: p}, nil
		}
		var a, b []byte
		var w uint32
		check := func(pt string) {
			if a != nil && !bytes.Equal(a, p.a) || b != nil && !bytes.Equal(b, p.b) {
				p.note("at %s the arguments of call %x had changed", pt, id)
			}
		}
		p.arrive("enter")
		if !p.bare {
			xdr.XdrVarArray(args, -1, &a)
		}
		p.arrive("mid")
		if p.bare {
			w = p.w
		} else {
			xdr.XdrU32(args, &w)
			xdr.XdrVarArray(args, -1, &b)
		}
		if args.Error() != nil {
			return &planRes{p: p}, args.Error()
		}
		if !bytes.Equal(a, p.a) || !bytes.Equal(b, p.b) || w != p.w {
			p.note("call %x was given other arguments: %s %s, sent %s %s", id, ref.Hex(a), ref.Hex(b), ref.Hex(p.a), ref.Hex(p.b))
		}
		p.arrive("decoded")
		check("decoded")
		p.arrive("done")
		check("done")
		switch p.result {
		case "nil":
			return nil, nil
		case "void":
			return &xdr.Void{}, nil
		case "err":
			return nil, errors.New("scripted error")
		case "errres":
			return &planRes{p, a, b}, errors.New("scripted error with results")
		case "fresh":
			return &planRes{p, p.ra, p.rb}, nil
		}
		return &planRes{p, a, b}, nil
	}
}

// conn starts serving a new connection.
func (g *rig) conn(setup ...func(c *rconn)) *rconn {
	c := &rconn{Conn: sim.NewConn()}
	for _, f := range setup {
		f(c)
	}
	g.conns = append(g.conns, c)
	var rw io.ReadWriter = c
	if (len(g.conns)+g.first)%2 == 0 {
		rw = sim.Net{Conn: c.Conn}
	}
	go func() {
		err := g.srv.Run(rw)
		c.mu.Lock()
		c.done, c.err = true, err
		c.mu.Unlock()
	}()
	return c
}

// close ends all connections and waits until nothing is left running.
func (g *rig) close() {
	g.mu.Lock()
	for _, p := range g.plans {
		for _, ch := range p.gates {
			select {
			case <-ch:
			default:
				close(ch)
			}
		}
	}
	g.mu.Unlock()
	for _, c := range g.conns {
		c.Hold(false)
		c.End(io.EOF)
	}
	sim.Quiesce()
}

// problems collects what the procedures and transports noticed.
func (g *rig) problems() []string {
	var out []string
	g.mu.Lock()
	defer g.mu.Unlock()
	out = append(out, g.stray...)
	ids := make([]uint64, 0)
	for id := range g.plans {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		out = append(out, g.plans[id].problems()...)
	}
	for _, c := range g.conns {
		out = append(out, c.TornWrites()...)
	}
	return out
}

// want is the expected treatment of one record.
type want struct {
	call   call
	p      *plan // procedure to be invoked, nil if none
	reply  *reply
	any    bool // any accepted status but SUCCESS will do
	silent bool // no reply
}

// expect applies RFC 1057 to a call, given the registrations.
func (g *rig) expect(c call, p *plan) want {
	w := want{call: c}
	if p != nil {
		g.mu.Lock()
		p.key = &[3]uint32{c.prog, c.vers, c.proc}
		g.mu.Unlock()
	}
	r := &reply{xid: c.xid}
	w.reply = r
	if c.rpcvers != 2 {
		r.denied, r.stat, r.low, r.high = true, 0, 2, 2
		return w
	}
	progok, versok := false, false
	lo, hi := uint32(0xffffffff), uint32(0)
	for k := range g.regs {
		if k[0] == c.prog {
			progok = true
			lo, hi = min(lo, k[1]), max(hi, k[1])
			versok = versok || k[1] == c.vers
		}
	}
	switch {
	case !progok:
		r.stat = 1
	case !versok:
		r.stat, r.low, r.high = 2, lo, hi
	case !g.regs[[3]uint32{c.prog, c.vers, c.proc}]:
		r.stat = 3
	case p == nil: // undecodable arguments
		r.stat = 4
	default:
		w.p = p
		switch a := p.accept(); a {
		case 0:
			r.results = p.resultBytes()
		case -1:
			w.any = true
		default:
			r.stat = uint32(a)
		}
	}
	return w
}

func (p reply) String() string {
	if p.denied {
		return fmt.Sprintf("{xid %08x denied stat %d range %d..%d auth %d, %d result bytes %s}", p.xid, p.stat, p.low, p.high, p.authStat, len(p.results), ref.Hex(p.results))
	}
	return fmt.Sprintf("{xid %08x accepted stat %d range %d..%d, verifier %d/%x, %d result bytes %s}", p.xid, p.stat, p.low, p.high, p.verf.flavor, p.verf.body, len(p.results), ref.Hex(p.results))
}

// match compares a connection's output with what its calls should have brought,
// in any order. It returns what is wrong.
func match(out []byte, ws []want) (problems []string) {
	recs, rest, bad := records(out)
	if bad != "" || len(rest) > 0 {
		return []string{fmt.Sprintf("output is not a sequence of whole records: %s, %d stray bytes", bad, len(rest))}
	}
	left := map[uint32][]want{}
	n := 0
	for _, w := range ws {
		if !w.silent {
			left[w.reply.xid] = append(left[w.reply.xid], w)
			n++
		}
	}
	for _, b := range recs {
		p, ok := parseReply(b)
		if !ok {
			problems = append(problems, fmt.Sprintf("malformed reply %s", ref.Hex(b)))
			continue
		}
		c := left[p.xid]
		if len(c) == 0 {
			problems = append(problems, fmt.Sprintf("reply without a call (or a second reply): %v", p))
			continue
		}
		hit := -1
		for i, w := range c {
			if !w.any && bytes.Equal(w.reply.bytes(), b) {
				hit = i
				break
			}
			if w.any && !p.denied && p.stat != 0 && len(p.results) == 0 {
				hit = i // unless an exact one follows
			}
		}
		if hit < 0 {
			if c[0].any {
				problems = append(problems, fmt.Sprintf("reply %v, expected a non-success status without results", p))
			} else {
				problems = append(problems, fmt.Sprintf("reply %v, expected %v", p, *c[0].reply))
			}
			hit = 0
		}
		left[p.xid] = append(c[:hit:hit], c[hit+1:]...)
	}
	for _, c := range left {
		for _, w := range c {
			problems = append(problems, fmt.Sprintf("no reply to %+v, expected %v", clipCall(w.call), *w.reply))
		}
	}
	sort.Strings(problems)
	return problems
}

func clipCall(c call) string {
	return fmt.Sprintf("call xid %08x rpcvers %d (%d,%d,%d) %d argument bytes", c.xid, c.rpcvers, c.prog, c.vers, c.proc, len(c.args))
}

var idCounter uint64

// newPlan makes a plan with contents that identify it.
func newPlan(r *mRand, sizes []int) *plan {
	idCounter++
	p := &plan{id: idCounter<<20 | uint64(r.Intn(1<<20)), w: r.Uint32(), gates: map[string]chan struct{}{}}
	fill := func() []byte {
		b := make([]byte, sizes[r.Intn(len(sizes))])
		x := p.id*2654435761 + uint64(r.Uint32())
		i := 0
		for ; i+8 <= len(b); i += 8 {
			x = x*6364136223846793005 + 1442695040888963407
			binary.LittleEndian.PutUint64(b[i:], x^x>>29)
		}
		for ; i < len(b); i++ {
			b[i] = byte(x >> 40)
			x = x*6364136223846793005 + 1442695040888963407
		}
		return b
	}
	p.a, p.b, p.ra, p.rb = fill(), fill(), fill(), fill()
	p.result = "alias"
	return p
}

// chunker makes random read sizes.
func chunker(r0 *mRand) func(int) int {
	r := rand.New(rand.NewSource(r0.Int63())) // used by the reading goroutine
	switch r0.Intn(4) {
	case 0:
		return nil
	case 1:
		return func(n int) int {
			if n > 2000 { // most of a large record at once, its end byte by byte
				return 1 + r.Intn(n)
			}
			return 1
		}
	case 2:
		empty := false
		return func(n int) int {
			if !empty && r.Intn(4) == 0 {
				empty = true
				return 0
			}
			empty = false
			if n > 2000 {
				return 1 + r.Intn(n)
			}
			return 1 + r.Intn(9)
		}
	}
	return func(n int) int { return 1 + r.Intn(n) }
}

// randAuth makes a credential or verifier within its limit. RFC 1057 lists four
// flavors, "and more to be defined".
func randAuth(r *mRand) auth {
	a := auth{flavor: uint32(r.Intn(4))}
	if r.Intn(6) == 0 {
		a.flavor = []uint32{4, 5, 6, 7, 300000, 390004, 0x7fffffff, 0xffffffff, r.Uint32()}[r.Intn(9)]
	}
	switch r.Intn(4) {
	case 0:
		a.body = make([]byte, []int{1, 3, 4, 20, 399, 400}[r.Intn(6)])
		r.Read(a.body)
	}
	return a
}

// procs limits the number of threads running Go code and returns an undo.
func procs(n int) func() {
	old := runtime.GOMAXPROCS(n)
	return func() { runtime.GOMAXPROCS(old) }
}
