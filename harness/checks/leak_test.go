package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sync"
	"testing"

	"verifharness/mon"
	"verifharness/sim"
	"verifharness/units"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// pipeConn is a transport that keeps nothing: what was read and written is gone.
type pipeConn struct {
	mu    sync.Mutex
	cond  *sync.Cond
	in    []byte
	end   error
	werr  error // every write fails
	wrote int   // bytes
}

func newPipeConn() *pipeConn {
	c := &pipeConn{}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *pipeConn) feed(b []byte, end error) {
	c.mu.Lock()
	c.in = append(c.in, b...)
	if end != nil {
		c.end = end
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *pipeConn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.in) == 0 && c.end == nil {
		c.cond.Wait()
	}
	if len(c.in) == 0 {
		c.in = nil
		return 0, c.end
	}
	n := copy(p, c.in)
	c.in = c.in[n:]
	if len(c.in) == 0 {
		c.in = nil
	}
	return n, nil
}

func (c *pipeConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.werr != nil {
		return 0, c.werr
	}
	c.wrote += len(p)
	return len(p), nil
}

// answerer answers each call at once and keeps nothing.
type answerer struct {
	in  []byte
	end error
	mk  func(xid uint32) []byte
	wr  error
}

func (a *answerer) Write(p []byte) (int, error) {
	if a.wr != nil {
		return 0, a.wr
	}
	if len(p) >= 8 {
		a.in = a.mk(binary.BigEndian.Uint32(p[4:]))
	}
	return len(p), nil
}

func (a *answerer) Read(p []byte) (int, error) {
	if len(a.in) == 0 {
		a.in = nil
		return 0, a.end
	}
	n := copy(p, a.in)
	a.in = a.in[n:]
	return n, nil
}

// libGoroutines counts goroutines with a frame of the library.
func libGoroutines() (n int, sample string) {
	buf := make([]byte, 1<<20)
	for {
		k := runtime.Stack(buf, true)
		if k < len(buf) {
			buf = buf[:k]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	for _, g := range bytes.Split(buf, []byte("\n\n")) {
		if bytes.Contains(g, []byte("github.com/zeldovich/go-rpcgen/")) {
			n++
			if sample == "" {
				sample = fmt.Sprintf("%.900s", g)
			}
		}
	}
	return n, sample
}

func heapNow() int64 {
	for i := 0; i < 4; i++ { // twice for pools, and once more for finalizers
		runtime.GC()
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc) + int64(ms.StackInuse)
}

func TestC24(t *testing.T) {
	defer quietStderr()()
	run(t, "C24", "each scenario repeats a unit of work (calls on one open connection; whole connections ended in every way; held procedures outliving their connection; failing reply writes; client calls with every outcome; encodings and decodings); goroutines of the library and reachable heap are measured at logical quiescence after collection, before and after many further units; growth must repeat in a second measurement to count; non-trivial: every scenario run; distinct by scenario and round", func(m *mon.M) {
		r := rng(m, "leaks")
		us := units.Shipped()
		held := make(chan struct{})
		close(held)
		srv := rfc1057.MakeServer()
		echoProc := func(args *xdr.XdrState) (xdr.Xdrable, error) {
			o := &opq{}
			o.Xdr(args)
			return o, args.Error()
		}
		srv.Register(100, 3, 1, echoProc)
		srv.Register(100, 3, 2, func(args *xdr.XdrState) (xdr.Xdrable, error) { return nil, errors.New("refused") })
		srv.Register(100, 3, 3, func(args *xdr.XdrState) (xdr.Xdrable, error) { <-held; return echoProc(args) })
		srv.Register(100, 3, 4, func(args *xdr.XdrState) (xdr.Xdrable, error) { return &unenc{}, nil })
		args := func(n int) []byte { b := make([]byte, n); r.Read(b); return opaqueBytes(nil, b) }
		oneCall := func() []byte {
			c := call{xid: r.Uint32(), rpcvers: 2, prog: 100, vers: 3, proc: 1, args: args([]int{0, 4, 100, 700, 3000}[r.Intn(5)])}
			switch r.Intn(16) {
			case 0:
				c.rpcvers = r.Uint32()
			case 1:
				c.prog = r.Uint32()
			case 2:
				c.vers = r.Uint32()
			case 3:
				c.proc = 5 + r.Uint32()>>1
			case 4:
				c.proc = 2
			case 5:
				c.args = c.args[:len(c.args)/8*4+2]
			case 6:
				c.proc = 4
			case 7:
				c.cred = auth{r.Uint32() % 4, make([]byte, r.Intn(400))}
			}
			b := record(c.bytes())
			switch r.Intn(24) {
			case 0: // a record that is no call
				b = append(b, record(mutate(c.bytes(), r))...)
			case 1:
				b = append(b, record(nil)...)
			case 2:
				b = append(b, record(reply{xid: r.Uint32(), results: c.args}.bytes())...)
			}
			return b
		}
		ends := faults
		gone := faults
		open := newPipeConn()
		go srv.Run(open)
		type scenario struct {
			name string
			n    int
			f    func(n int)
		}
		client := func(a *answerer) *rfc1057.Client { return rfc1057.MakeClient(a, 100, 3) }
		answer := func(x uint32) []byte {
			p := reply{xid: x, verf: randAuth(r), results: args(r.Intn(300))}
			switch r.Intn(12) {
			case 0:
				p.denied, p.stat = true, uint32(r.Intn(2))
			case 1:
				p.stat = uint32(1 + r.Intn(6))
			case 2:
				p.xid = r.Uint32()
			case 3:
				p.results = p.results[:3]
			case 4:
				return record(mutate(p.bytes(), r))
			}
			return record(p.bytes())
		}
		oneOpen := &answerer{mk: answer, end: io.EOF}
		openClient := client(oneOpen)
		scenarios := []scenario{
			{"calls on one open connection", 12000, func(n int) {
				for i := 0; i < n; i += 20 {
					var b []byte
					for k := 0; k < 20; k++ {
						b = append(b, oneCall()...)
					}
					open.feed(b, nil)
					if i%200 == 0 {
						sim.Quiesce()
					}
				}
			}},
			{"large calls on one open connection", 100, func(n int) {
				for i := 0; i < n; i++ {
					open.feed(record(call{xid: r.Uint32(), rpcvers: 2, prog: 100, vers: 3, proc: 1, args: args(1 + r.Intn(2<<20))}.bytes()), nil)
					if i%4 == 0 {
						sim.Quiesce()
					}
				}
			}},
			{"calls that are all different", 60000, func(n int) {
				for i := 0; i < n; i += 20 {
					var b []byte
					for k := 0; k < 20; k++ {
						c := call{xid: r.Uint32(), rpcvers: 2, prog: 100, vers: 3, proc: 1, args: args(4 * r.Intn(9))}
						switch k % 10 {
						case 0, 1:
							c.prog = r.Uint32()
						case 2, 3:
							c.vers = r.Uint32()
						case 4, 5:
							c.proc = 5 + r.Uint32()>>1
						case 6:
							c.rpcvers = r.Uint32()
						case 7:
							c.cred, c.verf = auth{r.Uint32(), be(nil, r.Uint32())}, auth{r.Uint32(), be(nil, r.Uint32())}
						case 8:
							b = append(b, record(be(nil, r.Uint32()))...) // no call
							b = append(b, record(reply{xid: r.Uint32(), stat: r.Uint32()}.bytes())...)
						}
						b = append(b, record(c.bytes())...)
					}
					open.feed(b, nil)
					if i%200 == 0 {
						sim.Quiesce()
					}
				}
			}},
			{"calls of a client that are all different", 30000, func(n int) {
				for i := 0; i < n; i++ {
					openClient.Call(r.Uint32(), rfc1057.Opaque_auth{Flavor: rfc1057.Auth_flavor(r.Uint32())}, rfc1057.Opaque_auth{Body: be(nil, r.Uint32())}, &opq{be(nil, r.Uint32())}, &opq{})
				}
			}},
			{"connections ended at any byte", 6000, func(n int) {
				for i := 0; i < n; i++ {
					c := newPipeConn()
					b := oneCall()
					if r.Intn(2) == 0 {
						b = append(b, oneCall()...)
					}
					if r.Intn(3) > 0 {
						b = b[:r.Intn(len(b)+1)]
					} else if r.Intn(3) == 0 {
						b = append(be(b, uint32(r.Intn(100))), make([]byte, 100)...) // non-final fragment
					} else if r.Intn(3) == 0 {
						b = be(b, 1<<31|hostileWords[r.Intn(len(hostileWords))])
					}
					c.feed(b, ends[r.Intn(len(ends))])
					srv.Run(c)
					if i%50 == 0 {
						sim.Quiesce()
					}
				}
			}},
			{"idle connections opened and closed", 6000, func(n int) {
				for i := 0; i < n; i += 20 {
					var cs []*pipeConn
					for k := 0; k < 20; k++ {
						c := newPipeConn()
						cs = append(cs, c)
						go srv.Run(c)
						if k%2 == 0 {
							c.feed(oneCall(), nil)
						}
					}
					if i%100 == 0 {
						sim.Quiesce()
					}
					for _, c := range cs {
						c.feed(nil, io.EOF)
					}
				}
			}},
			{"servers made and dropped", 4000, func(n int) {
				for i := 0; i < n; i++ {
					s := rfc1057.MakeServer()
					s.Register(r.Uint32(), r.Uint32(), r.Uint32(), echoProc)
					s.Register(100, 3, 1, echoProc)
					c := newPipeConn()
					c.feed(oneCall(), io.EOF)
					s.Run(c)
					if i%50 == 0 {
						sim.Quiesce()
					}
				}
			}},
			{"procedures that outlive their connection", 3000, func(n int) {
				for i := 0; i < n; i += 30 {
					held = make(chan struct{})
					for k := 0; k < 5; k++ {
						c := newPipeConn()
						var b []byte
						for j := 0; j < 6; j++ {
							b = append(b, record(call{xid: r.Uint32(), rpcvers: 2, prog: 100, vers: 3, proc: 3, args: args(r.Intn(500))}.bytes())...)
						}
						c.feed(b, ends[r.Intn(len(ends))])
						if r.Intn(2) == 0 {
							c.werr = gone[r.Intn(len(gone))]
						}
						srv.Run(c)
					}
					sim.Quiesce()
					close(held)
					sim.Quiesce()
				}
			}},
			{"reply writes that fail", 6000, func(n int) {
				for i := 0; i < n; i++ {
					c := newPipeConn()
					c.werr = gone[r.Intn(len(gone))]
					c.feed(append(oneCall(), oneCall()...), ends[r.Intn(len(ends))])
					srv.Run(c)
					if i%50 == 0 {
						sim.Quiesce()
					}
				}
			}},
			{"calls of one client", 20000, func(n int) {
				for i := 0; i < n; i++ {
					var a xdr.Xdrable = &opq{make([]byte, r.Intn(200))}
					if r.Intn(10) == 0 {
						a = badArgs(r)
					}
					openClient.Call(uint32(r.Intn(5)), rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{Body: make([]byte, 8)}, a, &opq{})
				}
			}},
			{"clients whose transport ends", 10000, func(n int) {
				for i := 0; i < n; i++ {
					a := &answerer{end: ends[r.Intn(len(ends))]}
					a.mk = func(x uint32) []byte { b := answer(x); return b[:r.Intn(len(b)+1)] }
					if r.Intn(4) == 0 {
						a.wr = gone[r.Intn(len(gone))]
					}
					c := client(a)
					for k := 0; k < 2; k++ {
						c.Call(1, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &opq{}, &opq{})
					}
				}
			}},
			{"values encoded and decoded", 20000, func(n int) {
				for i := 0; i < n; i++ {
					u := us[i%len(us)]
					in := value(u, r, 200, false, nil)
					b, err := encode(in.X)
					if err == nil && r.Intn(4) == 0 {
						b = mutate(b, r)
					}
					xdr.DecodeBuf(b, u.Make().X)
				}
			}},
			{"strings and byte arrays encoded and decoded", 20000, func(n int) {
				for i := 0; i < n; i++ {
					b := make([]byte, []int{4, 8, 30, 60, 250}[r.Intn(5)])
					r.Read(b)
					v := string(b)
					w := xdr.MakeWriter(nil)
					xdr.XdrString(w, -1, &v)
					xdr.XdrVarArray(w, 300, &b)
					xdr.XdrArray(w, b)
					rd := xdr.MakeReader(w.WriteBuf())
					var s2 string
					var b2 []byte
					xdr.XdrString(rd, -1, &s2)
					xdr.XdrVarArray(rd, 300, &b2)
					xdr.XdrArray(rd, b2)
					if i%3 == 0 {
						xdr.XdrString(rd, -1, &s2) // past the end
						rd.SetError(v)
					}
				}
			}},
			{"values cut short and lengths that are all different", 40000, func(n int) {
				for i := 0; i < n; i++ {
					have := make([]byte, r.Intn(3000))
					r.Read(have)
					b := append(be(nil, []uint32{uint32(r.Intn(9000)), r.Uint32()}[i%2]), have...)
					var s2 string
					var b2 []byte
					switch i % 4 {
					case 0:
						xdr.XdrString(xdr.MakeReader(b), -1, &s2)
					case 1:
						xdr.XdrVarArray(xdr.MakeReader(b), r.Intn(5000), &b2)
					case 2:
						xdr.XdrArray(xdr.MakeReader(have), b[:1+r.Intn(len(b))])
					case 3:
						s2 = string(have)
						xdr.XdrString(xdr.MakeWriter(nil), r.Intn(3000), &s2)
						xdr.XdrVarArray(xdr.MakeWriter(nil), r.Intn(3000), &have)
						xdr.MakeReader(have).SetError(s2)
					}
				}
			}},
		}
		type point struct {
			heap int64
			gs   int
			smp  string
		}
		at := func() point {
			sim.Quiesce()
			gs, smp := libGoroutines()
			return point{heapNow(), gs, smp}
		}
		const slack = 256 << 10
		for _, s := range scenarios {
			m.Case(s.name)
			n := s.n * m.N(3, 40)
			s.f(s.n / 4) // warm up
			a := at()
			s.f(n)
			b := at()
			for try := 0; try < 3 && (b.heap-a.heap > slack || b.gs-a.gs > 4); try++ {
				m.Count("remeasured", 1)
				a = b
				s.f(n)
				b = at()
			}
			if b.gs-a.gs > 4 {
				m.Violation("goroutines", "%s: %d further ones left %d goroutines of the library behind (%d before): %s", s.name, n, b.gs-a.gs, a.gs, b.smp)
			}
			if b.heap-a.heap > slack {
				m.Violation("heap", "%s: %d further ones left %d bytes reachable", s.name, n, b.heap-a.heap)
			}
			m.Count("units_of_work", int64(n))
			m.Max("most_bytes_grown", b.heap-a.heap)
			m.Max("library_goroutines_at_rest", int64(b.gs))
			for k := 0; k < n; k++ {
				m.Eval([]byte(fmt.Sprint(s.name, k)), true)
			}
			m.Sample(map[string]any{"scenario": s.name, "units": n, "heap_growth_bytes": b.heap - a.heap, "library_goroutines": b.gs})
			if m.Violations() > 0 {
				stop(m)
			}
		}
		// What large records and many calls at once took is given back in the end.
		big := func(name string, data int64, f func()) {
			m.Case(name)
			a := at()
			f()
			b := at()
			for try := 0; try < 2 && b.heap-a.heap > data/12; try++ {
				m.Count("remeasured", 1)
				b = at()
			}
			if b.heap-a.heap > data/12 {
				m.Violation("kept", "%s: of %d bytes received %d are still reachable after the connections have ended", name, data, b.heap-a.heap)
			}
			m.Max("most_bytes_kept", b.heap-a.heap)
			m.Eval([]byte(name), true)
		}
		for _, sz := range []int{60 << 10, 1 << 20, 3 << 20} {
			k := m.N(96, 400)
			if sz < 1<<20 {
				k = 64 << 20 / sz
			}
			big(fmt.Sprintf("%d calls of %d bytes at once", k, sz), int64(k)*int64(sz), func() {
				held = make(chan struct{})
				rec := record(call{xid: 7, rpcvers: 2, prog: 100, vers: 3, proc: 3, args: args(sz)}.bytes())
				var wg sync.WaitGroup
				for j := 0; j < 8; j++ {
					c := newPipeConn()
					wg.Add(1)
					go func() { defer wg.Done(); srv.Run(c) }()
					for i := 0; i < k/8; i++ {
						c.feed(rec, nil)
						if sz >= 60<<10 {
							sim.Quiesce()
						}
					}
					c.feed(nil, ends[r.Intn(len(ends))])
				}
				wg.Wait()
				sim.Quiesce()
				close(held)
				sim.Quiesce()
				held = make(chan struct{})
			})
		}
		big("a call of 48 MB", 48<<20, func() {
			c := newPipeConn()
			c.feed(record(call{xid: 7, rpcvers: 2, prog: 100, vers: 3, proc: 1, args: args(48 << 20)}.bytes()), io.EOF)
			srv.Run(c)
		})
		big("a reply of 48 MB", 48<<20, func() {
			a := &answerer{end: io.EOF}
			a.mk = func(x uint32) []byte { return record(reply{xid: x, results: args(48 << 20)}.bytes()) }
			client(a).Call(1, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &opq{}, &opq{})
		})
		big("values of 48 MB", 48<<20, func() {
			o := &opq{make([]byte, 48<<20)}
			b, err := encode(o)
			if err != nil {
				m.Violation("big", "%v", err)
			}
			xdr.DecodeBuf(b, &opq{})
			xdr.DecodeBuf(b[:1<<20], &opq{})
		})
		if open.wrote == 0 {
			m.Note("warning", "no reply seen on the open connection")
		}
	})
}
