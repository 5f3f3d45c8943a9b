package checks

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"verifharness/mon"
	"verifharness/units"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/rfc1813"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// costCase prepares an operation on n units of data; only the operation is
// measured.
type costCase struct {
	name  string
	sizes []int
	mk    func(n int) func()
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// costOf measures what an operation allocates and the processor time it takes,
// the least of some tries.
func costOf(mk func(n int) func(), n, tries int) (alloc int64, cpu time.Duration) {
	for i := 0; i < tries; i++ {
		op := mk(n)
		runtime.GC()
		t := cpuTime()
		a := allocated(op)
		t = cpuTime() - t
		if i == 0 || a < alloc {
			alloc = a
		}
		if i == 0 || t < cpu {
			cpu = t
		}
	}
	return
}

// metered is a transport: a prepared stream of calls, the end of which comes
// when as many bytes have been written as are due.
type metered struct {
	in      []byte
	seg     int
	mu      sync.Mutex
	cond    *sync.Cond
	due     int
	replies int
	outs    recCounter
	keep    bool
	out     []byte // if kept
}

// recCounter counts the whole records of a stream as it comes, and keeps the
// first bytes of the last one.
type recCounter struct {
	head []byte // record mark and up to four bytes more
	left int    // of the record
}

func (c *recCounter) add(p []byte) (whole int) {
	for len(p) > 0 {
		if c.left == 0 && len(c.head) >= 4 {
			c.head = c.head[:0]
		}
		if len(c.head) < 4 {
			n := min(4-len(c.head), len(p))
			c.head = append(c.head, p[:n]...)
			p = p[n:]
			if len(c.head) < 4 {
				return
			}
			c.left = int(binary.BigEndian.Uint32(c.head) &^ (1 << 31))
			if c.left == 0 {
				whole++
			}
			continue
		}
		n := min(c.left, len(p))
		if k := min(n, 8-len(c.head)); k > 0 {
			c.head = append(c.head, p[:k]...)
		}
		c.left -= n
		p = p[n:]
		if c.left == 0 {
			whole++
		}
	}
	return
}

func newMetered(in []byte, replies int) *metered {
	c := &metered{in: in, due: replies, seg: 50000}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *metered) Read(p []byte) (int, error) {
	if len(c.in) == 0 {
		c.mu.Lock()
		for c.replies < c.due {
			c.cond.Wait()
		}
		c.mu.Unlock()
		return 0, io.EOF
	}
	n := min(len(p), len(c.in), c.seg)
	copy(p, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}

func (c *metered) Write(p []byte) (int, error) {
	c.mu.Lock()
	c.replies += c.outs.add(p)
	if c.keep {
		c.out = append(c.out, p...)
	}
	c.mu.Unlock()
	c.cond.Broadcast()
	return len(p), nil
}

// echoPeer answers a client's calls with what it was built to answer.
type echoPeer struct {
	results []byte
	out     []byte
	seg     int
	in      recCounter
}

func (p *echoPeer) Write(b []byte) (int, error) {
	if p.in.add(b) > 0 {
		p.out = record(reply{xid: binary.BigEndian.Uint32(p.in.head[4:]), results: p.results}.bytes())
	}
	return len(b), nil
}

func (p *echoPeer) Read(b []byte) (int, error) {
	n := min(len(b), len(p.out), p.seg)
	copy(b, p.out[:n])
	p.out = p.out[n:]
	return n, nil
}

func costCases(m *mon.M) (l []costCase) {
	units1 := []int{1000, 8000, 64000, 512000}
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	add := func(name string, sizes []int, mk func(n int) func()) { l = append(l, costCase{name, sizes, mk}) }
	both := func(name string, sizes []int, mk func(n int) (xdr.Xdrable, func() xdr.Xdrable)) {
		add("encoding "+name, sizes, func(n int) func() {
			x, _ := mk(n)
			return func() { xdr.EncodeBuf(x) }
		})
		add("encoding behind other data "+name, sizes, func(n int) func() {
			x, _ := mk(n)
			w := xdr.MakeWriter(make([]byte, 100))
			return func() { x.Xdr(w); x.Xdr(w) }
		})
		add("decoding "+name, sizes, func(n int) func() {
			x, fresh := mk(n)
			b, err := xdr.EncodeBuf(x)
			must(err)
			y := fresh()
			return func() { xdr.DecodeBuf(b, y) }
		})
	}
	both("opaque", []int{16000, 128000, 1024000, 8192000}, func(n int) (xdr.Xdrable, func() xdr.Xdrable) {
		return &opq{make([]byte, n)}, func() xdr.Xdrable { return &opq{} }
	})
	both("string", []int{16000, 128000, 1024000, 8192000}, func(n int) (xdr.Xdrable, func() xdr.Xdrable) {
		s := costStr(strings.Repeat("s", n))
		return &s, func() xdr.Xdrable { var s costStr; return &s }
	})
	both("WRITE arguments", []int{16000, 128000, 1024000, 8192000}, func(n int) (xdr.Xdrable, func() xdr.Xdrable) {
		return &rfc1813.WRITE3args{Data: make([]byte, n)}, func() xdr.Xdrable { return &rfc1813.WRITE3args{} }
	})
	both("array of integers", units1, func(n int) (xdr.Xdrable, func() xdr.Xdrable) {
		return &rfc1813.Mountres3{Mountinfo: rfc1813.Mountres3_ok{Auth_flavors: make([]uint32, n)}}, func() xdr.Xdrable { return &rfc1813.Mountres3{} }
	})
	// lists of every type that has them
	for _, u := range units.Shipped() {
		u := u
		if _, ok := listNext(u.Make().RV, nil); !ok {
			continue
		}
		both("list "+u.Name, []int{500, 4000, 32000}, func(n int) (xdr.Xdrable, func() xdr.Xdrable) {
			r := rng(m, "cost"+u.Name)
			in := u.Make()
			p, _ := listNext(in.RV, nil)
			var some []reflect.Value
			for len(some) < 4 {
				x := value(u, r, 300, false, nil)
				if q, _ := listNext(x.RV, nil); !q.IsNil() {
					e := deepCopy(q.Elem())
					nx, _ := listNext(e, e.Type())
					nx.SetZero()
					some = append(some, e)
				}
			}
			for i := 0; i < n; i++ {
				p.Set(reflect.New(p.Type().Elem()))
				copyInto(p.Elem(), some[i%len(some)])
				p, _ = listNext(p.Elem(), p.Type().Elem())
			}
			return in.X, func() xdr.Xdrable { return u.Make().X }
		})
	}
	r := rng(m, "some")
	// many values one after the other
	for _, u := range units.All() {
		u := u
		if !m.Thorough && strings.HasPrefix(u.Name, "rfc1813") && r.Intn(4) > 0 {
			continue
		}
		in := value(u, rng(m, "many"+u.Name), 40, false, nil)
		one, err := u.S.Encode(u.T, in.RV)
		if err != nil || len(one) == 0 || len(one) > 600 {
			continue
		}
		sizes := []int{300, 2400, 19200}
		add("encoding many values one after the other "+u.Name, sizes, func(n int) func() {
			return func() {
				w := xdr.MakeWriter(nil)
				for i := 0; i < n; i++ {
					in.X.Xdr(w)
				}
			}
		})
		add("decoding many values one after the other "+u.Name, sizes, func(n int) func() {
			b := make([]byte, 0, n*len(one))
			for i := 0; i < n; i++ {
				b = append(b, one...)
			}
			out := make([]xdr.Xdrable, n)
			for i := range out {
				out[i] = u.Make().X
			}
			return func() {
				rd := xdr.MakeReader(b)
				for i := range out {
					out[i].Xdr(rd)
				}
			}
		})
		add("encoding many values each by itself "+u.Name, sizes, func(n int) func() {
			return func() {
				for i := 0; i < n; i++ {
					xdr.EncodeBuf(in.X)
				}
			}
		})
		add("decoding many values each by itself "+u.Name, sizes, func(n int) func() {
			out := make([]xdr.Xdrable, n)
			for i := range out {
				out[i] = u.Make().X
			}
			return func() {
				for i := range out {
					xdr.DecodeBuf(one, out[i])
				}
			}
		})
	}
	// servers
	echo := func(args *xdr.XdrState) (xdr.Xdrable, error) {
		var o opq
		o.Xdr(args)
		return &o, args.Error()
	}
	server := func(procs int) *rfc1057.Server {
		s := rfc1057.MakeServer()
		for i := 0; i < procs; i++ {
			s.Register(7, 1, uint32(i), echo)
		}
		return s
	}
	stream := func(n, size, procs int) []byte {
		var b []byte
		for i := 0; i < n; i++ {
			cl := call{xid: uint32(i), rpcvers: 2, prog: 7, vers: 1, proc: uint32(i % procs), args: opaqueBytes(nil, make([]byte, size))}
			b = append(b, record(cl.bytes())...)
		}
		return b
	}
	for _, size := range []int{0, 40, 3000} {
		size := size
		add(fmt.Sprintf("serving calls of %d bytes on one connection", size), []int{200, 1600, 12800}, func(n int) func() {
			s, c := server(1), newMetered(stream(n, size, 1), n)
			return func() { s.Run(c) }
		})
		add(fmt.Sprintf("serving calls of %d bytes, a connection each", size), []int{200, 1600, 12800}, func(n int) func() {
			s := server(1)
			var cc []*metered
			for i := 0; i < n; i++ {
				cc = append(cc, newMetered(stream(1, size, 1), 1))
			}
			return func() {
				for _, c := range cc {
					s.Run(c)
				}
			}
		})
	}
	add("connections open at once", []int{200, 1600, 12800, 51200}, func(n int) func() {
		s := server(1)
		cc := make([]*metered, n)
		for i := range cc {
			cc[i] = newMetered(stream(1, 40, 1), 2) // the second reply is counted below
		}
		order := r.Perm(n)
		return func() {
			var wg sync.WaitGroup
			wg.Add(n)
			for _, c := range cc {
				go func(c *metered) {
					s.Run(c)
					wg.Done()
				}(c)
			}
			for _, i := range order {
				c := cc[i]
				c.mu.Lock()
				for c.replies < 1 {
					c.cond.Wait()
				}
				c.replies++
				c.cond.Broadcast()
				c.mu.Unlock()
			}
			wg.Wait()
		}
	})
	add("calls in progress at once", []int{200, 1600, 12800, 51200}, func(n int) func() {
		s := rfc1057.MakeServer()
		c := newMetered(stream(n, 40, 1), n)
		var in sync.WaitGroup
		in.Add(n)
		gates := make([]chan bool, n)
		for i := range gates {
			gates[i] = make(chan bool)
		}
		var next atomic.Int64
		s.Register(7, 1, 0, func(args *xdr.XdrState) (xdr.Xdrable, error) {
			i := next.Add(1) - 1
			in.Done()
			<-gates[i]
			return echo(args)
		})
		order := r.Perm(n)
		return func() {
			done := make(chan bool)
			go func() {
				s.Run(c)
				close(done)
			}()
			in.Wait()
			for _, i := range order {
				close(gates[i])
			}
			<-done
		}
	})
	add("serving calls of many procedures", []int{200, 1600, 12800}, func(n int) func() {
		s, c := server(100), newMetered(stream(n, 4, 100), n)
		return func() { s.Run(c) }
	})
	add("serving rejected calls", []int{200, 1600, 12800}, func(n int) func() {
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, record(call{xid: uint32(i), rpcvers: 2, prog: 7, vers: 1, proc: uint32(1 + i)}.bytes())...)
		}
		s, c := server(1), newMetered(b, n)
		return func() { s.Run(c) }
	})
	for _, seg := range []int{1000, 50000, 1 << 30} {
		seg := seg
		add(fmt.Sprintf("serving a call arriving in pieces of %d bytes", seg), []int{20000, 160000, 1280000, 10240000}, func(n int) func() {
			s, c := server(1), newMetered(stream(1, n, 1), 1)
			c.seg = seg
			return func() { s.Run(c) }
		})
		add(fmt.Sprintf("a client call with a reply arriving in pieces of %d bytes", seg), []int{20000, 160000, 1280000, 10240000}, func(n int) func() {
			p := &echoPeer{results: opaqueBytes(nil, make([]byte, n)), seg: seg}
			cl := rfc1057.MakeClient(p, 7, 1)
			var o opq
			return func() { cl.Call(0, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, &o) }
		})
	}
	add("a client call with large arguments", []int{20000, 160000, 1280000, 10240000}, func(n int) func() {
		cl := rfc1057.MakeClient(&echoPeer{seg: 1000}, 7, 1)
		o := opq{make([]byte, n)}
		return func() { cl.Call(0, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &o, &xdr.Void{}) }
	})
	for _, what := range []string{"answered", "failing"} {
		res := map[string][]byte{"answered": opaqueBytes(nil, make([]byte, 100)), "failing": nil}[what]
		add("client calls "+what, []int{300, 2400, 19200, 153600}, func(n int) func() {
			cl := rfc1057.MakeClient(&echoPeer{results: res, seg: 1 << 30}, 7, 1)
			a := opq{make([]byte, 50)}
			cred := rfc1057.Opaque_auth{Flavor: rfc1057.AUTH_UNIX, Body: make([]byte, 60)}
			return func() {
				for i := 0; i < n; i++ {
					var o opq
					cl.Call(uint32(i), cred, cred, &a, &o)
				}
			}
		})
	}
	return
}

type costStr string

func (s *costStr) Xdr(xs *xdr.XdrState) { xdr.XdrString(xs, -1, (*string)(s)) }

func TestC25(t *testing.T) {
	defer quietStderr()()
	run(t, "C25", "bytes allocated and processor time (least of several tries) of encoding and decoding growing opaques, strings, arrays and lists of every shipped type that has them, of sequences of values of every type, of servers and clients with growing calls, numbers of calls, connections and procedures, each at sizes growing 8-fold up to 512-fold, against the cost at the smallest size in proportion; evaluations: measurements; non-trivial: those at larger sizes, distinct by operation and size", func(m *mon.M) {
		cases := costCases(m)
		rand.New(rand.NewSource(m.Seed)).Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
		for _, c := range cases {
			if m.Violations() > 5 {
				return
			}
			m.Case(c.name)
			n0 := c.sizes[0]
			a0, t0 := costOf(c.mk, n0, 5)
			t0 = max(t0, 100*time.Microsecond)
			for _, n := range c.sizes[1:] {
				k := int64(n / n0)
				alim, tlim := 6*a0*k+1<<16, 12*t0*time.Duration(k)
				a, tm := costOf(c.mk, n, 1)
				for try := 0; try < 5 && (a > alim || tm > tlim); try++ { // the machine may be busy
					if tm > 30*time.Second && try > 1 {
						break
					}
					a0b, t0b := costOf(c.mk, n0, 5)
					alim, tlim = max(alim, 6*a0b*k+1<<16), max(tlim, 12*t0b*time.Duration(k))
					ab, tb := costOf(c.mk, n, 1)
					a, tm = min(a, ab), min(tm, tb)
				}
				m.Eval([]byte(fmt.Sprint(c.name, n)), true)
				m.Max("worst_time_per_unit_times_100_of_smallest", int64(tm)*100/(int64(t0)*k))
				m.Max("worst_bytes_per_unit_times_100_of_smallest", a*100/(max(a0, 1<<16/k)*k))
				if a > alim {
					m.Violation("memory", "%s: %d times as much (%d) allocates %d bytes, %d times the %d bytes for %d", c.name, k, n, a, a/max(a0, 1), a0, n0)
					break
				}
				if tm > tlim {
					m.Violation("time", "%s: %d times as much (%d) takes %v, %d times the %v for %d", c.name, k, n, tm, tm/t0, t0, n0)
					break
				}
			}
			m.Count("operations", 1)
			if len(c.name)%7 == 0 {
				m.Sample(map[string]any{"operation": c.name, "smallest": n0, "bytes": a0, "time": t0.String()})
			}
		}
		afterLarge(m)
	})
}

// afterLarge measures small operations after a large one.
func afterLarge(m *mon.M) {
	const small = 400
	for _, n := range []int{1 << 20, 24 << 20} {
		big := make([]byte, n)
		lim := int64(small*256<<10) + 8*int64(n)
		judge := func(what string, a int64) {
			m.Case(what)
			if a > lim {
				m.Violation("memory", "%d times %s, after %d bytes once, allocates %d bytes, %d each", small, what, n, a, a/small)
			}
			m.Max("largest_allocation_per_operation_after_a_large_one", a/small)
			m.Eval([]byte(fmt.Sprint("after", what, n)), true)
			m.Count("operations_after_large_ones", small)
		}
		xdr.EncodeBuf(&opq{big})
		judge("encoding a small value", allocated(func() {
			for i := 0; i < small; i++ {
				xdr.EncodeBuf(&opq{big[:5]})
			}
		}))
		wire := opaqueBytes(nil, big)
		xdr.DecodeBuf(wire, &opq{})
		out := &opq{}
		judge("decoding a small value", allocated(func() {
			for i := 0; i < small; i++ {
				xdr.DecodeBuf([]byte{0, 0, 0, 1, 7, 0, 0, 0}, out)
			}
		}))
		// a client whose first call and reply are large
		p := &echoPeer{results: wire, seg: 1 << 30}
		cl := rfc1057.MakeClient(p, 1, 1)
		cl.Call(0, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &opq{big}, &opq{})
		p.results = opaqueBytes(nil, nil)
		failed := 0
		judge("a small call", allocated(func() {
			for i := 0; i < small; i++ {
				if cl.Call(0, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &opq{}, &opq{}) != nil {
					failed++
				}
			}
		}))
		if failed > 0 {
			m.Violation("calls", "%d of %d small calls after a large one failed", failed, small)
		}
		// a server, on one connection and on others
		srv := rfc1057.MakeServer()
		srv.Register(1, 1, 1, func(args *xdr.XdrState) (xdr.Xdrable, error) {
			v := &opq{}
			v.Xdr(args)
			return v, args.Error()
		})
		bigCall := record(call{xid: 1, rpcvers: 2, prog: 1, vers: 1, proc: 1, args: wire}.bytes())
		one := record(call{xid: 2, rpcvers: 2, prog: 1, vers: 1, proc: 1, args: opaqueBytes(nil, nil)}.bytes())
		srv.Run(newMetered(bigCall, 1))
		step := &stepper{in: [][]byte{bigCall}}
		for i := 0; i < small; i++ {
			step.in = append(step.in, one)
		}
		step.cond = sync.NewCond(&step.mu)
		srv.Run(step)
		judge("a small call served on the same connection", step.total())
		judge("a small call served on another connection", allocated(func() {
			for i := 0; i < small; i++ {
				srv.Run(newMetered(one, 1))
			}
		}))
	}
}

// stepper is a connection on which each call follows the reply to the one
// before, and measures what is allocated after the first.
type stepper struct {
	mu      sync.Mutex
	cond    *sync.Cond
	in      [][]byte
	cur     []byte
	next    int
	replies int
	outs    recCounter
	start   runtime.MemStats
	end     runtime.MemStats
}

func (s *stepper) Read(p []byte) (int, error) {
	if len(s.cur) == 0 {
		s.mu.Lock()
		for s.replies < s.next {
			s.cond.Wait()
		}
		s.mu.Unlock()
		if s.next == 1 {
			runtime.ReadMemStats(&s.start)
		}
		if s.next == len(s.in) {
			runtime.ReadMemStats(&s.end)
			return 0, io.EOF
		}
		s.cur = s.in[s.next]
		s.next++
	}
	n := copy(p, s.cur)
	s.cur = s.cur[n:]
	return n, nil
}

func (s *stepper) Write(p []byte) (int, error) {
	s.mu.Lock()
	s.replies += s.outs.add(p)
	s.mu.Unlock()
	s.cond.Broadcast()
	return len(p), nil
}

func (s *stepper) total() int64 { return int64(s.end.TotalAlloc - s.start.TotalAlloc) }
