package checks

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"verifharness/mon"
	"verifharness/sim"
	"verifharness/units"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/rfc1813"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// The workload of C14 runs in child processes built with the race detector.
// Handlers and transports record what they see in memory of their own, so that
// the instrumentation orders nothing that the library does not order itself.

// loose is a transport without any synchronisation: reads hand out a prepared
// stream, writes look at every byte and drop it.
type loose struct {
	in    []byte
	r     *rand.Rand // used by the reading goroutine only
	fail  bool       // writes fail
	wg    *sync.WaitGroup
	tail  error
	limit int
}

func (l *loose) Read(p []byte) (int, error) {
	for k := l.r.Intn(3); k > 0; k-- {
		runtime.Gosched()
	}
	if len(l.in) == 0 {
		return 0, l.tail
	}
	n := min(len(p), len(l.in), 1+l.r.Intn(l.limit))
	copy(p, l.in[:n])
	l.in = l.in[n:]
	return n, nil
}

var errLoose = errors.New("scripted transport failure")

func (l *loose) Write(p []byte) (int, error) {
	s := byte(0)
	for _, c := range p {
		s ^= c
	}
	runtime.Gosched()
	_ = append([]byte{s}, p...)
	if l.fail {
		return len(p) / 2, errLoose
	}
	return len(p), nil
}

// raceCall is one call of the workload, with memory of its own for what its
// procedure saw.
type raceCall struct {
	started, ended time.Time
	buf            uintptr
	bad            bool
	done           chan struct{} // closed by the procedure at its end, orders only it and the judge
}

type raceStats struct {
	Rounds, Calls, Conns, Garbage, Overlaps, Reused, Bufs                int64
	MostTogether                                                         int64
	NFSCalls, PMAPCalls, TCPCalls, ClientCalls, Codec, Shared, Histories int64
	Wrong                                                                []string
}

// raceServer registers procedures that work on their arguments in place.
// Argument: unsigned index, opaque a<>, opaque b<>.
func raceServer(slots []raceCall) *rfc1057.Server {
	s := rfc1057.MakeServer()
	results := sharedResults()
	for proc := uint32(0); proc < 5; proc++ {
		proc := proc
		s.Register(300, 1, proc, func(args *xdr.XdrState) (xdr.Xdrable, error) {
			var k uint32
			xdr.XdrU32(args, &k)
			if args.Error() != nil || int(k) >= len(slots) {
				return nil, errors.New("no such call")
			}
			c := &slots[k]
			defer func() {
				defer func() { recover() }() // a second invocation is not this check's concern
				close(c.done)
			}()
			c.started = time.Now()
			var a, b []byte
			xdr.XdrVarArray(args, -1, &a)
			runtime.Gosched()
			xdr.XdrVarArray(args, -1, &b)
			if args.Error() != nil {
				return nil, args.Error()
			}
			if len(a) > 0 {
				c.buf = uintptr(unsafe.Pointer(&a[0]))
			}
			fill := byte(k)
			for _, f := range [][]byte{a, b} {
				for i := range f {
					if f[i] != fill {
						c.bad = true
					}
				}
			}
			for spin := 0; spin < int(proc)*3; spin++ {
				runtime.Gosched()
			}
			for _, f := range [][]byte{a, b} {
				for i := range f {
					if f[i] != fill {
						c.bad = true
					}
					f[i] = fill
				}
			}
			c.ended = time.Now()
			switch proc {
			case 1:
				return &opq{a}, nil
			case 2:
				return &opq{append([]byte{}, b...)}, nil
			case 3:
				return nil, errors.New("scripted")
			case 4: // the same for several calls
				return results[int(k)%len(results)], nil
			}
			return nil, nil
		})
	}
	return s
}

// sharedResults are values that many replies carry at the same time.
func sharedResults() (l []xdr.Xdrable) {
	r := rand.New(rand.NewSource(7))
	us := units.Shipped()
	for len(l) < 6 {
		in := value(us[r.Intn(len(us))], r, 300, false, nil)
		if _, err := encode(in.X); err == nil {
			l = append(l, in.X)
		}
	}
	return
}

func raceArgs(k uint32, r *rand.Rand, sizes []int) []byte {
	b := be(nil, k)
	for i := 0; i < 2; i++ {
		b = opaqueBytes(b, bytes.Repeat([]byte{byte(k)}, sizes[r.Intn(len(sizes))]))
	}
	return b
}

// looseRound serves prepared streams on several connections and servers.
func looseRound(r *rand.Rand, st *raceStats) {
	sizes := [][]int{{0, 3, 40}, {1, 100, 900}, {500, 5000}, {8, 70000}, {30}}[r.Intn(5)]
	nconn, ncalls := 1+r.Intn(6), 10+r.Intn(50)
	slots := make([]raceCall, nconn*ncalls)
	for i := range slots {
		slots[i].done = make(chan struct{})
	}
	servers := []*rfc1057.Server{raceServer(slots)}
	if r.Intn(2) == 0 {
		servers = append(servers, raceServer(slots))
	}
	k := uint32(0)
	var wg sync.WaitGroup
	base := runtime.NumGoroutine()
	var cc []*loose
	for i := 0; i < nconn; i++ {
		c := &loose{r: rand.New(rand.NewSource(r.Int63())), fail: r.Intn(8) == 0, tail: []error{io.EOF, errLoose}[r.Intn(2)], limit: []int{3, 60, 4000, 1 << 20}[r.Intn(4)]}
		if sizes[len(sizes)-1] > 1000 && c.limit < 4000 {
			c.limit = 4000
		}
		for j := 0; j < ncalls; j++ {
			cl := call{xid: k, rpcvers: 2, prog: 300, vers: 1, proc: uint32(r.Intn(5)), args: raceArgs(k, r, sizes)}
			k++
			switch r.Intn(14) {
			case 0:
				cl.proc = 9
			case 1:
				cl.rpcvers = 3
			case 2:
				cl.vers = 7
			case 3:
				cl.prog = 1
			}
			b := cl.bytes()
			switch r.Intn(14) {
			case 0:
				b = b[:r.Intn(len(b))]
				st.Garbage++
			case 1:
				g := make([]byte, r.Intn(200))
				r.Read(g)
				b = g
				st.Garbage++
			}
			c.in = append(c.in, record(b)...)
		}
		if r.Intn(3) == 0 {
			c.in = c.in[:len(c.in)-r.Intn(20)-1]
		}
		cc = append(cc, c)
	}
	for i, c := range cc {
		wg.Add(1)
		srv, c := servers[i%len(servers)], c
		go func() { defer wg.Done(); srv.Run(c) }()
	}
	wg.Wait()
	drain(base)
	st.Calls += int64(k)
	st.Conns += int64(nconn)
	seen := map[uintptr]bool{}
	type ev struct {
		t time.Time
		d int64
	}
	var evs []ev
	for i := range slots {
		select {
		case <-slots[i].done:
		default:
			continue
		}
		if slots[i].bad {
			st.Wrong = append(st.Wrong, "arguments changed under a procedure")
		}
		if b := slots[i].buf; b != 0 {
			st.Bufs++
			if seen[b] {
				st.Reused++
			}
			seen[b] = true
		}
		if !slots[i].ended.IsZero() {
			evs = append(evs, ev{slots[i].started, 1}, ev{slots[i].ended, -1})
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].t.Before(evs[j].t) })
	n := int64(0)
	for _, e := range evs {
		if e.d > 0 && n > 0 {
			st.Overlaps++
		}
		n += e.d
		st.MostTogether = max(st.MostTogether, n)
	}
}

// drain waits until the goroutines started since have ended.
func drain(base int) {
	for runtime.NumGoroutine() > base {
		runtime.Gosched()
	}
}

// raceNFS implements the NFS procedures used here.
type raceNFS struct {
	rfc1813.NFS_PROGRAM_NFS_V3_handler
	shared []byte // read by all
}

func xor(b []byte) (x byte) {
	for i := range b {
		x ^= b[i]
		b[i] ^= 0x55
	}
	return
}

func (n *raceNFS) NFSPROC3_NULL() {}
func (n *raceNFS) NFSPROC3_READ(a rfc1813.READ3args) (res rfc1813.READ3res) {
	runtime.Gosched()
	xor(a.File.Data)
	res.Resok.Data = n.shared[:min(int(a.Count), len(n.shared))]
	res.Resok.Count = a.Count
	return
}
func (n *raceNFS) NFSPROC3_WRITE(a rfc1813.WRITE3args) (res rfc1813.WRITE3res) {
	xor(a.Data)
	runtime.Gosched()
	xor(a.Data)
	xor(a.File.Data)
	res.Resok.Count = rfc1813.Count3(len(a.Data))
	return
}
func (n *raceNFS) NFSPROC3_LOOKUP(a rfc1813.LOOKUP3args) (res rfc1813.LOOKUP3res) {
	if len(a.What.Name)%2 == 1 {
		res.Status = rfc1813.NFS3ERR_NOENT
		return
	}
	res.Resok.Object = a.What.Dir // shares the request's memory
	return
}
func (n *raceNFS) NFSPROC3_READDIRPLUS(a rfc1813.READDIRPLUS3args) (res rfc1813.READDIRPLUS3res) {
	p := &res.Resok.Reply.Entries
	for i := 0; i < int(a.Dircount); i++ {
		*p = &rfc1813.Entryplus3{Name: rfc1813.Filename3(fmt.Sprint("entry", i)), Cookie: rfc1813.Cookie3(i)}
		(*p).Name_handle.Handle_follows = true
		(*p).Name_handle.Handle = a.Dir
		p = &(*p).Nextentry
	}
	return
}

// nfsClient makes calls on one connection from one goroutine at a time.
func nfsClient(cl *rfc1057.Client, r *rand.Rand, n int, cred rfc1057.Opaque_auth) (wrong []string) {
	for i := 0; i < n; i++ {
		fh := rfc1813.Nfs_fh3{Data: make([]byte, r.Intn(65))}
		r.Read(fh.Data)
		switch r.Intn(5) {
		case 0:
			var v xdr.Void
			if err := cl.Call(rfc1813.NFSPROC3_NULL, cred, rfc1057.Opaque_auth{}, &v, &v); err != nil {
				wrong = append(wrong, err.Error())
			}
		case 1:
			a := rfc1813.READ3args{File: fh, Count: rfc1813.Count3(r.Intn(3000))}
			var res rfc1813.READ3res
			if err := cl.Call(rfc1813.NFSPROC3_READ, cred, cred, &a, &res); err != nil || len(res.Resok.Data) != int(a.Count) {
				wrong = append(wrong, fmt.Sprint("READ ", err))
			}
			xor(res.Resok.Data)
		case 2:
			a := rfc1813.WRITE3args{File: fh, Data: make([]byte, r.Intn(9000))}
			var res rfc1813.WRITE3res
			if err := cl.Call(rfc1813.NFSPROC3_WRITE, cred, cred, &a, &res); err != nil || int(res.Resok.Count) != len(a.Data) {
				wrong = append(wrong, fmt.Sprint("WRITE ", err))
			}
		case 3:
			a := rfc1813.LOOKUP3args{What: rfc1813.Diropargs3{Dir: fh, Name: rfc1813.Filename3(strings.Repeat("n", r.Intn(50)))}}
			var res rfc1813.LOOKUP3res
			if err := cl.Call(rfc1813.NFSPROC3_LOOKUP, rfc1057.Opaque_auth{}, cred, &a, &res); err != nil || res.Status == 0 && !bytes.Equal(res.Resok.Object.Data, fh.Data) {
				wrong = append(wrong, fmt.Sprint("LOOKUP ", err))
			}
			xor(res.Resok.Object.Data)
		case 4:
			a := rfc1813.READDIRPLUS3args{Dir: fh, Dircount: rfc1813.Count3(r.Intn(30))}
			var res rfc1813.READDIRPLUS3res
			if err := cl.Call(rfc1813.NFSPROC3_READDIRPLUS, cred, cred, &a, &res); err != nil {
				wrong = append(wrong, fmt.Sprint("READDIRPLUS ", err))
			}
			k := 0
			for p := res.Resok.Reply.Entries; p != nil; p = p.Nextentry {
				xor(p.Name_handle.Handle.Data)
				k++
			}
			if k != int(a.Dircount) {
				wrong = append(wrong, fmt.Sprint("READDIRPLUS gave ", k, " entries of ", a.Dircount))
			}
		}
	}
	return
}

// racePmap implements the port mapper's procedures.
type racePmap struct{ dump rfc1057.Pmaplist }

func (p *racePmap) PMAPPROC_NULL() {}
func (p *racePmap) PMAPPROC_SET(m rfc1057.Mapping) rfc1057.Xbool {
	runtime.Gosched()
	return m.Prog == m.Port
}
func (p *racePmap) PMAPPROC_UNSET(m rfc1057.Mapping) rfc1057.Xbool { return m.Prog != m.Port }
func (p *racePmap) PMAPPROC_GETPORT(m rfc1057.Mapping) rfc1057.Uint32 {
	runtime.Gosched()
	return rfc1057.Uint32(m.Prog ^ m.Vers ^ m.Prot)
}
func (p *racePmap) PMAPPROC_DUMP() rfc1057.Pmaplist { return p.dump } // the same for all
func (p *racePmap) PMAPPROC_CALLIT(a rfc1057.Call_args) rfc1057.Call_result {
	xor(a.Args)
	runtime.Gosched()
	return rfc1057.Call_result{Port: a.Prog, Res: a.Args}
}

func pmapClient(cl *rfc1057.Client, r *rand.Rand, n int, cred rfc1057.Opaque_auth) (wrong []string) {
	for i := 0; i < n; i++ {
		mp := rfc1057.Mapping{Prog: r.Uint32(), Vers: r.Uint32(), Prot: r.Uint32(), Port: r.Uint32()}
		var err error
		ok := true
		switch r.Intn(5) {
		case 0:
			var v xdr.Void
			err = cl.Call(rfc1057.PMAPPROC_NULL, cred, rfc1057.Opaque_auth{}, &v, &v)
		case 1:
			if r.Intn(2) == 0 {
				mp.Port = mp.Prog
			}
			var res rfc1057.Xbool
			err = cl.Call([]uint32{rfc1057.PMAPPROC_SET, rfc1057.PMAPPROC_UNSET}[i%2], cred, cred, &mp, &res)
			ok = bool(res) == ((mp.Prog == mp.Port) == (i%2 == 0))
		case 2:
			var res rfc1057.Uint32
			err = cl.Call(rfc1057.PMAPPROC_GETPORT, rfc1057.Opaque_auth{}, cred, &mp, &res)
			ok = uint32(res) == mp.Prog^mp.Vers^mp.Prot
		case 3:
			var v xdr.Void
			var res rfc1057.Pmaplist
			err = cl.Call(rfc1057.PMAPPROC_DUMP, cred, cred, &v, &res)
			k := uint32(0)
			for e := res.P; e != nil; e = e.Next.P {
				ok = ok && e.Map.Port == k
				k++
			}
			ok = ok && k == 9
		case 4:
			a := rfc1057.Call_args{Prog: mp.Prog, Args: make([]byte, r.Intn(5000))}
			r.Read(a.Args)
			var res rfc1057.Call_result
			err = cl.Call(rfc1057.PMAPPROC_CALLIT, cred, cred, &a, &res)
			xor(res.Res)
			ok = res.Port == mp.Prog && bytes.Equal(res.Res, a.Args)
		}
		if err != nil || !ok {
			wrong = append(wrong, fmt.Sprint("PMAP ", err))
		}
	}
	return
}

// clientsRound runs independent clients against servers over in-memory or TCP
// connections. A client may be handed from one goroutine to another.
func clientsRound(r *rand.Rand, st *raceStats, tcp bool) {
	impl := &raceNFS{shared: make([]byte, 4000)}
	pmap := &racePmap{}
	for k := uint32(9); k > 0; k-- {
		pmap.dump = rfc1057.Pmaplist{P: &rfc1057.Pmaplistelem{Map: rfc1057.Mapping{Port: k - 1}, Next: pmap.dump}}
	}
	var servers []*rfc1057.Server
	for i := 0; i < 1+r.Intn(2); i++ {
		s := rfc1057.MakeServer()
		s.RegisterMany(rfc1813.NFS_PROGRAM_NFS_V3_regs(impl))
		s.RegisterMany(rfc1057.PMAP_PROG_PMAP_VERS_regs(pmap))
		servers = append(servers, s)
	}
	n, calls, pick := 2+r.Intn(7), 8+r.Intn(25), r.Intn(3)
	var wg, sv sync.WaitGroup
	wrong := make([][]string, n)
	for i := 0; i < n; i++ {
		var a, b io.ReadWriteCloser
		if tcp {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				return
			}
			c, err := net.Dial("tcp", l.Addr().String())
			if err != nil {
				l.Close()
				return
			}
			b, err = l.Accept()
			a = c
			l.Close()
			if err != nil {
				c.Close()
				return
			}
		} else {
			a, b = sim.Pair()
		}
		srv, i := servers[i%len(servers)], i
		cr := rand.New(rand.NewSource(r.Int63()))
		cred := rfc1057.Opaque_auth{Body: make([]byte, r.Intn(30))}
		sv.Add(1)
		go func() { defer sv.Done(); srv.Run(b); b.Close() }()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer a.Close()
			cl, work := rfc1057.MakeClient(a, rfc1813.NFS_PROGRAM, rfc1813.NFS_V3), nfsClient
			if i%3 == pick {
				cl, work = rfc1057.MakeClient(a, rfc1057.PMAP_PROG, rfc1057.PMAP_VERS), pmapClient
			}
			wrong[i] = work(cl, cr, calls/2, cred)
			done := make(chan []string)
			go func() { done <- work(cl, cr, calls-calls/2, cred) }()
			wrong[i] = append(wrong[i], <-done...)
		}()
	}
	wg.Wait()
	sv.Wait()
	for _, w := range wrong {
		st.Wrong = append(st.Wrong, w...)
	}
	st.ClientCalls += int64(n * calls)
	if tcp {
		st.TCPCalls += int64(n * calls)
	}
	for i := 0; i < n; i++ {
		if i%3 == pick {
			st.PMAPCalls += int64(calls)
		} else {
			st.NFSCalls += int64(calls)
		}
	}
	st.Conns += int64(n)
}

// codecRound encodes and decodes independent values of all types concurrently.
func codecRound(r *rand.Rand, st *raceStats) {
	us := units.All()
	var wg sync.WaitGroup
	const n = 6
	k := 60
	for g := 0; g < n; g++ {
		gr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < k; i++ {
				u := us[gr.Intn(len(us))]
				in := value(u, gr, 300, false, nil)
				b, err := encode(in.X)
				if err == nil {
					out := u.Make()
					xdr.DecodeBuf(b, out.X)
					if len(b) > 4 {
						xdr.DecodeBuf(b[:gr.Intn(len(b))], u.Make().X)
						binary.BigEndian.PutUint32(b[gr.Intn(len(b)-3):], gr.Uint32())
						xdr.DecodeBuf(b, u.Make().X)
					}
				}
			}
		}()
	}
	wg.Wait()
	st.Codec += int64(n * k)
	// values and buffers shared by goroutines that encode and decode them
	for i := 0; i < 80; i++ {
		u := us[r.Intn(len(us))]
		in := value(u, r, 300, false, nil)
		b, err := encode(in.X)
		if err != nil {
			continue
		}
		same := make([]bool, 3)
		for g := range same {
			g, out := g, u.Make()
			wg.Add(1)
			go func() {
				defer wg.Done()
				c, _ := encode(in.X)
				same[g] = bytes.Equal(b, c)
				xdr.DecodeBuf(b, out.X)
				if len(b) > 4 {
					xdr.DecodeBuf(b[:len(b)-4], u.Make().X)
				}
			}()
		}
		wg.Wait()
		for _, ok := range same {
			if !ok {
				st.Wrong = append(st.Wrong, "a shared "+u.Name+" encoded differently")
			}
		}
		st.Shared += int64(len(same))
	}
}

var raceSink int

// TestHelperRace is a child process of C14.
func TestHelperRace(t *testing.T) {
	mode := os.Getenv("VERIF_RACE_MODE")
	if mode == "" {
		t.Skip("helper")
	}
	if mode == "selftest" { // the detector and its log must work
		done := make(chan bool)
		go func() { raceSink++; done <- true }()
		raceSink++
		<-done
		return
	}
	defer quietStderr()()
	var seed, secs int64
	fmt.Sscan(mode, &seed, &secs)
	r := rand.New(rand.NewSource(seed))
	st := &raceStats{}
	debug.SetGCPercent([]int{20, 100, 400}[seed%3])
	end := time.Now().Add(time.Duration(secs) * time.Second)
	for n := 0; n < 12 || time.Now().Before(end); n++ {
		undo := procs([]int{1, 2, 4, 8}[r.Intn(4)])
		switch n % 6 {
		case 0, 1, 2:
			looseRound(r, st)
		case 3:
			clientsRound(r, st, false)
		case 4:
			clientsRound(r, st, true)
		case 5:
			codecRound(r, st)
		}
		st.Rounds++
		undo()
		if len(st.Wrong) > 50 {
			break
		}
	}
	b, _ := json.Marshal(st)
	os.WriteFile(os.Getenv("VERIF_RACE_STATS"), b, 0666)
	// histories with gates last: they judge behaviour too, which may end the run
	os.Setenv("VERIF_EVIDENCE", os.Getenv("VERIF_WORK"))
	m := mon.New(fmt.Sprintf("Cx%d", seed), "")
	for i := 0; i < 25; i++ {
		st.Histories++
		history(m, r, opts{sizes: []int{0, 40, 3000}, servers: 2, conns: 3, calls: 25, badPct: 10, gatePct: 40, plainPct: 70, quiesce: 6, keys: [2]string{"a", "b"}})
		b, _ = json.Marshal(st)
		os.WriteFile(os.Getenv("VERIF_RACE_STATS"), b, 0666)
	}
}

var raceBlock = regexp.MustCompile(`(?s)WARNING: DATA RACE\n(.*?)\n==================`)

// raceReports parses the detector's log files.
func raceReports(glob string) (lib, other []string) {
	fs, _ := filepath.Glob(glob)
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, x := range raceBlock.FindAllStringSubmatch(string(b), -1) {
			// the stacks of the two accesses come before those of the goroutines' creation
			acc := x[1]
			if i := strings.Index(acc, "\nGoroutine "); i >= 0 {
				acc = acc[:i]
			}
			if strings.Contains(acc, "github.com/zeldovich/go-rpcgen/") || strings.Contains(acc, "verifharness/gen/") {
				lib = append(lib, x[1])
			} else {
				other = append(other, x[1])
			}
		}
	}
	return
}

// raceGenerated runs the stubs of the shipped programs and of newly generated
// ones under the detector.
func raceGenerated(m *mon.M, work string, r *rand.Rand, round int) {
	name := fmt.Sprint("race", round)
	var specs []*genSpec
	for i := 0; i < m.N(3, 8); i++ {
		g := randSpec(r, fmt.Sprintf("r%dx%d", round, i), allOpts[r.Intn(len(allOpts))], 3+r.Intn(5), true)
		if g.generate(work) == 0 { // what it refuses is the business of C19 and C20
			specs = append(specs, g)
		}
	}
	for _, p := range []string{"rfc1057", "rfc1813"} {
		specs = append(specs, &genSpec{id: p, text: units.SpecText(p), s: units.Spec(p), pkg: "github.com/zeldovich/go-rpcgen/" + p})
	}
	bin, _, good := driver(work, name, specs, false, true, "-race")
	if len(good) == 0 {
		return
	}
	defer os.Remove(bin)
	res := filepath.Join(work, name+".result")
	cmd := exec.Command(bin, "-test.run", "^TestHelperGen$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "VERIF_HELPER=race", "VERIF_CHILD_OUT="+res, "VERIF_CHILD_PROP="+m.Prop, "VERIF_CHILD_NAME="+name,
		"GORACE=halt_on_error=0 exitcode=66 history_size=5 log_path="+filepath.Join(work, name+".race"))
	out, err := cmd.CombinedOutput()
	lib, other := raceReports(filepath.Join(work, name+".race.*"))
	for _, rep := range lib {
		m.Violation("race", "data race in generated stubs or below:\n%s", rep)
	}
	if len(other) > 0 {
		fmt.Println("INCONCLUSIVE: race in the harness:\n" + other[0])
		os.Exit(3)
	}
	if i := strings.Index(string(out), "fatal error: concurrent map"); i >= 0 && len(lib) == 0 {
		m.Violation("race", "unsynchronised use of a map: %.2000s", out[i:])
		return
	}
	if e := m.Merge(res, ""); e != nil && len(lib) == 0 {
		fmt.Printf("INCONCLUSIVE: child ended early: %v\n%.3000s\n", err, out)
		os.Exit(3)
	}
}

func TestC14(t *testing.T) {
	run(t, "C14", "Go race detector on servers with pipelined connections (transports without synchronisation, in-memory, TCP), recycled buffers of varying sizes, procedures that read and overwrite their arguments, results sharing argument memory, malformed records, failing transports, independent clients handed between goroutines, concurrent codecs, stubs of shipped and newly generated programs with many calls running together; evaluations: calls and codec operations run under the detector; non-trivial: rounds (distinct by seed and number)", func(m *mon.M) {
		work := os.Getenv("VERIF_WORK")
		child := func(mode, tag string) (raceStats, []string, []string, string, error) {
			ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
			defer cancel()
			cmd := exec.CommandContext(ctx, os.Args[0], "-test.run", "^TestHelperRace$", "-test.timeout", "0")
			cmd.Env = append(os.Environ(), "VERIF_RACE_MODE="+mode, "VERIF_RACE_STATS="+filepath.Join(work, "stats."+tag),
				"GORACE=halt_on_error=0 exitcode=66 history_size=5 log_path="+filepath.Join(work, "race."+tag))
			out, err := cmd.CombinedOutput()
			var st raceStats
			b, _ := os.ReadFile(filepath.Join(work, "stats."+tag))
			json.Unmarshal(b, &st)
			lib, other := raceReports(filepath.Join(work, "race."+tag) + ".*")
			return st, lib, other, string(out), err
		}
		if _, _, other, out, _ := child("selftest", "self"); len(other) == 0 {
			fmt.Println("INCONCLUSIVE: the race detector did not report a deliberate race", out)
			os.Exit(3)
		}
		m.Count("selftest_race_reported", 1)
		n := m.N(6, 8)
		rounds := m.N(1, 12)
		for round := 0; round < rounds; round++ {
			m.Case(fmt.Sprint("round ", round))
			if raceGenerated(m, work, rng(m, fmt.Sprint("generated", round)), round); m.Violations() > 0 {
				return
			}
			type res struct {
				st         raceStats
				lib, other []string
				out        string
				err        error
			}
			rs := make([]res, n)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					x := &rs[i]
					x.st, x.lib, x.other, x.out, x.err = child(fmt.Sprint(m.Seed*1000+int64(round*n+i), " ", m.N(12, 60)), fmt.Sprint(round, "-", i))
				}()
			}
			wg.Wait()
			for i, x := range rs {
				for _, rep := range x.lib {
					m.Violation("race", "data race:\n%s", rep)
				}
				if i := strings.Index(x.out, "fatal error: concurrent map"); i >= 0 && strings.Contains(x.out[i:min(len(x.out), i+3000)], "github.com/zeldovich/go-rpcgen/") {
					m.Violation("race", "unsynchronised use of a map: %.2000s", x.out[i:])
					continue
				}
				if len(x.other) > 0 {
					fmt.Println("INCONCLUSIVE: race in the harness:\n" + x.other[0])
					os.Exit(3)
				}
				if len(x.lib) == 0 && x.st.Rounds == 0 {
					// some other failure ended the child before it could observe anything
					fmt.Printf("INCONCLUSIVE: child ended early: %v\n%.3000s\n", x.err, x.out)
					os.Exit(3)
				}
				st := x.st
				for k := int64(0); k < st.Rounds; k++ {
					m.Eval([]byte(fmt.Sprint(round, i, k)), true)
				}
				m.Count("calls", st.Calls+st.ClientCalls)
				m.Count("connections", st.Conns)
				m.Count("malformed_records", st.Garbage)
				m.Count("procedures_started_while_others_ran", st.Overlaps)
				m.Max("most_procedures_running_together", st.MostTogether)
				m.Count("request_buffers_seen", st.Bufs)
				m.Count("request_buffers_seen_again_in_a_round", st.Reused)
				m.Count("nfs_calls", st.NFSCalls)
				m.Count("portmapper_calls", st.PMAPCalls)
				m.Count("tcp_calls", st.TCPCalls)
				m.Count("codec_operations", st.Codec)
				m.Count("codec_operations_on_shared_values", st.Shared)
				m.Count("gated_histories", st.Histories)
				m.Count("functional_oddities", int64(len(st.Wrong)))
				m.Sample(map[string]any{"child": i, "rounds": st.Rounds, "calls": st.Calls, "overlaps": st.Overlaps, "buffers_reused": st.Reused})
			}
			if m.Violations() > 0 {
				return
			}
		}
	})
}
