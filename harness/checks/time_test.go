package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"testing"
	"testing/synctest"
	"time"

	"verifharness/mon"
	"verifharness/sim"

	"github.com/zeldovich/go-rpcgen/rfc1057"
)

// spans are times that pass between events.
var spans = []time.Duration{0, time.Microsecond, time.Millisecond, 300 * time.Millisecond, time.Second, 3 * time.Second, 11 * time.Second, 31 * time.Second,
	61 * time.Second, 6 * time.Minute, 20 * time.Minute, 2 * time.Hour, 25 * time.Hour, 40 * 24 * time.Hour}

// virtual runs f where time is simulated: whenever f waits for quiescence,
// anything between no time and weeks passes, so that whatever the library does
// by the clock happens.
func virtual(t *testing.T, m *mon.M, name string, f func(r *mRand)) {
	r := rng(m, name)
	done := make(chan struct{})
	go func() {
		finished := false
		defer close(done)
		defer func() {
			// What the library leaves running is not judged here.
			if e := recover(); e != nil && !finished {
				panic(e)
			}
		}()
		synctest.Test(t, func(*testing.T) {
			start, from := time.Now(), r.Int63()
			tr := rng(m, fmt.Sprint(name, from))
			sim.Virtual = func() {
				if tr.Intn(3) == 0 {
					synctest.Wait()
				}
				time.Sleep(spans[tr.Intn(len(spans))])
				synctest.Wait()
			}
			f(r)
			sim.Virtual = nil
			m.Count("simulated_hours", int64(time.Since(start)/time.Hour))
			finished = true
		})
	}()
	// A library that blocks in ways the simulation does not see would keep it
	// from going on; that is not judged here either.
	last, since := int64(-1), time.Now()
	for {
		select {
		case <-done:
			return
		case <-time.After(200 * time.Millisecond):
		}
		if b := m.Beat(); b != last {
			last, since = b, time.Now()
		} else if time.Since(since) > time.Minute {
			m.Count("simulations_given_up", 1)
			sim.Virtual = nil
			return
		}
	}
}

// slowCalls makes sequences of client calls whose replies take their time.
func slowCalls(t *testing.T, m *mon.M, n int) {
	virtual(t, m, "slow replies", func(r *mRand) {
		for i := 0; i < n; i++ {
			a, b := net.Pipe()
			var body []byte
			good := false
			stop := make(chan struct{})
			var segs []int
			replies := make(chan []byte, 100)
			go func() { // the peer
				defer close(replies)
				for {
					var h [4]byte
					if _, err := io.ReadFull(b, h[:]); err != nil {
						return
					}
					rec := make([]byte, binary.BigEndian.Uint32(h[:])&(1<<31-1))
					for p := rec; len(p) > 0; {
						k := min(len(p), 1+r.Intn(100))
						if _, err := io.ReadFull(b, p[:k]); err != nil {
							return
						}
						p = p[k:]
						if r.Intn(4) == 0 {
							time.Sleep(spans[r.Intn(len(spans))])
						}
					}
					if len(rec) < 4 {
						return
					}
					rep := reply{xid: binary.BigEndian.Uint32(rec), results: opaqueBytes(nil, body)}
					if !good {
						switch r.Intn(3) {
						case 0:
							rep.xid--
						case 1:
							rep.stat, rep.results = 5, nil
						case 2:
							rep = reply{xid: rep.xid, denied: true, stat: 1, authStat: 2}
						}
					}
					replies <- record(rep.bytes())
				}
			}()
			go func() {
				defer close(stop)
				for p := range replies {
					segs = nil
					for len(p) > 0 {
						time.Sleep(spans[r.Intn(len(spans))])
						k := min(len(p), []int{1, 3, 4, 30, 1000, 10000}[r.Intn(6)])
						segs = append(segs, k)
						b.Write(p[:k])
						p = p[k:]
					}
				}
			}()
			var rw io.ReadWriter = a
			plain := r.Intn(2) == 0
			if plain {
				rw = struct{ io.ReadWriter }{a}
			}
			c := rfc1057.MakeClient(rw, 5, 1)
			hist := fmt.Sprintf("client of a net.Conn: %v;", !plain)
			for k := 1 + r.Intn(6); k > 0; k-- {
				body = make([]byte, []int{0, 1, 30, 1000, 5000}[r.Intn(5)])
				r.Read(body)
				good = r.Intn(3) > 0
				var res opq
				start := time.Now()
				m.Case(hist)
				ret := make(chan error, 1)
				args := &opq{make([]byte, r.Intn(500))}
				go func() { ret <- c.Call(3, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, args, &res) }()
				var err error
				select {
				case err = <-ret:
				case <-time.After(100 * 365 * 24 * time.Hour):
					m.Violation("hang", "the peer answers in time, but the call does not return: %.2000s", hist)
					err = io.ErrNoProgress
				}
				hist += fmt.Sprintf(" [success %v, %d bytes in pieces %v after %v: %v]", good, len(body), segs, time.Since(start), err)
				if good && (err != nil || !bytes.Equal(res.B, body)) {
					m.Violation("slow", "a reply that took its time: call should have succeeded: %.2000s", hist)
					break
				}
				if !good && err == nil {
					m.Violation("slow", "a reply that took its time: call should have failed: %.2000s", hist)
					break
				}
				m.Count("slow_replies", 1)
				time.Sleep(spans[r.Intn(len(spans))])
			}
			a.Close()
			b.Close()
			<-stop
			m.Eval([]byte(hist), true)
		}
	})
}
