// Package sim provides the controlled environment of the monitors: in-memory
// transports whose every read and write is scripted, and logical quiescence
// detection, which decides "blocked" and "never" without clocks.
package sim

import (
	"bytes"
	"runtime"
	"runtime/metrics"
	"sync"
	"time"
)

var (
	qmu  sync.Mutex
	qbuf = make([]byte, 1<<20)
)

// waits are the goroutine states that only another goroutine can end. (A
// goroutine starting a garbage collection shows as "semacquire", so that is
// not among them.)
var waits = [][]byte{
	[]byte("chan receive"), []byte("chan send"), []byte("select"), []byte("sync."), []byte("finalizer wait"), []byte("cleanup wait"),
	[]byte("IO wait"),
}

// idle says whether every other goroutine waits for another one. The snapshot
// stops the world, so it is consistent.
func idle() bool {
	var n int
	for {
		n = runtime.Stack(qbuf, true)
		if n < len(qbuf) {
			break
		}
		qbuf = make([]byte, 2*len(qbuf))
	}
	b := qbuf[:n]
	first := true
	for len(b) > 0 {
		var blk []byte
		if k := bytes.Index(b, []byte("\n\n")); k >= 0 {
			blk, b = b[:k], b[k+2:]
		} else {
			blk, b = b, nil
		}
		if !bytes.HasPrefix(blk, []byte("goroutine ")) {
			continue
		}
		if first { // ourselves
			first = false
			continue
		}
		o := bytes.IndexByte(blk, '[')
		if o < 0 {
			return false
		}
		if k := bytes.IndexByte(blk, '\n'); k >= 0 && bytes.Contains(blk[:k], []byte("synctest bubble")) {
			continue // left behind in simulated time
		}
		st := blk[o+1:]
		ok := false
		for _, w := range waits {
			if bytes.HasPrefix(st, w) {
				ok = true
				break
			}
		}
		if !ok && !bytes.Contains(blk, []byte("mon.(*M).watchdog")) && !bytes.Contains(blk, []byte("pprof.profileWriter")) {
			return false
		}
	}
	return true
}

var load = []metrics.Sample{{Name: "/sched/goroutines/running:goroutines"}, {Name: "/sched/goroutines/runnable:goroutines"}}

// busy is a cheap, approximate hint that some other goroutine can run.
func busy() bool {
	metrics.Read(load)
	if load[0].Value.Kind() != metrics.KindUint64 {
		return false
	}
	return load[0].Value.Uint64() > 1 || load[1].Value.Uint64() > 0
}

// Calls and Tries count quiescence checks and snapshots taken for them.
var Calls, Tries int64

// Virtual takes Quiesce's place where time is simulated.
var Virtual func()

// Quiesce returns once no other goroutine can take another step unless the
// caller acts.
func Quiesce() {
	if Virtual != nil {
		Calls++
		Virtual()
		return
	}
	qmu.Lock()
	defer qmu.Unlock()
	Calls++
	for i := 0; ; i++ {
		for j := 0; j < 4; j++ {
			runtime.Gosched()
		}
		if busy() && i%64 != 63 {
			if i > 20 {
				time.Sleep(10 * time.Microsecond)
			}
			continue
		}
		Tries++
		if idle() {
			return
		}
		if i > 1000 {
			time.Sleep(50 * time.Microsecond)
		}
		if i > 20000 {
			time.Sleep(2 * time.Millisecond)
		}
	}
}

// Stacks returns the stacks of all goroutines, for reports.
func Stacks() string {
	b := make([]byte, 1<<18)
	return string(b[:runtime.Stack(b, true)])
}
