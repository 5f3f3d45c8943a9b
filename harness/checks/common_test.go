package checks

import (
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"os"
	"reflect"
	"syscall"
	"testing"

	"verifharness/mon"
	"verifharness/ref"
	"verifharness/sim"
	"verifharness/units"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// run is the frame of every check.
func run(t *testing.T, prop, rule string, f func(m *mon.M)) {
	m := mon.New(prop, rule)
	f(m)
	finish(m)
}

func finish(m *mon.M) {
	if sim.Calls > 0 {
		m.Count("quiescence_decisions", sim.Calls)
	}
	m.Finish()
	if m.Violations() > 0 {
		os.Exit(1)
	}
}

// stop ends the run at once after a violation that leaves goroutines stuck.
func stop(m *mon.M) {
	if sim.Calls > 0 {
		m.Count("quiescence_decisions", sim.Calls)
	}
	m.Finish()
	if m.Violations() > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// rng is a random source determined by the seed and a name.
func rng(m *mon.M, name string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", m.Seed, m.Prop, name)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// value makes a fresh variable of the unit's type with random contents.
func value(u units.Unit, r *rand.Rand, budget int, wild bool, arms map[string]int) units.Inst {
	in := u.Make()
	g := &ref.Gen{S: u.S, R: r, Budget: budget, Wild: wild, Arms: arms}
	g.Fill(u.T, in.RV)
	return in
}

// tempErr is a transport error that calls itself temporary and a timeout.
type tempErr struct{}

func (tempErr) Error() string   { return "temporary transport error" }
func (tempErr) Timeout() bool   { return true }
func (tempErr) Temporary() bool { return true }

// faults are the errors with which transports end or fail.
var faults = []error{io.EOF, errors.New("transport broke"), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrNoProgress, syscall.EPIPE, syscall.ECONNRESET,
	syscall.EINTR, syscall.EAGAIN, net.ErrClosed, os.ErrDeadlineExceeded, tempErr{}, &net.OpError{Op: "read", Net: "tcp", Err: tempErr{}}}

func budget(r *rand.Rand) int {
	switch r.Intn(10) {
	case 0:
		return 0
	case 1, 2:
		return 64
	case 3:
		return 20000
	case 4, 5, 6:
		return 2000
	}
	return 400
}

func encode(x xdr.Xdrable) ([]byte, error) { return xdr.EncodeBuf(x) }

// deepCopy copies everything reachable from v.
func deepCopy(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	copyInto(n, v)
	return n
}

func copyInto(d, s reflect.Value) {
	switch s.Kind() {
	case reflect.Pointer:
		if !s.IsNil() {
			d.Set(reflect.New(s.Type().Elem()))
			copyInto(d.Elem(), s.Elem())
		}
	case reflect.Slice:
		if !s.IsNil() {
			d.Set(reflect.MakeSlice(s.Type(), s.Len(), s.Len()))
			for i := 0; i < s.Len(); i++ {
				copyInto(d.Index(i), s.Index(i))
			}
		}
	case reflect.Array:
		for i := 0; i < s.Len(); i++ {
			copyInto(d.Index(i), s.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < s.NumField(); i++ {
			if d.Field(i).CanSet() {
				copyInto(d.Field(i), s.Field(i))
			}
		}
	default:
		d.Set(s)
	}
}

func dump(v reflect.Value) string {
	s := fmt.Sprintf("%+v", v.Interface())
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func sameErr(err error) string {
	if err == nil {
		return "ok"
	}
	return "error"
}

// scaled runs f for every unit with a number of rounds that suits its size.
func forUnits(m *mon.M, us []units.Unit, f func(u units.Unit, r *rand.Rand)) {
	for _, u := range us {
		m.Case(u.Name)
		f(u, rng(m, u.Name))
		if m.Violations() > 20 {
			return
		}
	}
}

// safely runs f and reports a panic as a violation.
func safely(m *mon.M, key, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			m.Violation(key, "%s: panic: %v", what, e)
		}
	}()
	f()
}
