package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strings"
	"testing"

	"verifharness/mon"
	"verifharness/ref"
	"verifharness/units"

	"github.com/zeldovich/go-rpcgen/xdr"
)

func isUnion(t *ref.Type) bool { return t.K == ref.KUnion }

// armVariants generates, for every union reachable in u, a value with each arm
// (and each label) selected.
func armVariants(u units.Unit, r *rand.Rand, f func(in units.Inst, what string)) {
	left := 4000
	for _, s := range u.S.Sites(u.T, 2, isUnion) {
		if left < 0 {
			return
		}
		var labels []int64
		for _, a := range s.T.Arms {
			labels = append(labels, a.Labels...)
		}
		k := len(labels)
		if u.S.DefReachable(s.T) {
			k++
		}
		left -= k
		for i := 0; i < k; i++ {
			in := u.Make()
			g := &ref.Gen{S: u.S, R: r, Budget: 300, Path: s.Path}
			what := ""
			g.At = func(t *ref.Type, rv reflect.Value) bool {
				var d int64
				if i < len(labels) {
					d = labels[i]
				} else {
					d = g.DefLabel(t)
				}
				g.FillUnion(t, rv, d)
				what = fmt.Sprintf("%s%s=%d", u.Name, s.Name, d)
				return true
			}
			g.Fill(u.T, in.RV)
			f(in, what)
		}
	}
}

// sized makes library primitives with large contents.
func sized(m *mon.M, f func(u units.Unit, in units.Inst)) {
	for _, u := range units.Primitives() {
		if u.T.K != ref.KVarOpaque && u.T.K != ref.KString || !u.T.Unb && u.T.N < 1<<20 {
			continue
		}
		r := rng(m, "sized"+u.Name)
		ns := []int{65535, 65536, 65537, 1<<20 - 1, 1 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 1, m.N(20<<20+3, 300<<20+1)}
		for e := 3; e < 18; e++ {
			for d := -4; d <= 4; d++ {
				ns = append(ns, 1<<e+d)
			}
		}
		for i := 0; i < m.N(40, 400); i++ { // any length, small ones as likely as large ones
			ns = append(ns, int(math.Exp(r.Float64()*math.Log(1<<22))))
		}
		for _, n := range ns {
			if !u.T.Unb && uint64(n) > u.T.N {
				continue
			}
			b := make([]byte, n)
			r.Read(b)
			in := u.Make()
			if u.T.K == ref.KString {
				in.RV.SetString(string(b))
			} else {
				in.RV.SetBytes(b)
			}
			m.Case(fmt.Sprintf("%s len %d", u.Name, n))
			f(u, in)
		}
	}
}

// manyOps makes very many small operations on one encoder and one decoder.
func manyOps(m *mon.M) {
	r := rng(m, "manyops")
	n := m.N(300000, 5000000)
	m.Case("very many operations on one state")
	kinds := make([]byte, n)
	r.Read(kinds)
	seed := r.Int63()
	w := xdr.MakeWriter(nil)
	var want []byte
	vals := rand.New(rand.NewSource(seed))
	for _, k := range kinds {
		v := vals.Uint64()
		switch k % 7 {
		case 0:
			b := v&1 == 1
			xdr.XdrBool(w, &b)
			want = be(want, uint32(v&1))
		case 1:
			x := int32(v)
			xdr.XdrS32(w, &x)
			want = be(want, uint32(v))
		case 2:
			x := uint32(v)
			xdr.XdrU32(w, &x)
			want = be(want, x)
		case 3:
			x := int64(v)
			xdr.XdrS64(w, &x)
			want = binary.BigEndian.AppendUint64(want, v)
		case 4:
			xdr.XdrU64(w, &v)
			want = binary.BigEndian.AppendUint64(want, v)
		case 5:
			s := "abcdefg"[:v%8]
			xdr.XdrString(w, 7, &s)
			want = opaqueBytes(want, []byte(s))
		case 6:
			b := []byte("abcdefg")[:v%8]
			xdr.XdrVarArray(w, 7, &b)
			want = opaqueBytes(want, b)
		}
	}
	if w.Error() != nil || !bytes.Equal(w.WriteBuf(), want) {
		m.Violation("many-ops", "%d operations on one encoder: error %v, %d bytes, expected %d", n, w.Error(), len(w.WriteBuf()), len(want))
		return
	}
	rd := xdr.MakeReader(want)
	vals = rand.New(rand.NewSource(seed))
	for i, k := range kinds {
		v := vals.Uint64()
		ok := true
		switch k % 7 {
		case 0:
			var b bool
			xdr.XdrBool(rd, &b)
			ok = b == (v&1 == 1)
		case 1:
			var x int32
			xdr.XdrS32(rd, &x)
			ok = x == int32(v)
		case 2:
			var x uint32
			xdr.XdrU32(rd, &x)
			ok = x == uint32(v)
		case 3:
			var x int64
			xdr.XdrS64(rd, &x)
			ok = x == int64(v)
		case 4:
			var x uint64
			xdr.XdrU64(rd, &x)
			ok = x == v
		case 5:
			var s string
			xdr.XdrString(rd, 7, &s)
			ok = s == "abcdefg"[:v%8]
		case 6:
			var b []byte
			xdr.XdrVarArray(rd, 7, &b)
			ok = string(b) == "abcdefg"[:v%8]
		}
		if !ok || rd.Error() != nil {
			m.Violation("many-ops", "operation %d on one decoder: wrong value, or error %v", i, rd.Error())
			return
		}
	}
	m.Count("operations_on_one_state", int64(2*n))
	m.Eval(want, true)
}

// listNext finds, below rv but not behind pointers, a pointer to a type that
// itself holds such a pointer.
func listNext(rv reflect.Value, to reflect.Type) (reflect.Value, bool) {
	switch rv.Kind() {
	case reflect.Pointer:
		if to != nil {
			return rv, rv.Type().Elem() == to
		}
		if e := rv.Type().Elem(); e.Kind() == reflect.Struct {
			_, ok := listNext(reflect.New(e).Elem(), e)
			return rv, ok
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if p, ok := listNext(rv.Field(i), to); ok {
				return p, true
			}
		}
	}
	return reflect.Value{}, false
}

// longLists makes values that hold a list of n entries.
func longLists(m *mon.M, ns []int, f func(u units.Unit, in units.Inst, what string)) {
	for _, u := range units.Shipped() {
		r := rng(m, "longlist"+u.Name)
		if _, ok := listNext(u.Make().RV, nil); !ok {
			continue
		}
		for _, n := range ns {
			in := value(u, r, 0, false, nil)
			p, _ := listNext(in.RV, nil)
			var some []reflect.Value // entries to choose from
			for len(some) < 8 {
				x := value(u, r, 300, false, nil)
				if q, _ := listNext(x.RV, nil); !q.IsNil() {
					e := deepCopy(q.Elem())
					nx, _ := listNext(e, e.Type())
					nx.SetZero()
					some = append(some, e)
				}
			}
			for i := 0; i < n; i++ {
				p.Set(reflect.New(p.Type().Elem()))
				copyInto(p.Elem(), some[r.Intn(len(some))])
				p, _ = listNext(p.Elem(), p.Type().Elem())
			}
			p.SetZero()
			what := fmt.Sprintf("%s, list of %d", u.Name, n)
			m.Case(what)
			m.Count("long_lists", 1)
			m.Max("longest_list", int64(n))
			f(u, in, what)
		}
	}
}

func TestC01(t *testing.T) {
	run(t, "C01", "random, arm-forcing, large and pre-filled-writer values of every shipped type and primitive, encoded by the library and by the reference codec; non-trivial: encodings of at least 4 bytes, distinct by type and bytes", func(m *mon.M) {
		types := map[string]bool{}
		arms := map[string]int{}
		check := func(u units.Unit, in units.Inst, what string, r *rand.Rand) {
			want, err := u.S.Encode(u.T, in.RV)
			if err != nil {
				panic(err)
			}
			got, err := encode(in.X)
			if err != nil {
				m.Violation("enc-err", "%s: encoding failed: %v\nvalue %s", what, err, dump(in.RV))
				return
			}
			if !bytes.Equal(got, want) {
				m.Violation("enc-bytes", "%s: encoded %s\nRFC 4506 says %s\nvalue %s", what, ref.Hex(got), ref.Hex(want), dump(in.RV))
				return
			}
			// again on a writer that already holds something
			n := r.Intn(9)
			if r.Intn(4) == 0 {
				n = r.Intn(9000)
			}
			pre := make([]byte, n, n+r.Intn(64))
			if r.Intn(2) == 0 { // room that ends within the last bytes
				pre = make([]byte, n, max(n, n+len(want)-r.Intn(12)+1))
			}
			r.Read(pre)
			was := append([]byte{}, pre...)
			w := xdr.MakeWriter(pre)
			in.X.Xdr(w)
			if w.Error() != nil || !bytes.Equal(w.WriteBuf(), append(was, want...)) {
				m.Violation("enc-append", "%s: appending to %d bytes gave %s, want %s (error %v)", what, len(was), ref.Hex(w.WriteBuf()), ref.Hex(append(was, want...)), w.Error())
			}
			m.Eval(append([]byte(u.Name), want...), len(want) >= 4)
			m.Max("largest_encoding", int64(len(want)))
			types[u.Name] = true
			m.Sample(map[string]string{"type": u.Name, "value": dump(in.RV), "bytes": ref.Hex(got)})
		}
		us := units.All()
		forUnits(m, us, func(u units.Unit, r *rand.Rand) {
			used := u.Make()
			for i := 0; i < m.N(200, 4000); i++ {
				in := value(u, r, budget(r), false, arms)
				check(u, in, u.Name, r)
				if i%8 == 7 { // a variable that was encoded before, with other contents
					copyInto(used.RV, in.RV)
					check(u, used, u.Name+" in a variable encoded before", r)
					copyInto(used.RV, value(u, r, budget(r), false, arms).RV)
					check(u, used, u.Name+" in the variable just encoded", r)
				}
			}
			armVariants(u, r, func(in units.Inst, what string) {
				m.Count("forced_union_arms", 1)
				check(u, in, what, r)
			})
		})
		sized(m, func(u units.Unit, in units.Inst) { check(u, in, u.Name, rng(m, "s")) })
		longLists(m, []int{100, 1000, 5000, m.N(120000, 400000)}, func(u units.Unit, in units.Inst, what string) { check(u, in, what, rng(m, "ll")) })
		// the announced size of arrays
		for _, n := range []int{0, 1, 255, 256, 65535, 65536, 1<<20 + 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40} {
			m.Case(fmt.Sprintf("EncodingSetSize of %d", n))
			w := xdr.MakeWriter(nil)
			sz := uint32(0xdead)
			w.EncodingSetSize(&sz, n)
			if n < 1<<32 && (w.Error() != nil || sz != uint32(n)) {
				m.Violation("array-size", "EncodingSetSize of %d gave %d, error %v", n, sz, w.Error())
			} else if n >= 1<<32 && w.Error() == nil {
				m.Violation("array-size", "EncodingSetSize of %d gave %d and no error", n, sz)
			}
			m.Eval(be([]byte("EncodingSetSize"), uint32(n)), n > 0)
		}
		manyOps(m)
		// long streams on one writer, whose buffer grows at every possible place
		r := rng(m, "long")
		for i := 0; i < m.N(60, 1500); i++ {
			m.Case(fmt.Sprint("long stream ", i))
			w := xdr.MakeWriter(make([]byte, 0, int(math.Exp(r.Float64()*math.Log(1<<16)))))
			var want []byte
			sz := []int{9, 60, 400, 3000, 20000}[r.Intn(5)]
			for k := 0; k < 40+r.Intn(200); k++ {
				b := make([]byte, r.Intn(sz))
				r.Read(b)
				switch r.Intn(4) {
				case 0:
					xdr.XdrArray(w, b)
					want = append(append(want, b...), make([]byte, (4-len(b)%4)%4)...)
				case 1:
					s := string(b)
					xdr.XdrString(w, -1, &s)
					want = opaqueBytes(want, b)
				case 2:
					x := r.Uint64()
					xdr.XdrU64(w, &x)
					want = binary.BigEndian.AppendUint64(want, x)
				default:
					xdr.XdrVarArray(w, -1, &b)
					want = opaqueBytes(want, b)
				}
			}
			if w.Error() != nil || !bytes.Equal(w.WriteBuf(), want) {
				m.Violation("enc-stream", "a stream of %d bytes is encoded wrongly (error %v)", len(want), w.Error())
			}
			m.Count("long_streams", 1)
			m.Eval(want, true)
		}
		// concatenations on one writer
		r = rng(m, "concat")
		for i := 0; i < m.N(3000, 60000); i++ {
			w := xdr.MakeWriter(nil)
			var want []byte
			names := ""
			for k := 2 + r.Intn(6); k > 0; k-- {
				u := us[r.Intn(len(us))]
				in := value(u, r, 200, false, nil)
				b, _ := u.S.Encode(u.T, in.RV)
				want = append(want, b...)
				names += u.Name + " "
				in.X.Xdr(w)
			}
			m.Case(names)
			if w.Error() != nil || !bytes.Equal(w.WriteBuf(), want) {
				m.Violation("enc-concat", "%s: encoded %s, want %s (error %v)", names, ref.Hex(w.WriteBuf()), ref.Hex(want), w.Error())
			}
			m.Eval(want, true)
		}
		m.Count("types", int64(len(types)))
		m.Count("union_arms_and_presences", int64(len(arms)))
	})
}

func TestC02(t *testing.T) {
	run(t, "C02", "reference encodings of random and arm-forcing values of every type followed by a sentinel, and concatenations of several values, decoded by the library; non-trivial: at least 4 bytes, distinct by type and bytes", func(m *mon.M) {
		types := map[string]bool{}
		check := func(u units.Unit, in units.Inst, what string, r *rand.Rand) {
			b, err := u.S.Encode(u.T, in.RV)
			if err != nil {
				panic(err)
			}
			sent := make([]byte, 4*(1+r.Intn(4)))
			r.Read(sent)
			out := u.Make()
			rd := xdr.MakeReader(append(append([]byte{}, b...), sent...))
			out.X.Xdr(rd)
			if rd.Error() != nil {
				m.Violation("dec-err", "%s: decoding %s failed: %v", what, ref.Hex(b), rd.Error())
				return
			}
			if d := u.S.Diff(u.T, in.RV, out.RV); d != "" {
				m.Violation("dec-value", "%s: decoding %s: difference at %s\nwant %s\ngot  %s", what, ref.Hex(b), d, dump(in.RV), dump(out.RV))
			}
			for i := 0; i < len(sent); i += 4 {
				var w uint32
				xdr.XdrU32(rd, &w)
				if rd.Error() != nil || w != binary.BigEndian.Uint32(sent[i:]) {
					m.Violation("dec-consumed", "%s: after a value of %d bytes the next word reads %08x (error %v), want %x", what, len(b), w, rd.Error(), sent[i:i+4])
					return
				}
			}
			var w uint32
			xdr.XdrU32(rd, &w)
			if rd.Error() == nil {
				m.Violation("dec-consumed", "%s: more bytes than supplied were available", what)
			}
			out2 := u.Make()
			if err := xdr.DecodeBuf(b, out2.X); err != nil || u.S.Diff(u.T, in.RV, out2.RV) != "" {
				m.Violation("dec-buf", "%s: DecodeBuf of %s: %v %s", what, ref.Hex(b), err, u.S.Diff(u.T, in.RV, out2.RV))
			}
			m.Eval(append([]byte(u.Name), b...), len(b) >= 4)
			types[u.Name] = true
			m.Sample(map[string]string{"type": u.Name, "bytes": ref.Hex(b), "value": dump(out.RV)})
		}
		us := units.All()
		forUnits(m, us, func(u units.Unit, r *rand.Rand) {
			for i := 0; i < m.N(200, 4000); i++ {
				check(u, value(u, r, budget(r), false, nil), u.Name, r)
			}
			armVariants(u, r, func(in units.Inst, what string) {
				m.Count("forced_union_arms", 1)
				check(u, in, what, r)
			})
		})
		sized(m, func(u units.Unit, in units.Inst) { check(u, in, u.Name, rng(m, "s")) })
		longLists(m, []int{100, 1000, 5000, m.N(120000, 400000)}, func(u units.Unit, in units.Inst, what string) { check(u, in, what, rng(m, "ll")) })
		manyOps(m)
		r := rng(m, "concat")
		for i := 0; i < m.N(3000, 60000); i++ {
			var all []byte
			var us2 []units.Unit
			var ins []units.Inst
			for k := 2 + r.Intn(8); k > 0; k-- {
				u := us[r.Intn(len(us))]
				in := value(u, r, 200, false, nil)
				b, _ := u.S.Encode(u.T, in.RV)
				all = append(all, b...)
				us2, ins = append(us2, u), append(ins, in)
			}
			rd := xdr.MakeReader(all)
			for k, u := range us2 {
				m.Case(u.Name)
				out := u.Make()
				out.X.Xdr(rd)
				if rd.Error() != nil {
					m.Violation("dec-concat", "%s at position %d of a concatenation: %v", u.Name, k, rd.Error())
					break
				}
				if d := u.S.Diff(u.T, ins[k].RV, out.RV); d != "" {
					m.Violation("dec-concat", "%s at position %d of a concatenation: difference at %s", u.Name, k, d)
					break
				}
			}
			m.Eval(all, true)
		}
		m.Count("types", int64(len(types)))
	})
}

var hostileWords = []uint32{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 16, 17, 63, 64, 65, 255, 256, 257, 400, 401, 1024, 1025, 0x7fff, 0xffff, 0x10000, 0xfffff, 0x100000,
	0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff}

// mutate changes b in place or returns something derived from it.
func mutate(b []byte, r *rand.Rand) []byte {
	b = append([]byte{}, b...)
	for k := 1 + r.Intn(3); k > 0; k-- {
		switch c := r.Intn(10); {
		case c < 4 && len(b) >= 4:
			o := r.Intn(len(b)/4) * 4
			binary.BigEndian.PutUint32(b[o:], hostileWords[r.Intn(len(hostileWords))])
		case c < 5 && len(b) > 0:
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		case c < 6 && len(b) >= 4:
			o := r.Intn(len(b)/4) * 4
			binary.BigEndian.PutUint32(b[o:], uint32(len(b)-o+r.Intn(17)-12))
		case c < 7:
			b = b[:r.Intn(len(b)+1)]
		case c < 8 && len(b) >= 4: // drop a word
			o := r.Intn(len(b)/4) * 4
			b = append(b[:o], b[o+4:]...)
		case c < 9: // insert a word
			o := 0
			if len(b) >= 4 {
				o = r.Intn(len(b)/4) * 4
			}
			var w [4]byte
			binary.BigEndian.PutUint32(w[:], hostileWords[r.Intn(len(hostileWords))])
			b = append(b[:o:o], append(w[:], b[o:]...)...)
		default:
			x := make([]byte, r.Intn(40))
			r.Read(x)
			b = append(b, x...)
		}
	}
	return b
}

// judgeDecode compares one library decode of arbitrary bytes with the reference.
func judgeDecode(m *mon.M, u units.Unit, b []byte, how string) {
	want := u.Make()
	d := &ref.Dec{S: u.S, In: b}
	d.Decode(u.T, want.RV)
	got := u.Make()
	rd := xdr.MakeReader(b)
	safely(m, "panic", fmt.Sprintf("%s: decoding %x", u.Name, b), func() { got.X.Xdr(rd) })
	err := rd.Error()
	if d.Lenient == "" && len(b) < 1<<16 {
		byBuf := u.Make()
		var berr error
		safely(m, "panic", fmt.Sprintf("%s: DecodeBuf of %x", u.Name, clip(b)), func() { berr = xdr.DecodeBuf(b, byBuf.X) })
		if (berr == nil) != (err == nil) || err == nil && u.S.Diff(u.T, got.RV, byBuf.RV) != "" {
			m.Violation("dec-buf", "%s: %s: decoding %x gave %v with a reader and %v, a different value or not, with DecodeBuf", u.Name, how, clip(b), err, berr)
			return
		}
	}
	if d.Err != nil {
		m.Count("must_reject", 1)
		if err == nil {
			m.Violation("accepted", "%s: %s: decoded without error, but %v: %x\nvalue %s", u.Name, how, d.Err, clip(b), dump(got.RV))
		}
		return
	}
	if d.Lenient != "" {
		m.Count("either_way", 1)
	} else {
		m.Count("must_accept", 1)
		if err != nil {
			m.Violation("rejected", "%s: %s: valid bytes rejected: %v: %x", u.Name, how, err, clip(b))
			return
		}
		if df := u.S.Diff(u.T, want.RV, got.RV); df != "" {
			m.Violation("value", "%s: %s: difference at %s from what %x denotes\ngot %s", u.Name, how, df, clip(b), dump(got.RV))
			return
		}
		if len(d.In) > 0 {
			rest := make([]byte, len(d.In)/4*4)
			xdr.XdrArray(rd, rest)
			if rd.Error() != nil || !bytes.Equal(rest, d.In[:len(rest)]) {
				m.Violation("consumed", "%s: %s: wrong position after the value in %x", u.Name, how, clip(b))
			}
		}
	}
	if err == nil {
		e, err := encode(got.X)
		if err != nil {
			m.Violation("reencode", "%s: %s: value decoded from %x cannot be encoded: %v", u.Name, how, clip(b), err)
			return
		}
		again := u.Make()
		if err := xdr.DecodeBuf(e, again.X); err != nil {
			m.Violation("redecode", "%s: %s: re-encoding of %x does not decode: %v", u.Name, how, clip(b), err)
		} else if df := u.S.Diff(u.T, got.RV, again.RV); df != "" {
			m.Violation("redecode", "%s: %s: re-encoding of %x decodes differently at %s", u.Name, how, clip(b), df)
		}
	}
}

func clip(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

func TestC03(t *testing.T) {
	run(t, "C03", "truncations of valid encodings at every offset, word/bit/insert/delete mutations, random bytes, deep lists; the reference decoder says which must be rejected, accepted (and with which value) or may go either way; non-trivial: inputs that are not a complete valid encoding, distinct by type and bytes", func(m *mon.M) {
		us := units.All()
		forUnits(m, us, func(u units.Unit, r *rand.Rand) {
			var corpus [][]byte
			add := func(in units.Inst) {
				b, err := u.S.Encode(u.T, in.RV)
				if err != nil {
					panic(err)
				}
				corpus = append(corpus, b)
			}
			for i := 0; i < m.N(12, 80); i++ {
				add(value(u, r, []int{0, 40, 120, 400, 1500}[i%5], true, nil))
			}
			armVariants(u, r, func(in units.Inst, what string) { add(in) })
			for _, b := range corpus {
				step := 1
				if len(b) > 400 {
					step = 1 + len(b)/400
				}
				for n := 0; n < len(b); n += step {
					judgeDecode(m, u, b[:n], "truncated")
					m.Eval(append([]byte(u.Name), b[:n]...), true)
					m.Count("truncations", 1)
				}
				judgeDecode(m, u, b, "valid")
				m.Eval(append([]byte(u.Name), b...), false)
				for o := 0; o+4 <= len(b) && o < 160; o += 4 {
					for k := 0; k < 2; k++ {
						x := append([]byte{}, b...)
						binary.BigEndian.PutUint32(x[o:], hostileWords[r.Intn(len(hostileWords))])
						judgeDecode(m, u, x, "hostile word")
						m.Eval(append([]byte(u.Name), x...), true)
						m.Count("hostile_words", 1)
					}
				}
			}
			for i := 0; i < m.N(300, 8000); i++ {
				var b []byte
				if i%8 == 0 {
					b = make([]byte, r.Intn(100))
					if r.Intn(2) == 0 {
						r.Read(b)
					}
				} else {
					b = mutate(corpus[r.Intn(len(corpus))], r)
				}
				judgeDecode(m, u, b, "mutated")
				m.Eval(append([]byte(u.Name), b...), true)
				m.Count("mutations", 1)
				if i < 1 {
					m.Sample(map[string]string{"type": u.Name, "input": ref.Hex(b)})
				}
			}
		})
		// Recursive types nested deeply, and (in a process of its own) nested as
		// deeply as a message of 160 MB can nest them.
		r := rng(m, "deep")
		for _, u := range units.Shipped() {
			tm, tail, ok := listOf(u, r)
			if !ok {
				continue
			}
			m.Case("deep " + u.Name)
			for _, n := range []int{1000, 20000} {
				b := append(bytes.Repeat(tm, n), tail...)
				out := u.Make()
				if err := xdr.DecodeBuf(b, out.X); err != nil {
					m.Violation("deep", "%s: list of %d entries rejected: %v", u.Name, n, err)
				} else if e, err := encode(out.X); err != nil || !bytes.Equal(e, b) {
					m.Violation("deep", "%s: list of %d entries does not survive decoding and encoding (%v)", u.Name, n, err)
				}
				m.Eval([]byte(fmt.Sprint(u.Name, n)), true)
				m.Max("deepest_list", int64(n))
			}
		}
		m.Case("deep subprocess")
		cmd := exec.Command(os.Args[0], "-test.run", "^TestHelperDeep$")
		cmd.Env = append(os.Environ(), "VERIF_HELPER=deep")
		out, err := cmd.CombinedOutput()
		m.Eval([]byte("deep"), true)
		if err != nil || !strings.Contains(string(out), "survived") {
			if strings.Contains(string(out), "stack overflow") || strings.Contains(string(out), "stack exceeds") {
				m.Violation("deep-list-stack", "a list of 20 million entries (160 MB) decoded as rfc1813.Groups3 overflows the stack")
			} else {
				m.Violation("deep-crash", "decoding a deep list ended with %v\n%.2000s", err, out)
			}
		}
	})
}

// listOf finds, for a directly recursive optional type, the bytes of one list
// entry before its link.
func listOf(u units.Unit, r *rand.Rand) (entry, tail []byte, ok bool) {
	t := u.S.Deref(u.T)
	name := u.T.Ref
	if t.K != ref.KPtr {
		return
	}
	e := u.S.Deref(t.Elem)
	if e.K != ref.KStruct || len(e.Fields) == 0 || e.Fields[len(e.Fields)-1].T.Ref != name {
		return
	}
	entry = []byte{0, 0, 0, 1}
	for _, f := range e.Fields[:len(e.Fields)-1] {
		// all-zero bytes of the least size are a value of every field type here
		entry = append(entry, make([]byte, u.S.MinWire(f.T))...)
	}
	return entry, []byte{0, 0, 0, 0}, true
}

func TestHelperDeep(t *testing.T) {
	if os.Getenv("VERIF_HELPER") != "deep" {
		t.Skip()
	}
	u := units.ByName("rfc1813", "groups3")
	b := bytes.Repeat([]byte{0, 0, 0, 1, 0, 0, 0, 0}, 20<<20)
	b = append(b, 0, 0, 0, 0)
	err := xdr.DecodeBuf(b, u.Make().X)
	fmt.Println("survived", err)
	os.Exit(0)
}

// growth is the factor by which decoding may multiply its input: Go's in-memory
// size of any array element or optional part relative to its least wire size,
// with room for amortised growth.
func growth(u units.Unit, rt reflect.Type) int64 {
	k := int64(64)
	seen := map[string]bool{}
	var walk func(t *ref.Type, rt reflect.Type)
	walk = func(t *ref.Type, rt reflect.Type) {
		for t.K == ref.KRef {
			key := t.Ref
			if seen[key] {
				return
			}
			seen[key] = true
			t = u.S.Types[t.Ref]
			if t.K == ref.KPtr {
				f, _ := rt.FieldByName("P")
				rt = f.Type
			}
		}
		field := func(f ref.Field) {
			if f.T.K != ref.KVoid {
				sf, _ := rt.FieldByName(ref.GoName(f.Name))
				walk(f.T, sf.Type)
			}
		}
		switch t.K {
		case ref.KVarArray, ref.KPtr:
			w := int64(u.S.MinWire(t.Elem))
			if t.K == ref.KPtr || w < 4 {
				w = 4
			}
			if f := 8 * (int64(rt.Elem().Size()) + 16) / w; f > k {
				k = f
			}
			walk(t.Elem, rt.Elem())
		case ref.KArray:
			walk(t.Elem, rt.Elem())
		case ref.KStruct:
			for _, f := range t.Fields {
				field(f)
			}
		case ref.KUnion:
			for _, a := range t.Arms {
				field(a.F)
			}
			if t.Def != nil {
				field(*t.Def)
			}
		}
	}
	walk(u.T, rt)
	return k
}

// allocated is how many bytes f allocates. Nothing else may be running.
func allocated(f func()) int64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int64(b.TotalAlloc - a.TotalAlloc)
}

func probeAlloc(m *mon.M, u units.Unit, b []byte, k int64, what string) {
	out := u.Make()
	a := allocated(func() {
		safely(m, "panic", what, func() { xdr.DecodeBuf(b, out.X) })
	})
	if lim := 64<<10 + k*int64(len(b)); a > lim {
		m.Violation("alloc:"+u.Name, "%s: decoding %d bytes allocated %d bytes (limit %d): %x", what, len(b), a, lim, clip(b))
	}
	m.Max("largest_allocation", a)
	m.Eval(append([]byte(u.Name), b...), true)
}

func codecAlloc(m *mon.M, us []units.Unit) {
	forUnits(m, us, func(u units.Unit, r *rand.Rand) {
		k := growth(u, u.Make().RV.Type())
		m.Max("largest_factor", k)
		var corpus [][]byte
		for i := 0; i < m.N(4, 24); i++ {
			in := value(u, r, []int{0, 60, 300, 2000}[i%4], true, nil)
			b, _ := u.S.Encode(u.T, in.RV)
			corpus = append(corpus, b)
		}
		// values that contain each variable-length part, so its length word is there
		isVar := func(t *ref.Type) bool { return t.K == ref.KVarArray || t.K == ref.KVarOpaque || t.K == ref.KString }
		for _, s := range u.S.Sites(u.T, 2, isVar) {
			in := u.Make()
			g := &ref.Gen{S: u.S, R: r, Budget: 60, Path: s.Path, At: func(t *ref.Type, rv reflect.Value) bool { return false }}
			g.Fill(u.T, in.RV)
			b, _ := u.S.Encode(u.T, in.RV)
			corpus = append(corpus, b)
		}
		for _, b := range corpus {
			probeAlloc(m, u, b, k, u.Name+" valid")
			for o := 0; o+4 <= len(b) && o < 400; o += 4 {
				for _, w := range []uint32{1 << 24, 0x7fffffff, 0xffffffff} {
					if m.Violations() > 10 {
						return
					}
					x := append([]byte{}, b...)
					binary.BigEndian.PutUint32(x[o:], w)
					probeAlloc(m, u, x, k, fmt.Sprintf("%s word %d announcing %d", u.Name, o/4, w))
					probeAlloc(m, u, x[:o+4], k, fmt.Sprintf("%s word %d announcing %d, cut there", u.Name, o/4, w))
					m.Count("hostile_lengths", 2)
				}
			}
		}
	})
	// large but honest and nearly honest messages
	r := rng(m, "big")
	for _, u := range us {
		k := growth(u, u.Make().RV.Type())
		for i := 0; i < m.N(1, 4); i++ {
			in := value(u, r, 200000, true, nil)
			b, _ := u.S.Encode(u.T, in.RV)
			probeAlloc(m, u, b, k, u.Name+" large")
			probeAlloc(m, u, b[:len(b)/2], k, u.Name+" large, cut")
		}
	}
}

func TestC05(t *testing.T) {
	run(t, "C05", "every bounded string/opaque/array reachable in every type (and the primitives with many limits) at lengths 0, 1, max-1, max, max+1.. and far beyond, encoded by the library and decoded from bytes written without limits; unbounded ones at large lengths; non-trivial: lengths at or beyond a limit", func(m *mon.M) {
		for i := 0; i < m.N(6, 60); i++ { // the rest of each value differs
			forUnits(m, units.All(), func(u units.Unit, r *rand.Rand) {
				r.Seed(r.Int63() + int64(i))
				limitCases(m, u, r, 2, 1<<40)
			})
		}
		sized(m, func(u units.Unit, in units.Inst) {
			b, err := encode(in.X)
			out := u.Make()
			if err != nil || xdr.DecodeBuf(b, out.X) != nil || u.S.Diff(u.T, in.RV, out.RV) != "" {
				m.Violation("unlimited", "%s: %d bytes do not pass (%v)", u.Name, in.RV.Len(), err)
			}
			m.Eval([]byte(fmt.Sprint(u.Name, in.RV.Len())), false)
		})
	})
}

// smallElem says whether the elements of an array are simple values.
func smallElem(s *ref.Spec, t *ref.Type) bool {
	if t.K != ref.KVarArray {
		return false
	}
	switch e := s.Deref(t.Elem); e.K {
	case ref.KInt, ref.KUint, ref.KHyper, ref.KUhyper, ref.KBool, ref.KEnum:
		return true
	case ref.KOpaque:
		return e.N < 20
	}
	return false
}

// limitCases sets every variable-length part of u to lengths around its limit.
func limitCases(m *mon.M, u units.Unit, r *rand.Rand, rec int, budget int) {
	isVar := func(t *ref.Type) bool { return t.K == ref.KVarArray || t.K == ref.KVarOpaque || t.K == ref.KString }
	sites := u.S.Sites(u.T, rec, isVar)
	roomy := make([]byte, 2<<20+1<<18) // what writers hold before, with room for more
	if len(sites) > 1200 {
		sites = sites[:1200]
	}
	if len(sites) > 30 { // the nearest first, as far as the budget of bytes goes
		far := sites[30:]
		r.Shuffle(len(far), func(i, j int) { far[i], far[j] = far[j], far[i] })
	}
	for _, s := range sites {
		if budget < 0 {
			m.Count("types_with_sites_left_out", 1)
			return
		}
		var lens []uint64
		if s.T.Unb {
			lens = []uint64{0, 1, 5, 70, 1030, 4100}
			if s.T.K != ref.KVarArray {
				lens = append(lens, 66000)
				if len(s.Path) == 0 {
					lens = append(lens, 1<<20+1, 1<<24+1)
				}
			}
			if smallElem(u.S, s.T) && len(s.Path) < 2 {
				lens = append(lens, 32768, 65535, 65536, 65537, 70001)
			}
		} else if s.T.K == ref.KVarArray && s.T.N > 5000 && s.T.N <= 1<<17 && smallElem(u.S, s.T) {
			lens = []uint64{0, 1, 5, 70, 1030, s.T.N - 1, s.T.N, s.T.N + 1}
		} else if s.T.N > 1<<22 || s.T.K == ref.KVarArray && s.T.N > 5000 {
			lens = []uint64{0, 1, 5, 70, 1030}
			if s.T.N > 70001 && smallElem(u.S, s.T) && len(s.Path) < 2 {
				lens = append(lens, 65535, 65536, 65537, 70001)
			}
		} else {
			x := s.T.N
			lens = []uint64{0, 1, x / 2, x, x + 1, x + 2, x + 3, x + 4, x + 5, 2*x + 1, x + 1000}
			if x > 0 {
				lens = append(lens, x-1)
			}
			if x < 1<<16 {
				lens = append(lens, x+1<<16)
			}
			m.Count("bounded_sites", 1)
		}
		for _, n := range lens {
			if !s.T.Unb && s.T.K == ref.KVarArray && n > s.T.N+2000 {
				continue
			}
			over := !s.T.Unb && n > s.T.N
			in := u.Make()
			g := &ref.Gen{S: u.S, R: r, Budget: 100, Path: s.Path}
			g.At = func(t *ref.Type, rv reflect.Value) bool {
				g.FillLen(t, rv, int(n))
				return true
			}
			g.Fill(u.T, in.RV)
			what := fmt.Sprintf("%s%s length %d (limit %v)", u.Name, s.Name, n, limit(s.T))
			m.Case(what)
			b, err := encode(in.X)
			if over != (err != nil) {
				m.Violation("enc-limit", "%s: encoding: %v", what, sameErr(err))
			}
			wire := u.S.EncodeNoLimits(u.T, in.RV)
			budget -= len(wire)
			if !over && err == nil && !bytes.Equal(b, wire) {
				m.Violation("enc-limit", "%s: wrong bytes", what)
			}
			// also on a state shared with other values: the error is there at the end
			before := []int{0, 4, 300, 40000, 65536, 70000, 1<<20 + 4, 1<<21 + 8}[r.Intn(8)]
			w := xdr.MakeWriter(roomy[:before])
			x := xdr.Uint32(7)
			x.Xdr(w)
			in.X.Xdr(w)
			x.Xdr(w)
			if over != (w.Error() != nil) {
				m.Violation("enc-limit", "%s: encoding between other values, after %d bytes: %v", what, before, sameErr(w.Error()))
			}
			out := u.Make()
			err = xdr.DecodeBuf(wire, out.X)
			if over != (err != nil) {
				m.Violation("dec-limit", "%s: decoding: %v", what, sameErr(err))
			} else if !over {
				if d := u.S.Diff(u.T, in.RV, out.RV); d != "" {
					m.Violation("dec-limit", "%s: decoded value differs at %s", what, d)
				}
			}
			// and before other values
			rd := xdr.MakeReader(append(wire, roomy[:r.Intn(3)*(4+r.Intn(3000))]...))
			out2 := u.Make()
			if out2.X.Xdr(rd); over != (rd.Error() != nil) {
				m.Violation("dec-limit", "%s: decoding before other values: %v", what, sameErr(rd.Error()))
			}
			m.Eval([]byte(what), over || !s.T.Unb && n == s.T.N)
			m.Count("length_cases", 1)
			if over && r.Intn(40) == 0 {
				m.Sample(map[string]any{"case": what, "encode": fmt.Sprint(sameErr(err))})
			}
		}
	}
}

func limit(t *ref.Type) any {
	if t.Unb {
		return "none"
	}
	return t.N
}

func TestC06(t *testing.T) {
	run(t, "C06", "random sequences of primitive and message operations on one encoder or decoder state with errors from truncation, limits or SetError, checking after each operation that a state in error changes nothing; non-trivial: sequences in which an error occurred with operations after it, distinct by operation sequence", func(m *mon.M) {
		r := rng(m, "seq")
		us := units.All()
		over := overLimit(m, us)
		for i := 0; i < m.N(80000, 1500000); i++ {
			reader := r.Intn(2) == 0
			m.Case(fmt.Sprint("sequence ", i))
			var ops []string
			var xs *xdr.XdrState
			nops := 2 + r.Intn(10)
			type step struct {
				u  units.Unit
				in units.Inst
			}
			var steps []step
			var wire []byte
			for k := 0; k < nops; k++ {
				u := us[r.Intn(len(us))]
				steps = append(steps, step{u, value(u, r, 120, false, nil)})
			}
			failAt := r.Intn(nops)
			if reader {
				for _, s := range steps {
					b, _ := s.u.S.Encode(s.u.T, s.in.RV)
					wire = append(wire, b...)
				}
				if r.Intn(3) > 0 && len(wire) > 0 {
					wire = wire[:r.Intn(len(wire))]
				} else if len(wire) > 0 {
					wire = mutate(wire, r)
				}
				xs = xdr.MakeReader(append([]byte{}, wire...))
			} else {
				xs = xdr.MakeWriter(nil)
				if len(over) > 0 && r.Intn(2) == 0 {
					o := over[r.Intn(len(over))]
					steps[failAt] = step{o.u, o.mk(r)}
				}
			}
			setAt := -1
			if r.Intn(3) == 0 {
				setAt = failAt
			}
			failed, after := false, 0
			var buf []byte
			for k, s := range steps {
				if k == setAt {
					msg := []string{"set by the test", "", "x", "EOF", "nil"}[r.Intn(5)]
					before := append([]byte{}, xs.WriteBuf()...)
					xs.SetError(msg)
					if !reader && !bytes.Equal(before, xs.WriteBuf()) {
						m.Violation("written", "%v: SetError changed the %d bytes written before it (now %d)", ops, len(before), len(xs.WriteBuf()))
					}
					ops = append(ops, fmt.Sprintf("SetError(%q)", msg))
					if xs.Error() == nil {
						m.Violation("set", "SetError did not put the state into error")
					}
				}
				inErr := xs.Error() != nil
				if inErr {
					failed = true
					after++
					if r.Intn(5) == 0 {
						msg := []string{"again", "", "not an error"}[r.Intn(3)]
						xs.SetError(msg)
						ops = append(ops, fmt.Sprintf("SetError(%q)", msg))
						if xs.Error() == nil {
							m.Violation("unstuck", "%v: error went away", ops)
						}
					}
				}
				buf = append(buf[:0], xs.WriteBuf()...)
				target := s.in
				if reader && r.Intn(2) == 0 {
					target = value(s.u, r, 60, false, nil)
				}
				keep := deepCopy(target.RV)
				ops = append(ops, s.u.Name)
				if r.Intn(6) == 0 {
					sz := uint32(77)
					xs.EncodingSetSize(&sz, 5)
					if want := map[bool]uint32{true: 77, false: 5}[inErr || reader]; sz != want {
						m.Violation("setsize", "EncodingSetSize gave %d on a state with reader=%v error=%v", sz, reader, inErr)
					}
				}
				safely(m, "panic", fmt.Sprint(ops), func() { target.X.Xdr(xs) })
				if !reader && !bytes.HasPrefix(xs.WriteBuf(), buf) {
					m.Violation("written", "%v: the last operation (error %v) changed the %d bytes written before it (now %d)", ops, xs.Error(), len(buf), len(xs.WriteBuf()))
				}
				if !inErr {
					if reader && xs.Error() == nil && (!xs.Decoding() || xs.Encoding()) || !reader && xs.Error() == nil && (!xs.Encoding() || xs.Decoding()) {
						m.Violation("mode", "state without error reports Encoding=%v Decoding=%v (reader %v)", xs.Encoding(), xs.Decoding(), reader)
					}
					continue
				}
				if xs.Error() == nil {
					m.Violation("unstuck", "%v: error went away", ops)
				}
				if xs.Encoding() || xs.Decoding() {
					m.Violation("mode", "%v: state in error reports Encoding=%v Decoding=%v", ops, xs.Encoding(), xs.Decoding())
				}
				if !reader && !bytes.Equal(buf, xs.WriteBuf()) {
					m.Violation("wrote", "%v: %s added %d bytes to a state in error", ops, s.u.Name, len(xs.WriteBuf())-len(buf))
				}
				if !reflect.DeepEqual(keep.Interface(), target.RV.Interface()) {
					m.Violation("target", "%v: %s changed its target on a state in error\nbefore %s\nafter  %s", ops, s.u.Name, dump(keep), dump(target.RV))
				}
			}
			if failed {
				m.Count("operations_after_error", int64(after))
			}
			m.Eval([]byte(fmt.Sprint(reader, ops, setAt)), failed)
			if failed {
				m.Sample(map[string]any{"reader": reader, "operations": ops, "after_error": after})
			}
		}
	})
}

type overUnit struct {
	u  units.Unit
	mk func(r *rand.Rand) units.Inst
}

// overLimit lists units with a bounded part, and how to exceed it.
func overLimit(m *mon.M, us []units.Unit) []overUnit {
	var out []overUnit
	for _, u := range us {
		for _, s := range u.S.Sites(u.T, 1, ref.Bounded) {
			if s.T.N > 5000 {
				continue
			}
			u, s := u, s
			out = append(out, overUnit{u, func(r *rand.Rand) units.Inst {
				in := u.Make()
				g := &ref.Gen{S: u.S, R: r, Budget: 60, Path: s.Path}
				g.At = func(t *ref.Type, rv reflect.Value) bool {
					g.FillLen(t, rv, int(t.N)+1+r.Intn(5))
					return true
				}
				g.Fill(u.T, in.RV)
				return in
			}})
		}
	}
	return out
}

func TestC08(t *testing.T) {
	run(t, "C08", "chains of decodes of unrelated random messages into one variable compared with decoding into a zero variable; non-trivial: the variable held a different value before, distinct by type and both messages", func(m *mon.M) {
		forUnits(m, units.All(), func(u units.Unit, r *rand.Rand) {
			reuseCases(m, u, r, m.N(500, 5000))
		})
	})
}

// reuseCases decodes unrelated messages into one variable.
func reuseCases(m *mon.M, u units.Unit, r *rand.Rand, n int) {
	cur := u.Make()
	var msgs [][]byte
	for i := 0; i < n; i++ {
		in := value(u, r, []int{0, 30, 100, 400, 3000, 20000}[r.Intn(6)], true, nil)
		b, _ := u.S.Encode(u.T, in.RV)
		msgs = append(msgs, b)
	}
	armVariants(u, r, func(in units.Inst, what string) {
		b, _ := u.S.Encode(u.T, in.RV)
		msgs = append(msgs, b)
	})
	r.Shuffle(len(msgs), func(i, j int) { msgs[i], msgs[j] = msgs[j], msgs[i] })
	var prev, was, shared []byte
	for i, b := range msgs {
		if len(was) > 0 && r.Intn(3) == 0 {
			// almost the message before: a few bits or bytes differ
			b = append([]byte{}, was...)
			for k := 1 + r.Intn(3); k > 0; k-- {
				o := r.Intn(len(b))
				if r.Intn(2) == 0 && len(b) > 12 {
					o = len(b) - 1 - r.Intn(12)
				}
				b[o] ^= byte(1 << r.Intn(8))
			}
			if xdr.DecodeBuf(append([]byte{}, b...), u.Make().X) == nil {
				m.Count("similar_messages", 1)
			}
		}
		was = b
		switch r.Intn(6) {
		case 0:
			cur = value(u, r, 500, true, nil) // dirty with a value that was never decoded
			prev = []byte(dump(cur.RV))
		case 1: // dirty with a partial decode
			cut := mutate(b, r)
			xdr.DecodeBuf(append([]byte{}, cut...), cur.X)
		}
		fresh := u.Make()
		e1 := xdr.DecodeBuf(append([]byte{}, b...), fresh.X)
		in := append([]byte{}, b...)
		switch r.Intn(4) {
		case 0: // the memory earlier messages were in
			if len(b) > len(shared) {
				shared = make([]byte, len(b)*2)
			}
			in = shared[:copy(shared, b)]
		case 1: // this very message before, and the variable changed since
			xdr.DecodeBuf(in, cur.X)
			copyInto(cur.RV, value(u, r, 200, true, nil).RV)
			prev = []byte(dump(cur.RV))
		}
		e2 := xdr.DecodeBuf(in, cur.X)
		if (e1 == nil) != (e2 == nil) {
			m.Violation("outcome", "%s: decoding %x into a fresh value: %v; into a used one: %v", u.Name, clip(b), e1, e2)
			continue
		}
		if e1 != nil {
			continue
		}
		if d := u.S.Diff(u.T, fresh.RV, cur.RV); d != "" {
			m.Violation("stale", "%s: decoding %x into a used value differs from a fresh one at %s (fresh != used)\nearlier contents: %x", u.Name, clip(b), d, clip(prev))
		}
		m.Eval(append(append([]byte(u.Name), b...), prev...), i > 0)
		if i == 1 {
			m.Sample(map[string]string{"type": u.Name, "before": ref.Hex(prev), "message": ref.Hex(b)})
		}
		prev = b
	}
}
