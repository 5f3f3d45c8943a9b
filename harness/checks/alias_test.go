package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"verifharness/mon"
	"verifharness/ref"
	"verifharness/units"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// fieldState is the content of every byte field and string of a value.
func fieldState(u units.Unit, rv reflect.Value) []string {
	var out []string
	u.S.Leaves(u.T, rv, func(t *ref.Type, v reflect.Value) {
		switch t.K {
		case ref.KVarOpaque:
			out = append(out, "b"+string(v.Bytes()))
		case ref.KString:
			out = append(out, "s"+v.String())
		case ref.KOpaque:
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			out = append(out, "f"+string(b))
		default:
			out = append(out, fmt.Sprint(v.Interface()))
		}
	})
	return out
}

// disturb overwrites and appends to each byte field of a decoded value in turn
// and reports any other leaf that changes. rest is the undecoded remainder.
func disturb(m *mon.M, u units.Unit, rv reflect.Value, rest []byte, ops *int64) {
	var fields []reflect.Value
	var index []int
	n := 0
	u.S.Leaves(u.T, rv, func(t *ref.Type, v reflect.Value) {
		if t.K == ref.KVarOpaque {
			fields = append(fields, v)
			index = append(index, n)
		}
		n++
	})
	if len(fields) == 0 {
		return
	}
	if len(fields) > 40 {
		fields, index = fields[:40], index[:40]
	}
	restWas := append([]byte{}, rest...)
	before := fieldState(u, rv)
	for k, f := range fields {
		b := f.Bytes()
		for pass := 0; pass < 2; pass++ {
			*ops++
			if pass == 0 {
				// an append, as a caller would do it
				_ = append(b, bytes.Repeat([]byte{0x5a}, 1+cap(b)-len(b)/2)...)
				if c := cap(b); c > len(b) {
					_ = append(b, bytes.Repeat([]byte{0x5a}, c-len(b))...)
				}
			} else {
				for i := range b {
					b[i] ^= 0xa5
				}
			}
			after := fieldState(u, rv)
			for j := range after {
				if after[j] != before[j] && !(j == index[k] && pass == 1) {
					m.Violation("overlap", "%s: %s byte field %d (length %d, capacity %d) changed leaf %d from %s to %s", u.Name,
						[]string{"appending to", "writing to"}[pass], index[k], len(b), cap(b), j, ref.Hex([]byte(before[j])), ref.Hex([]byte(after[j])))
					return
				}
			}
			before = after
			if !bytes.Equal(rest, restWas) {
				m.Violation("overlap-rest", "%s: %s byte field %d changed bytes not yet decoded", u.Name, []string{"appending to", "writing to"}[pass], index[k])
				return
			}
		}
	}
}

// opq is a bare opaque<> as argument or result.
type opq struct{ B []byte }

func (o *opq) Xdr(xs *xdr.XdrState) { xdr.XdrVarArray(xs, -1, &o.B) }

func TestC07(t *testing.T) {
	run(t, "C07", "decode: input compared before/after, every byte field appended to and overwritten while all other leaves and the undecoded remainder are watched; encode: value and output compared before/after, each overwritten while the other is watched, earlier outputs watched during later encodings; client results watched during later calls; non-trivial: values with at least one byte field or string, distinct by type and bytes", func(m *mon.M) {
		type kept struct {
			u    units.Unit
			b, w []byte
		}
		var keep []kept
		var ops int64
		forUnits(m, units.All(), func(u units.Unit, r0 *mRand) {
			r := r0
			one := func(in units.Inst, i int) {
				was := deepCopy(in.RV)
				enc, err := encode(in.X)
				if err != nil {
					return
				}
				if !reflect.DeepEqual(was.Interface(), in.RV.Interface()) {
					m.Violation("enc-modifies", "%s: encoding changed the value\nbefore %s\nafter  %s", u.Name, dump(was), dump(in.RV))
				}
				keep = append(keep, kept{u, enc, append([]byte{}, enc...)})
				if len(keep) > 200 {
					for _, k := range keep {
						if !bytes.Equal(k.b, k.w) {
							m.Violation("enc-reused", "%s: bytes returned by an encoding changed during later encodings", k.u.Name)
						}
					}
					keep = keep[len(keep)-3:]
				}
				// output and value share nothing
				e2, _ := encode(in.X)
				for j := range e2[:cap(e2)] {
					e2[:cap(e2)][j] ^= 0xff
				}
				if !reflect.DeepEqual(was.Interface(), in.RV.Interface()) {
					m.Violation("enc-shares", "%s: writing to the encoding changed the value", u.Name)
				}
				e3, _ := encode(in.X)
				e3was := append([]byte{}, e3...)
				u.S.Slices(u.T, in.RV, func(b reflect.Value) {
					for j := 0; j < b.Len(); j++ {
						b.Index(j).SetUint(b.Index(j).Uint() ^ 0x3c)
					}
				})
				if !bytes.Equal(e3, e3was) {
					m.Violation("enc-shares", "%s: writing to the value changed its encoding", u.Name)
				}
				// appending to one encoding changes no other
				e4, _ := encode(in.X)
				e5, _ := encode(in.X)
				e5was := append([]byte{}, e5...)
				e4 = append(e4, bytes.Repeat([]byte{0xee}, 1+r.Intn(90))...)
				if !bytes.Equal(e5, e5was) {
					m.Violation("enc-reused", "%s: appending to the bytes returned by an encoding changed those returned by a later one", u.Name)
				}
				// decoding, with something behind the value
				wire := enc
				tail := make([]byte, 32)
				r.Read(tail)
				buf := append(append([]byte{}, wire...), tail...)
				bufWas := append([]byte{}, buf...)
				out := u.Make()
				rd := xdr.MakeReader(buf)
				out.X.Xdr(rd)
				if rd.Error() != nil {
					return
				}
				if !bytes.Equal(buf, bufWas) {
					m.Violation("dec-modifies", "%s: decoding changed its input", u.Name)
				}
				// a decode that fails part-way must not change its input either
				if i%4 == 0 && len(wire) > 0 {
					x := mutate(wire, r)
					xw := append([]byte{}, x...)
					xdr.DecodeBuf(x, u.Make().X)
					if !bytes.Equal(x, xw) {
						m.Violation("dec-modifies", "%s: decoding mutated bytes changed its input", u.Name)
					}
				}
				// decoding again into the same variable leaves the input it was
				// filled from before alone
				if i%2 == 0 {
					o2 := u.Make()
					b1 := append([]byte{}, wire...)
					xdr.DecodeBuf(b1, o2.X)
					for j := 0; j < 3; j++ {
						b2 := append([]byte{}, wire...)
						if j > 0 {
							in2 := value(u, r, []int{20, 60, 300}[r.Intn(3)], true, nil)
							if b2, err = encode(in2.X); err != nil {
								continue
							}
						}
						for k := range wire {
							b1[k] = wire[k] ^ 0x77
						}
						was := append([]byte{}, b1...)
						xdr.DecodeBuf(b2, o2.X)
						if !bytes.Equal(b1, was) {
							m.Violation("dec-earlier", "%s: decoding %s into a used variable changed the input decoded into it before", u.Name, ref.Hex(b2))
							break
						}
						b1, wire = b2, append([]byte{}, b2...)
						m.Count("redecodes", 1)
					}
					wire = enc
				}
				disturb(m, u, out.RV, buf[len(wire):], &ops)
				m.Eval(append([]byte(u.Name), wire...), hasBytes(u, out.RV))
				if i == 1 && hasBytes(u, out.RV) {
					m.Sample(map[string]string{"type": u.Name, "bytes": ref.Hex(wire)})
				}
			}
			n := m.N(200, 1200)
			for i := 0; i < n; i++ {
				one(value(u, r, []int{0, 60, 300, 1500}[r.Intn(4)], true, nil), i)
			}
			// long contents in every field
			sites := u.S.Sites(u.T, 1, func(t *ref.Type) bool {
				return (t.K == ref.KVarOpaque || t.K == ref.KString) && (t.Unb || t.N > 1500)
			})
			for k, s := range sites {
				if k > 60 {
					break
				}
				for i, n := range []int{1025, 4096 + r.Intn(60), 5000 + r.Intn(90000), 65536 * (1 + r.Intn(m.N(3, 40)))} {
					if !s.T.Unb && uint64(n) > s.T.N {
						n = int(s.T.N)
					}
					in := u.Make()
					g := &ref.Gen{S: u.S, R: r, Budget: 100, Path: s.Path}
					g.At = func(t *ref.Type, rv reflect.Value) bool {
						g.FillLen(t, rv, n)
						return true
					}
					g.Fill(u.T, in.RV)
					one(in, i)
					m.Count("long_fields", 1)
				}
			}
		})
		m.Count("field_disturbances", ops)
		clientAlias(m)
	})
}

func hasBytes(u units.Unit, rv reflect.Value) bool {
	yes := false
	u.S.Leaves(u.T, rv, func(t *ref.Type, v reflect.Value) { yes = yes || t.K == ref.KVarOpaque || t.K == ref.KString })
	return yes
}

// clientAlias keeps the results of client calls and watches them, and the
// arguments, during later calls.
func clientAlias(m *mon.M) {
	r := rng(m, "client")
	us := units.Shipped()
	for round := 0; round < m.N(60, 800); round++ {
		m.Case(fmt.Sprint("client round ", round))
		peer := &replier{r: r}
		c := rfc1057.MakeClient(peer, 7, 7)
		type kept struct {
			u      units.Unit
			rv     reflect.Value
			was    reflect.Value
			o      *opq
			oWas   []byte
			arg    []byte
			argWas []byte
		}
		var keep []kept
		for k := 0; k < 12; k++ {
			size := []int{0, 3, 64, 500, 5000, 70000}[r.Intn(6)]
			arg := &opq{make([]byte, r.Intn(300))}
			r.Read(arg.B)
			kk := kept{arg: arg.B, argWas: append([]byte{}, arg.B...)}
			var resp xdr.Xdrable
			if r.Intn(2) == 0 {
				kk.o = &opq{}
				resp = kk.o
				b := make([]byte, size)
				r.Read(b)
				e, _ := xdr.EncodeBuf(&opq{b})
				peer.next = e
				kk.oWas = b
			} else {
				u := us[r.Intn(len(us))]
				in := value(u, r, size, false, nil)
				peer.next, _ = u.S.Encode(u.T, in.RV)
				out := u.Make()
				resp, kk.u, kk.rv = out.X, u, out.RV
			}
			if err := c.Call(uint32(k), rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, arg, resp); err != nil {
				m.Violation("call", "call failed: %v", err)
				return
			}
			if kk.o == nil {
				kk.was = deepCopy(kk.rv)
			}
			keep = append(keep, kk)
			for j, q := range keep {
				if q.o != nil && !bytes.Equal(q.o.B, q.oWas) || q.o == nil && !reflect.DeepEqual(q.rv.Interface(), q.was.Interface()) {
					m.Violation("result-changed", "the result of call %d changed during call %d", j, k)
					return
				}
				if !bytes.Equal(q.arg, q.argWas) {
					m.Violation("arg-changed", "the arguments of call %d were changed", j)
					return
				}
			}
			// and the results may be changed and grown without harm to others
			if kk.o != nil {
				b := kk.o.B
				_ = append(b, bytes.Repeat([]byte{1}, 1+cap(b)-len(b))...)
				if cap(b) > len(b) {
					_ = append(b, bytes.Repeat([]byte{1}, cap(b)-len(b))...)
				}
			}
			m.Count("client_calls_watched", 1)
			m.Eval([]byte(fmt.Sprint("client", round, k)), true)
		}
	}
}
