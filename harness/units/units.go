// Package units lists everything that can be encoded and decoded: the shipped
// message types with their pinned specifications, and the library primitives.
package units

import (
	"embed"
	"fmt"
	"reflect"
	"sort"

	"verifharness/ref"

	"github.com/zeldovich/go-rpcgen/xdr"
)

//go:embed specs/*.x
var specFS embed.FS

// Inst is one variable of a unit's type.
type Inst struct {
	X  xdr.Xdrable
	RV reflect.Value
}

type Unit struct {
	Name string
	S    *ref.Spec
	T    *ref.Type
	Make func() Inst
}

func SpecText(pkg string) string {
	b, err := specFS.ReadFile("specs/" + pkg + ".x")
	if err != nil {
		panic(err)
	}
	return string(b)
}

func Spec(pkg string) *ref.Spec {
	s, err := ref.Parse(SpecText(pkg))
	if err != nil {
		panic(err)
	}
	return s
}

// Named makes a unit of a named type of a specification held in rt.
func Named(prefix string, s *ref.Spec, name string, rt reflect.Type) Unit {
	return Unit{prefix + "." + name, s, &ref.Type{K: ref.KRef, Ref: name}, func() Inst {
		p := reflect.New(rt)
		return Inst{p.Interface().(xdr.Xdrable), p.Elem()}
	}}
}

// Shipped returns the units of the shipped packages in a fixed order.
func Shipped() []Unit {
	var out []Unit
	for _, pkg := range []string{"rfc1057", "rfc1813"} {
		s := Spec(pkg)
		var names []string
		for n := range registry[pkg] {
			names = append(names, n)
		}
		sort.Strings(names)
		if len(names) != len(s.Types) {
			panic("registry out of date")
		}
		for _, n := range names {
			out = append(out, Named(pkg, s, n, registry[pkg][n]))
		}
	}
	return out
}

// ByName finds a shipped unit.
func ByName(pkg, name string) Unit {
	return Named(pkg, Spec(pkg), name, registry[pkg][name])
}

// adapters for the primitives

type fBool struct{ V bool }
type fS32 struct{ V int32 }
type fU32 struct{ V uint32 }
type fS64 struct{ V int64 }
type fU64 struct{ V uint64 }
type fVar struct {
	V   []byte
	max int
}
type fStr struct {
	V   string
	max int
}
type fArr0 struct{ V [0]byte }
type fArr1 struct{ V [1]byte }
type fArr3 struct{ V [3]byte }
type fArr4 struct{ V [4]byte }
type fArr6 struct{ V [6]byte }
type fArr33 struct{ V [33]byte }
type fArr4095 struct{ V [4095]byte }
type fArr4100 struct{ V [4100]byte }
type fArr9k struct{ V [9002]byte }
type fArr64 struct{ V [64]byte }
type fArr100 struct{ V [100]byte }
type fArr1024 struct{ V [1024]byte }

func (p *fArr64) Xdr(xs *xdr.XdrState)   { xdr.XdrArray(xs, p.V[:]) }
func (p *fArr100) Xdr(xs *xdr.XdrState)  { xdr.XdrArray(xs, p.V[:]) }
func (p *fArr1024) Xdr(xs *xdr.XdrState) { xdr.XdrArray(xs, p.V[:]) }

func (p *fBool) Xdr(xs *xdr.XdrState)    { xdr.XdrBool(xs, &p.V) }
func (p *fS32) Xdr(xs *xdr.XdrState)     { xdr.XdrS32(xs, &p.V) }
func (p *fU32) Xdr(xs *xdr.XdrState)     { xdr.XdrU32(xs, &p.V) }
func (p *fS64) Xdr(xs *xdr.XdrState)     { xdr.XdrS64(xs, &p.V) }
func (p *fU64) Xdr(xs *xdr.XdrState)     { xdr.XdrU64(xs, &p.V) }
func (p *fVar) Xdr(xs *xdr.XdrState)     { xdr.XdrVarArray(xs, p.max, &p.V) }
func (p *fStr) Xdr(xs *xdr.XdrState)     { xdr.XdrString(xs, p.max, &p.V) }
func (p *fArr0) Xdr(xs *xdr.XdrState)    { xdr.XdrArray(xs, p.V[:]) }
func (p *fArr1) Xdr(xs *xdr.XdrState)    { xdr.XdrArray(xs, p.V[:]) }
func (p *fArr3) Xdr(xs *xdr.XdrState)    { xdr.XdrArray(xs, p.V[:]) }
func (p *fArr4) Xdr(xs *xdr.XdrState)    { xdr.XdrArray(xs, p.V[:]) }
func (p *fArr6) Xdr(xs *xdr.XdrState)    { xdr.XdrArray(xs, p.V[:]) }
func (p *fArr33) Xdr(xs *xdr.XdrState)   { xdr.XdrArray(xs, p.V[:]) }
func (p *fArr4095) Xdr(xs *xdr.XdrState) { xdr.XdrArray(xs, p.V[:]) }
func (p *fArr4100) Xdr(xs *xdr.XdrState) { xdr.XdrArray(xs, p.V[:]) }
func (p *fArr9k) Xdr(xs *xdr.XdrState)   { xdr.XdrArray(xs, p.V[:]) }

// Primitives returns units for the library functions and helper types.
func Primitives() []Unit {
	s := &ref.Spec{Types: map[string]*ref.Type{}}
	var out []Unit
	add := func(name string, t *ref.Type, mk func() xdr.Xdrable) {
		out = append(out, Unit{"xdr." + name, s, t, func() Inst {
			x := mk()
			rv := reflect.ValueOf(x).Elem()
			if rv.Kind() == reflect.Struct && rv.NumField() > 0 {
				rv = rv.Field(0)
			}
			return Inst{x, rv}
		}})
	}
	k := func(k ref.Kind) *ref.Type { return &ref.Type{K: k} }
	add("XdrBool", k(ref.KBool), func() xdr.Xdrable { return &fBool{} })
	add("XdrS32", k(ref.KInt), func() xdr.Xdrable { return &fS32{} })
	add("XdrU32", k(ref.KUint), func() xdr.Xdrable { return &fU32{} })
	add("XdrS64", k(ref.KHyper), func() xdr.Xdrable { return &fS64{} })
	add("XdrU64", k(ref.KUhyper), func() xdr.Xdrable { return &fU64{} })
	add("Bool", k(ref.KBool), func() xdr.Xdrable { return new(xdr.Bool) })
	add("Int32", k(ref.KInt), func() xdr.Xdrable { return new(xdr.Int32) })
	add("Uint32", k(ref.KUint), func() xdr.Xdrable { return new(xdr.Uint32) })
	add("Int64", k(ref.KHyper), func() xdr.Xdrable { return new(xdr.Int64) })
	add("Uint64", k(ref.KUhyper), func() xdr.Xdrable { return new(xdr.Uint64) })
	add("Void", k(ref.KVoid), func() xdr.Xdrable { return new(xdr.Void) })
	for _, m := range []int{-1, 0, 1, 2, 3, 4, 5, 63, 64, 255, 400, 1024, 65535, 65536, 1 << 20} {
		m := m
		t := &ref.Type{K: ref.KVarOpaque, N: uint64(max(m, 0)), Unb: m < 0}
		add(fmt.Sprintf("XdrVarArray<%d>", m), t, func() xdr.Xdrable { return &fVar{max: m} })
		t2 := &ref.Type{K: ref.KString, N: uint64(max(m, 0)), Unb: m < 0}
		add(fmt.Sprintf("XdrString<%d>", m), t2, func() xdr.Xdrable { return &fStr{max: m} })
	}
	arr := func(n int, mk func() xdr.Xdrable) {
		add(fmt.Sprintf("XdrArray[%d]", n), &ref.Type{K: ref.KOpaque, N: uint64(n)}, mk)
	}
	arr(0, func() xdr.Xdrable { return &fArr0{} })
	arr(1, func() xdr.Xdrable { return &fArr1{} })
	arr(3, func() xdr.Xdrable { return &fArr3{} })
	arr(4, func() xdr.Xdrable { return &fArr4{} })
	arr(6, func() xdr.Xdrable { return &fArr6{} })
	arr(33, func() xdr.Xdrable { return &fArr33{} })
	arr(64, func() xdr.Xdrable { return &fArr64{} })
	arr(100, func() xdr.Xdrable { return &fArr100{} })
	arr(1024, func() xdr.Xdrable { return &fArr1024{} })
	arr(4095, func() xdr.Xdrable { return &fArr4095{} })
	arr(4100, func() xdr.Xdrable { return &fArr4100{} })
	arr(9002, func() xdr.Xdrable { return &fArr9k{} })
	return out
}

// All is Primitives and Shipped.
func All() []Unit { return append(Primitives(), Shipped()...) }
