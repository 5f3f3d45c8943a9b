package ref

import (
	"encoding/binary"
	"fmt"
	"reflect"
)

// follow resolves named types; a named optional type is a Go struct with the
// single field P.
func (s *Spec) follow(t *Type, rv reflect.Value) (*Type, reflect.Value) {
	for t.K == KRef {
		t = s.Types[t.Ref]
		if t.K == KPtr {
			rv = rv.FieldByName("P")
		}
	}
	return t, rv
}

// Root gives the walking position for a top-level type held in rv.
func (s *Spec) Root(name string, rv reflect.Value) (*Type, reflect.Value) {
	return s.follow(&Type{K: KRef, Ref: name}, rv)
}

func fld(rv reflect.Value, name string) reflect.Value {
	f := rv.FieldByName(GoName(name))
	if !f.IsValid() {
		panic(fmt.Sprintf("ref: %v has no field %s", rv.Type(), GoName(name)))
	}
	return f
}

// intOf reads any integer or boolean Go value as the 64-bit value of an XDR one.
func intOf(rv reflect.Value) int64 {
	switch rv.Kind() {
	case reflect.Bool:
		if rv.Bool() {
			return 1
		}
		return 0
	case reflect.Int32, reflect.Int64, reflect.Int:
		return rv.Int()
	default:
		return int64(rv.Uint())
	}
}

func setInt(rv reflect.Value, v int64) {
	switch rv.Kind() {
	case reflect.Bool:
		rv.SetBool(v != 0)
	case reflect.Int32:
		rv.SetInt(int64(int32(v)))
	case reflect.Int64:
		rv.SetInt(v)
	case reflect.Uint32:
		rv.SetUint(uint64(uint32(v)))
	default:
		rv.SetUint(uint64(v))
	}
}

// Arm returns the field selected by discriminant d: its declaration, and
// whether d selects anything.
func (t *Type) Arm(d int64) (*Field, bool) {
	for i := range t.Arms {
		for _, l := range t.Arms[i].Labels {
			if uint32(l) == uint32(d) {
				return &t.Arms[i].F, true
			}
		}
	}
	if t.Def != nil {
		return t.Def, true
	}
	return nil, false
}

type Enc struct {
	S        *Spec
	Out      []byte
	NoLimits bool // encode over-limit lengths anyway
	Err      error
}

func (e *Enc) u32(v uint32) { e.Out = binary.BigEndian.AppendUint32(e.Out, v) }

func (e *Enc) pad(n int) {
	for ; n%4 != 0; n++ {
		e.Out = append(e.Out, 0)
	}
}

func (e *Enc) limit(t *Type, n int) {
	if !t.Unb && uint64(n) > t.N && !e.NoLimits && e.Err == nil {
		e.Err = fmt.Errorf("%v length %d exceeds %d", t.K, n, t.N)
	}
}

func (e *Enc) Encode(t *Type, rv reflect.Value) {
	t, rv = e.S.follow(t, rv)
	switch t.K {
	case KInt, KUint, KEnum:
		e.u32(uint32(intOf(rv)))
	case KBool:
		e.u32(uint32(intOf(rv)))
	case KHyper, KUhyper:
		v := uint64(intOf(rv))
		e.u32(uint32(v >> 32))
		e.u32(uint32(v))
	case KOpaque:
		n := rv.Len()
		if uint64(n) != t.N {
			panic(fmt.Sprintf("ref: opaque[%d] held in %v", t.N, rv.Type()))
		}
		for i := 0; i < n; i++ {
			e.Out = append(e.Out, byte(rv.Index(i).Uint()))
		}
		e.pad(n)
	case KVarOpaque:
		b := rv.Bytes()
		e.limit(t, len(b))
		e.u32(uint32(len(b)))
		e.Out = append(e.Out, b...)
		e.pad(len(b))
	case KString:
		b := rv.String()
		e.limit(t, len(b))
		e.u32(uint32(len(b)))
		e.Out = append(e.Out, b...)
		e.pad(len(b))
	case KArray:
		if uint64(rv.Len()) != t.N {
			panic(fmt.Sprintf("ref: array[%d] held in %v", t.N, rv.Type()))
		}
		for i := 0; i < rv.Len(); i++ {
			e.Encode(t.Elem, rv.Index(i))
		}
	case KVarArray:
		e.limit(t, rv.Len())
		e.u32(uint32(rv.Len()))
		for i := 0; i < rv.Len(); i++ {
			e.Encode(t.Elem, rv.Index(i))
		}
	case KPtr:
		if rv.IsNil() {
			e.u32(0)
		} else {
			e.u32(1)
			e.Encode(t.Elem, rv.Elem())
		}
	case KStruct:
		for _, f := range t.Fields {
			e.Encode(f.T, fld(rv, f.Name))
		}
	case KUnion:
		d := fld(rv, t.Disc.Name)
		e.Encode(t.Disc.T, d)
		if f, ok := t.Arm(intOf(d)); ok && f.T.K != KVoid {
			e.Encode(f.T, fld(rv, f.Name))
		}
	case KVoid:
	default:
		panic("ref: kind")
	}
}

// Encode is the reference encoding of rv as t.
func (s *Spec) Encode(t *Type, rv reflect.Value) ([]byte, error) {
	e := &Enc{S: s}
	e.Encode(t, rv)
	return e.Out, e.Err
}

// EncodeNoLimits ignores declared maxima.
func (s *Spec) EncodeNoLimits(t *Type, rv reflect.Value) []byte {
	e := &Enc{S: s, NoLimits: true}
	e.Encode(t, rv)
	return e.Out
}

// Dec is the reference decoder.
type Dec struct {
	S       *Spec
	In      []byte
	Err     error
	Lenient string // first thing an implementation may either tolerate or reject
	depth   int
	Depth   int // deepest nesting seen
}

func (d *Dec) fail(f string, a ...any) {
	if d.Err == nil {
		d.Err = fmt.Errorf(f, a...)
	}
}

func (d *Dec) tolerate(s string) {
	if d.Lenient == "" {
		d.Lenient = s
	}
}

func (d *Dec) take(n uint64) []byte {
	if d.Err != nil {
		return nil
	}
	if uint64(len(d.In)) < n {
		d.fail("truncated")
		return nil
	}
	r := d.In[:n]
	d.In = d.In[n:]
	return r
}

func (d *Dec) u32() uint32 {
	b := d.take(4)
	if d.Err != nil {
		return 0
	}
	return binary.BigEndian.Uint32(b)
}

func (d *Dec) pad(n uint64) {
	for _, b := range d.take((4 - n%4) % 4) {
		if b != 0 {
			d.tolerate("padding")
		}
	}
}

func (d *Dec) limit(t *Type, n uint64) {
	if !t.Unb && n > t.N {
		d.fail("length %d exceeds %d", n, t.N)
	}
}

func (d *Dec) Decode(t *Type, rv reflect.Value) {
	if d.Err != nil {
		return
	}
	d.depth++
	if d.depth > d.Depth {
		d.Depth = d.depth
	}
	defer func() { d.depth-- }()
	t, rv = d.S.follow(t, rv)
	switch t.K {
	case KInt, KUint:
		v := d.u32()
		if d.Err == nil {
			setInt(rv, int64(int32(v)))
		}
	case KEnum:
		v := d.u32()
		if d.Err == nil {
			ok := false
			for _, it := range t.Items {
				ok = ok || uint32(it.Val) == v
			}
			if !ok {
				d.tolerate("enum")
			}
			setInt(rv, int64(int32(v)))
		}
	case KBool:
		v := d.u32()
		if v > 1 {
			d.tolerate("bool")
		}
		if d.Err == nil {
			rv.SetBool(v != 0)
		}
	case KHyper, KUhyper:
		b := d.take(8)
		if d.Err == nil {
			setInt(rv, int64(binary.BigEndian.Uint64(b)))
		}
	case KOpaque:
		b := d.take(t.N)
		d.pad(t.N)
		if d.Err == nil {
			reflect.Copy(rv.Slice(0, rv.Len()), reflect.ValueOf(b))
		}
	case KVarOpaque:
		n := uint64(d.u32())
		d.limit(t, n)
		b := d.take(n)
		d.pad(n)
		if d.Err == nil {
			rv.SetBytes(append([]byte{}, b...))
		}
	case KString:
		n := uint64(d.u32())
		d.limit(t, n)
		b := d.take(n)
		d.pad(n)
		if d.Err == nil {
			rv.SetString(string(b))
		}
	case KArray:
		for i := 0; i < rv.Len(); i++ {
			d.Decode(t.Elem, rv.Index(i))
		}
	case KVarArray:
		n := uint64(d.u32())
		d.limit(t, n)
		if d.Err == nil {
			rv.Set(reflect.MakeSlice(rv.Type(), 0, 0))
		}
		zero := d.S.MinWire(t.Elem) == 0
		for i := uint64(0); i < n && d.Err == nil; i++ {
			if zero && i > 1<<16 {
				d.fail("giving up: huge array of empty elements")
				break
			}
			rv.Set(reflect.Append(rv, reflect.Zero(rv.Type().Elem())))
			d.Decode(t.Elem, rv.Index(rv.Len()-1))
		}
	case KPtr:
		v := d.u32()
		if v > 1 {
			d.tolerate("bool")
		}
		if d.Err != nil {
			break
		}
		if v == 0 {
			rv.SetZero()
		} else {
			rv.Set(reflect.New(rv.Type().Elem()))
			d.Decode(t.Elem, rv.Elem())
		}
	case KStruct:
		for _, f := range t.Fields {
			d.Decode(f.T, fld(rv, f.Name))
		}
	case KUnion:
		dv := fld(rv, t.Disc.Name)
		d.Decode(t.Disc.T, dv)
		if d.Err != nil {
			break
		}
		f, ok := t.Arm(intOf(dv))
		if !ok {
			d.tolerate("discriminant")
		} else if f.T.K != KVoid {
			d.Decode(f.T, fld(rv, f.Name))
		}
	case KVoid:
	}
}

// MinWire is the least number of bytes a value of t can take.
func (s *Spec) MinWire(t *Type) uint64 { return s.minWire(t, map[string]bool{}) }

func (s *Spec) minWire(t *Type, seen map[string]bool) uint64 {
	switch t.K {
	case KRef:
		if seen[t.Ref] {
			return 1 << 20
		}
		seen[t.Ref] = true
		defer delete(seen, t.Ref)
		return s.minWire(s.Types[t.Ref], seen)
	case KHyper, KUhyper:
		return 8
	case KOpaque:
		return (t.N + 3) / 4 * 4
	case KArray:
		if t.N == 0 {
			return 0
		}
		return t.N * s.minWire(t.Elem, seen)
	case KStruct:
		var n uint64
		for _, f := range t.Fields {
			n += s.minWire(f.T, seen)
		}
		return n
	case KVoid:
		return 0
	}
	return 4
}

// Diff compares what a and b say as values of t (unselected union arms and
// nil versus empty slices make no difference); "" means equal.
func (s *Spec) Diff(t *Type, a, b reflect.Value) string {
	var bt *Type
	ot := t
	t, a = s.follow(ot, a)
	bt, b = s.follow(ot, b)
	_ = bt
	switch t.K {
	case KInt, KUint, KEnum, KBool, KHyper, KUhyper:
		if intOf(a) != intOf(b) {
			return fmt.Sprintf(": %v != %v", a, b)
		}
	case KOpaque:
		for i := 0; i < a.Len(); i++ {
			if a.Index(i).Uint() != b.Index(i).Uint() {
				return fmt.Sprintf("[%d]: %v != %v", i, a.Index(i), b.Index(i))
			}
		}
	case KVarOpaque:
		if string(a.Bytes()) != string(b.Bytes()) {
			return fmt.Sprintf(": %s != %s", Hex(a.Bytes()), Hex(b.Bytes()))
		}
	case KString:
		if a.String() != b.String() {
			return fmt.Sprintf(": %.40q != %.40q", a.String(), b.String())
		}
	case KArray, KVarArray:
		if a.Len() != b.Len() {
			return fmt.Sprintf(": %d elements != %d", a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := s.Diff(t.Elem, a.Index(i), b.Index(i)); d != "" {
				return fmt.Sprintf("[%d]%s", i, d)
			}
		}
	case KPtr:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf(": present %v != %v", !a.IsNil(), !b.IsNil())
		}
		if !a.IsNil() {
			if d := s.Diff(t.Elem, a.Elem(), b.Elem()); d != "" {
				return "->" + d
			}
		}
	case KStruct:
		for _, f := range t.Fields {
			if d := s.Diff(f.T, fld(a, f.Name), fld(b, f.Name)); d != "" {
				return "." + f.Name + d
			}
		}
	case KUnion:
		da := fld(a, t.Disc.Name)
		if d := s.Diff(t.Disc.T, da, fld(b, t.Disc.Name)); d != "" {
			return "." + t.Disc.Name + d
		}
		if f, ok := t.Arm(intOf(da)); ok && f.T.K != KVoid {
			if d := s.Diff(f.T, fld(a, f.Name), fld(b, f.Name)); d != "" {
				return "." + f.Name + d
			}
		}
	}
	return ""
}

func Hex(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("%x...(%d bytes)", b[:64], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// Shape checks that Go type rt can hold values of t as the generator is
// documented to lay them out.
func (s *Spec) Shape(t *Type, rt reflect.Type, path string, seen map[string]bool) error {
	for t.K == KRef {
		key := t.Ref + "|" + rt.String()
		if seen[key] {
			return nil
		}
		seen[key] = true
		t = s.Types[t.Ref]
		if t.K == KPtr {
			if rt.Kind() != reflect.Struct {
				return fmt.Errorf("%s: want struct{P}, have %v", path, rt)
			}
			f, ok := rt.FieldByName("P")
			if !ok {
				return fmt.Errorf("%s: no field P in %v", path, rt)
			}
			rt = f.Type
		}
	}
	want := func(ks ...reflect.Kind) error {
		for _, k := range ks {
			if rt.Kind() == k {
				return nil
			}
		}
		return fmt.Errorf("%s: %v held in %v", path, t.K, rt)
	}
	field := func(f Field) error {
		if f.T.K == KVoid {
			return nil
		}
		sf, ok := rt.FieldByName(GoName(f.Name))
		if !ok {
			return fmt.Errorf("%s: no field %s in %v", path, GoName(f.Name), rt)
		}
		return s.Shape(f.T, sf.Type, path+"."+f.Name, seen)
	}
	switch t.K {
	case KInt:
		return want(reflect.Int32)
	case KUint:
		return want(reflect.Uint32)
	case KEnum:
		return want(reflect.Int32, reflect.Uint32)
	case KBool:
		return want(reflect.Bool)
	case KHyper:
		return want(reflect.Int64)
	case KUhyper:
		return want(reflect.Uint64)
	case KOpaque:
		if rt.Kind() != reflect.Array || rt.Elem().Kind() != reflect.Uint8 || uint64(rt.Len()) != t.N {
			return fmt.Errorf("%s: opaque[%d] held in %v", path, t.N, rt)
		}
	case KVarOpaque:
		if rt.Kind() != reflect.Slice || rt.Elem().Kind() != reflect.Uint8 {
			return fmt.Errorf("%s: opaque<> held in %v", path, rt)
		}
	case KString:
		return want(reflect.String)
	case KArray:
		if rt.Kind() != reflect.Array || uint64(rt.Len()) != t.N {
			return fmt.Errorf("%s: array[%d] held in %v", path, t.N, rt)
		}
		return s.Shape(t.Elem, rt.Elem(), path+"[]", seen)
	case KVarArray:
		if err := want(reflect.Slice); err != nil {
			return err
		}
		return s.Shape(t.Elem, rt.Elem(), path+"<>", seen)
	case KPtr:
		if err := want(reflect.Pointer); err != nil {
			return err
		}
		return s.Shape(t.Elem, rt.Elem(), path+"*", seen)
	case KStruct:
		if err := want(reflect.Struct); err != nil {
			return err
		}
		for _, f := range t.Fields {
			if err := field(f); err != nil {
				return err
			}
		}
	case KUnion:
		if err := want(reflect.Struct); err != nil {
			return err
		}
		if err := field(t.Disc); err != nil {
			return err
		}
		for _, a := range t.Arms {
			if err := field(a.F); err != nil {
				return err
			}
		}
		if t.Def != nil {
			return field(*t.Def)
		}
	}
	return nil
}
