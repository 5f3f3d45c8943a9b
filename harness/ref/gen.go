package ref

import (
	"fmt"
	"math/rand"
	"reflect"
)

// Gen fills Go values with random contents of a type. All randomness comes
// from R, so a seed determines the values.
type Gen struct {
	S      *Spec
	R      *rand.Rand
	Budget int  // rough bound on generated bytes; lengths shrink once it is used up
	Wild   bool // also use unlisted enum values and discriminants

	// Path and At force generation to reach one place: Path lists the choice
	// at each struct/union/array level, At is called there.
	Path []int
	At   func(t *Type, rv reflect.Value) bool

	Arms map[string]int // union arms and optional presences generated, by type/arm
	Deep int            // preferred length of the next recursive list, if > 0
	lvl  int
}

const DefArm = -1

func (g *Gen) saw(s string) {
	if g.Arms != nil {
		g.Arms[s]++
	}
}

var interesting = []uint64{0, 1, 2, 3, 4, 5, 7, 8, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x01020304,
	0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100000000, 0x0102030405060708, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xdeadbeefcafef00d}

func (g *Gen) Int() uint64 {
	switch g.R.Intn(4) {
	case 0:
		return interesting[g.R.Intn(len(interesting))]
	case 1:
		return 1 << uint(g.R.Intn(64))
	case 2:
		return uint64(g.R.Intn(300))
	}
	return g.R.Uint64()
}

// Len picks a length for something with a maximum (or none).
func (g *Gen) Len(max uint64, unb bool, unit int) int {
	var n uint64
	switch g.R.Intn(12) {
	case 0, 1:
		n = 0
	case 2, 3, 4, 5:
		n = uint64(g.R.Intn(10))
	case 6, 7:
		n = uint64(g.R.Intn(70))
	case 8:
		n = []uint64{63, 64, 65, 255, 256, 257, 511, 1023, 1024, 1025}[g.R.Intn(10)]
	case 9:
		if !unb && max > 0 {
			n = max - 1
		} else {
			n = uint64(g.R.Intn(300))
		}
	default:
		if !unb {
			n = max
		} else {
			n = uint64(g.R.Intn(20))
		}
	}
	if !unb && n > max {
		n = uint64(g.R.Int63n(int64(max) + 1))
	}
	if b := uint64(max2(g.Budget, 0) / unit); n > b {
		n = b
	}
	g.Budget -= int(n) * unit
	return int(n)
}

func max2(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (g *Gen) bytes(n int) []byte {
	b := make([]byte, n)
	switch g.R.Intn(4) {
	case 0:
		for i := range b {
			b[i] = 0xff
		}
	case 1:
		for i := range b {
			b[i] = byte('a' + i%26)
		}
	default:
		g.R.Read(b)
	}
	return b
}

// step consumes one forced choice: ok if still on the forced path.
func (g *Gen) step() (int, bool) {
	if len(g.Path) == 0 {
		return 0, false
	}
	s := g.Path[0]
	g.Path = g.Path[1:]
	return s, true
}

// Fill sets rv to a random value of t. on says whether rv lies on the forced
// path.
func (g *Gen) Fill(t *Type, rv reflect.Value) { g.fill(t, rv, g.At != nil, "") }

func (g *Gen) fill(t *Type, rv reflect.Value, on bool, name string) {
	g.lvl++
	defer func() { g.lvl-- }()
	for t.K == KRef {
		name = t.Ref
		t = g.S.Types[t.Ref]
		if t.K == KPtr {
			rv = rv.FieldByName("P")
		}
	}
	if on && len(g.Path) == 0 {
		if g.At(t, rv) {
			return
		}
		on = false
	}
	switch t.K {
	case KInt, KUint, KHyper, KUhyper:
		setInt(rv, int64(g.Int()))
	case KBool:
		rv.SetBool(g.R.Intn(2) == 1)
	case KEnum:
		if g.Wild && g.R.Intn(5) == 0 {
			setInt(rv, int64(int32(g.Int())))
		} else {
			setInt(rv, t.Items[g.R.Intn(len(t.Items))].Val)
		}
	case KOpaque:
		reflect.Copy(rv.Slice(0, rv.Len()), reflect.ValueOf(g.bytes(rv.Len())))
		g.Budget -= rv.Len()
	case KVarOpaque:
		n := g.Len(t.N, t.Unb, 1)
		if n == 0 && g.R.Intn(2) == 0 {
			rv.SetZero()
		} else {
			rv.SetBytes(g.bytes(n))
		}
	case KString:
		rv.SetString(string(g.bytes(g.Len(t.N, t.Unb, 1))))
	case KArray:
		s, _ := 0, false
		if on {
			s, _ = g.step()
		}
		for i := 0; i < rv.Len(); i++ {
			g.fill(t.Elem, rv.Index(i), on && i == s, name)
		}
	case KVarArray:
		n := g.Len(t.N, t.Unb, int(max2(4, int(g.S.MinWire(t.Elem)))))
		if g.lvl > 12 && n > 3 {
			n = 3
		}
		s := 0
		if on {
			s, _ = g.step()
			if n <= s {
				n = s + 1
			}
		}
		if n == 0 && g.R.Intn(2) == 0 {
			rv.SetZero()
			break
		}
		rv.Set(reflect.MakeSlice(rv.Type(), n, n))
		for i := 0; i < n; i++ {
			g.fill(t.Elem, rv.Index(i), on && i == s, name)
		}
	case KPtr:
		present := g.R.Intn(5) < 3
		if g.Budget <= 0 {
			present = false
		} else if g.Deep > 0 {
			present = true
			g.Deep--
		}
		if on {
			g.step()
			present = true
		}
		g.Budget -= 8
		g.saw(fmt.Sprintf("%s?%v", name, present))
		if !present {
			rv.SetZero()
			break
		}
		rv.Set(reflect.New(rv.Type().Elem()))
		g.fill(t.Elem, rv.Elem(), on, name)
	case KStruct:
		s := -1
		if on {
			s, _ = g.step()
		}
		for i, f := range t.Fields {
			g.fill(f.T, fld(rv, f.Name), on && i == s, name+"."+f.Name)
		}
	case KUnion:
		d := fld(rv, t.Disc.Name)
		arm, forced := 0, false
		if on {
			arm, forced = g.step()
		}
		if forced {
			on = true
			if arm == DefArm {
				setInt(d, g.DefLabel(t))
			} else {
				ls := t.Arms[arm].Labels
				setInt(d, ls[g.R.Intn(len(ls))])
			}
		} else {
			g.disc(t, d)
		}
		if f, ok := t.Arm(intOf(d)); ok {
			g.saw(fmt.Sprintf("%s(%d)", name, intOf(d)))
			if f.T.K != KVoid {
				g.fill(f.T, fld(rv, f.Name), on && forced, name+"."+f.Name)
			}
		} else {
			g.saw(name + "(unlisted)")
		}
	}
}

// disc sets a discriminant to a value the union allows.
func (g *Gen) disc(t *Type, d reflect.Value) {
	if g.Wild && g.R.Intn(6) == 0 {
		g.fill(t.Disc.T, d, false, "")
		return
	}
	k := g.R.Intn(len(t.Arms) + 1)
	if k == len(t.Arms) {
		if t.Def == nil {
			if len(t.Arms) == 0 {
				g.fill(t.Disc.T, d, false, "")
				return
			}
			k = 0
		} else {
			setInt(d, g.DefLabel(t))
			return
		}
	}
	ls := t.Arms[k].Labels
	setInt(d, ls[g.R.Intn(len(ls))])
}

// DefReachable says whether some discriminant value selects the default arm.
func (s *Spec) DefReachable(t *Type) bool {
	if t.Def == nil {
		return false
	}
	dt := s.Deref(t.Disc.T)
	switch dt.K {
	case KBool:
		return !(armed(t, 0) && armed(t, 1))
	case KEnum:
		for _, it := range dt.Items {
			if !armed(t, it.Val) {
				return true
			}
		}
		return false
	}
	return true
}

func armed(t *Type, v int64) bool {
	for _, a := range t.Arms {
		for _, l := range a.Labels {
			if uint32(l) == uint32(v) {
				return true
			}
		}
	}
	return false
}

// DefLabel picks a discriminant that selects the default arm.
func (g *Gen) DefLabel(t *Type) int64 {
	dt := g.S.Deref(t.Disc.T)
	var cand []int64
	switch dt.K {
	case KBool:
		cand = []int64{0, 1}
	case KEnum:
		for _, it := range dt.Items {
			cand = append(cand, it.Val)
		}
	default:
		for i := 0; i < 8; i++ {
			cand = append(cand, int64(int32(g.Int())))
		}
		// Of long lists of labels all of those may be taken.
		for c := int64(int32(g.R.Uint32())); ; c = int64(int32(g.R.Uint32())) {
			if !armed(t, c) {
				cand = append(cand, c)
				break
			}
		}
	}
	var ok []int64
	for _, c := range cand {
		if !armed(t, c) {
			ok = append(ok, c)
		}
	}
	if len(ok) == 0 {
		return cand[g.R.Intn(len(cand))]
	}
	return ok[g.R.Intn(len(ok))]
}

// Site is a place inside a type.
type Site struct {
	Path []int
	Name string
	T    *Type
}

// maxSites bounds how many places of one type are looked at.
const maxSites = 6000

// Sites enumerates the places in t for which want holds, unrolling each named
// type at most rec times on a path, nearest first. Of types with very many
// places only the nearest maxSites are looked at.
func (s *Spec) Sites(t *Type, rec int, want func(*Type) bool) []Site {
	type node struct {
		t    *Type
		path []int
		name string
		on   []string // named types on the path
	}
	var out []Site
	queue := []node{{t: t}}
	for i := 0; i < len(queue) && i < maxSites; i++ {
		n := queue[i]
		queue[i] = node{}
		t, on, skip := n.t, n.on, false
		for t.K == KRef {
			k := 0
			for _, x := range on {
				if x == t.Ref {
					k++
				}
			}
			if skip = k >= rec; skip {
				break
			}
			on = append(append([]string{}, on...), t.Ref)
			t = s.Types[t.Ref]
		}
		if skip {
			continue
		}
		if want(t) {
			out = append(out, Site{n.path, n.name, t})
		}
		sub := func(k int, t *Type, name string) {
			queue = append(queue, node{t, append(append([]int{}, n.path...), k), n.name + name, on})
		}
		switch t.K {
		case KArray:
			if t.N > 0 {
				sub(0, t.Elem, "[0]")
				if t.N > 1 {
					sub(int(t.N)-1, t.Elem, fmt.Sprintf("[%d]", t.N-1))
				}
			}
		case KVarArray:
			if t.Unb || t.N > 0 {
				sub(0, t.Elem, "<0>")
			}
			if t.Unb || t.N > 1 {
				sub(1, t.Elem, "<1>")
			}
		case KPtr:
			sub(0, t.Elem, "*")
		case KStruct:
			for i, f := range t.Fields {
				sub(i, f.T, "."+f.Name)
			}
		case KUnion:
			for i, a := range t.Arms {
				if a.F.T.K != KVoid {
					sub(i, a.F.T, "."+a.F.Name)
				}
			}
			if t.Def != nil && t.Def.T.K != KVoid && s.DefReachable(t) {
				sub(DefArm, t.Def.T, "."+t.Def.Name)
			}
		}
	}
	return out
}

// Bounded reports types with a declared maximum length.
func Bounded(t *Type) bool {
	return (t.K == KVarOpaque || t.K == KString || t.K == KVarArray) && !t.Unb
}

// Slices calls f on every []byte inside the determined part of rv.
func (s *Spec) Slices(t *Type, rv reflect.Value, f func(b reflect.Value)) {
	t, rv = s.follow(t, rv)
	switch t.K {
	case KVarOpaque:
		f(rv)
	case KArray, KVarArray:
		for i := 0; i < rv.Len(); i++ {
			s.Slices(t.Elem, rv.Index(i), f)
		}
	case KPtr:
		if !rv.IsNil() {
			s.Slices(t.Elem, rv.Elem(), f)
		}
	case KStruct:
		for _, fl := range t.Fields {
			s.Slices(fl.T, fld(rv, fl.Name), f)
		}
	case KUnion:
		if fl, ok := t.Arm(intOf(fld(rv, t.Disc.Name))); ok && fl.T.K != KVoid {
			s.Slices(fl.T, fld(rv, fl.Name), f)
		}
	}
}

// FillUnion fills a union with discriminant d.
func (g *Gen) FillUnion(t *Type, rv reflect.Value, d int64) {
	setInt(fld(rv, t.Disc.Name), d)
	if f, ok := t.Arm(d); ok && f.T.K != KVoid {
		g.fill(f.T, fld(rv, f.Name), false, "")
	}
}

// FillLen fills a string, opaque or array with exactly n elements.
func (g *Gen) FillLen(t *Type, rv reflect.Value, n int) {
	switch t.K {
	case KString:
		rv.SetString(string(g.bytes(n)))
	case KVarOpaque:
		rv.SetBytes(g.bytes(n))
	case KVarArray:
		rv.Set(reflect.MakeSlice(rv.Type(), n, n))
		b := g.Budget
		for i := 0; i < n; i++ {
			g.Budget = b / (n + 1)
			g.fill(t.Elem, rv.Index(i), false, "")
		}
		g.Budget = b
	}
}

// Leaves calls f on every scalar, string and opaque in the determined part of rv.
func (s *Spec) Leaves(t *Type, rv reflect.Value, f func(t *Type, v reflect.Value)) {
	t, rv = s.follow(t, rv)
	switch t.K {
	case KArray, KVarArray:
		for i := 0; i < rv.Len(); i++ {
			s.Leaves(t.Elem, rv.Index(i), f)
		}
	case KPtr:
		if !rv.IsNil() {
			s.Leaves(t.Elem, rv.Elem(), f)
		}
	case KStruct:
		for _, fl := range t.Fields {
			s.Leaves(fl.T, fld(rv, fl.Name), f)
		}
	case KUnion:
		d := fld(rv, t.Disc.Name)
		s.Leaves(t.Disc.T, d, f)
		if fl, ok := t.Arm(intOf(d)); ok && fl.T.K != KVoid {
			s.Leaves(fl.T, fld(rv, fl.Name), f)
		}
	case KVoid:
	default:
		f(t, rv)
	}
}
