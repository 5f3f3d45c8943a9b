package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"

	"verifharness/mon"
	"verifharness/ref"
	"verifharness/sim"
	"verifharness/units"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// torture are specifications that put each construct into each position.
var torture = []string{`
const N = 3; const BIG = 0x10; const OCT = 017; const ZERO = 0; const HUGE = 4294967295;
enum color { RED = 0, GREEN = 2, BLUE = 0x7fffffff, LOW = 010 };
typedef int i32; typedef unsigned int u32; typedef hyper i64; typedef unsigned hyper u64; typedef bool flag;
typedef opaque fix0[0]; typedef opaque fix3[N]; typedef opaque fix16[BIG]; typedef opaque fixg[GREEN];
typedef opaque var<>; typedef opaque var0<0>; typedef opaque varN<N>; typedef opaque varO<OCT>; typedef opaque varH<HUGE>; typedef opaque varG<GREEN>;
typedef string str<>; typedef string str0<ZERO>; typedef string strN<N>; typedef string strH<0xffffffff>;
typedef int ia[N]; typedef int iv<>; typedef int ivN<N>; typedef hyper hv<5>; typedef bool bv<2>; typedef color cv<3>; typedef color ca[2];
typedef fix3 f3v<>; typedef fix3 f3a[2]; typedef var vv<4>; typedef str sv<4>; typedef str sa[3]; typedef ivN ivv<3>; typedef ia iaa[2];
typedef int *oi; typedef color *oc; typedef str *os; typedef oi *ooi; typedef oi oiv<3>; typedef var *ov;
`, `
struct all { int a; unsigned int b; hyper c; unsigned hyper d; bool e; opaque f[5]; opaque g<>; opaque h<7>; string i<>; string j<9>;
 int k[2]; int l<>; int m<4>; all *n; all o<2>; struct { int x; struct { int y; opaque z<3>; } w; } p; union switch (int q) { case 1: int r; default: void; } s;
 struct { int x; } t<>; struct { int x; opaque y[3]; } u[2]; struct { int x; } *v; union switch (bool b) { case TRUE: struct { all *deep; } more; case FALSE: void; } w<2>; void; };
`, `
enum kind { K_INT = 1, K_STR = 2, K_NONE = 3, K_PAIR = 4, K_UNION = 5, K_LIST = 6, k_lower = 7 };
union node switch (kind k) { case K_INT: int i; case K_STR: string s<20>; case K_NONE: void; case K_PAIR: struct { node *l; node *r; } p;
 case K_UNION: union switch (unsigned int n) { case 0: case 1: case 4294967295: opaque o[6]; default: hyper h; } u; case K_LIST: node kids<3>; case k_lower: bool b; };
union sparse switch (kind k) { case K_INT: case K_STR: case K_PAIR: int i; default: node n; };
union nodef switch (int d) { case 0: void; case 5: int a; case 2147483647: void; };
union onlyvoid switch (kind k) { case K_INT: void; default: void; };
union lits switch (kind k) { case 1: int a; case 0x2: hyper b; default: string c<>; };
typedef bool tb; union btyp switch (tb x) { case FALSE: int f; case TRUE: hyper t; };
typedef int ti; union ityp switch (ti x) { case 7: case 8: case 9: opaque o<>; default: bool b; };
union bdef switch (bool b) { case TRUE: int t; default: hyper other; };
`, `
struct list { entry *head; }; struct entry { string name<255>; list sub; entry *next; };
typedef entry *entries; struct dir { entries e; entries more<2>; entries fix[2]; };
typedef tree trees<>; struct tree { trees kids; int v; }; typedef self self<>;
struct a { b *x; }; struct b { c x<2>; }; struct c { a x[1]; };
union u switch (int t) { case 0: void; default: u *next; };
typedef struct { int x; int y; } point; typedef union switch (bool has) { case TRUE: point p; case FALSE: void; } maybe; typedef struct { int z; } zs<4>; typedef struct { int z; } za[2]; typedef struct { int z; } *zp;
`, `
struct mat { int m[2][3]; };`[:0] + `
typedef int row[3]; typedef row mat[2]; typedef row rows<2>; struct m3 { mat m[2]; rows r[2]; mat v<>; struct { row q[2]; } z<2>; struct { struct { int i[2]; } j[2]; } k[2]; struct { struct { int i<2>; } j<2>; } l<2>;
 struct { struct { struct { struct { struct { struct { struct { int i[2]; opaque o<2>; } g[2]; } f[1]; } e[2]; } d[2]; } c[1]; } b[2]; } deepfix[2];
 struct { struct { struct { struct { struct { struct { struct { int i<2>; } g<2>; } f<2>; } e<3>; } d<2>; } c<3>; } b<3>; } a<3>;
 union switch (int d) { case 0: int xs[2]; case 1: struct { hyper h[2]; opaque o[3]; } in[2]; default: union switch (bool b) { case TRUE: string s<3>; case FALSE: int e<1>; } deep<2>; } un[2]; };
`, `
struct type { int map; int type; }; struct v { int v; int xs; int in; int err; }; struct args { v v; type out; args *next; };
union w switch (int h) { case 0: v v; default: args xs; }; enum err { E_OK = 0 }; typedef err res; typedef opaque opted<4>; typedef string error<8>; typedef hyper uint32; struct int32 { uint32 a; };
`, longNames}

// longNames declares names that differ only at their ends.
var longNames = func() string {
	n := strings.Repeat("a_rather_long_name_", 30)
	return "\nstruct " + n + "1 { int " + n + "1; hyper " + n + "2; }; typedef int " + n + "2; enum " + n + "3 { " + n + "4 = 4, " + n + "5 = 5 }; const " + n + "6 = 6;\n" +
		"union " + n + "7 switch (" + n + "3 " + n + "8) { case " + n + "4: int " + n + "9; case " + n + "5: opaque " + n + "10<" + n + "6>; };"
}()

// genProbe is a valid specification known not to work; key is its finding.
type genProbe struct {
	prop, key, what, text string
	o                     genOpts
}

var genProbes = []genProbe{
	{"C19", "const-only", "a specification with constants only", "const A = 1; const B = 2;", genOpts{}},
	{"C19", "lower-const-label", "a constant with a lower-case name as a union label", "const one = 1; union u switch (int d) { case one: int a; default: void; };", genOpts{}},
	{"C19", "lower-item-size", "an enum item with a lower-case name as an array size", "enum e { three = 3 }; struct s { int a[three]; };", genOpts{}},
	{"C19", "typed-const-label", "-const-type with a constant as a union label", "const ONE = 1; union u switch (int d) { case ONE: int a; default: void; };", genOpts{ConstType: "uint32"}},
	{"C19", "typed-const-enum", "-const-type with a constant as an enum value", "const ONE = 1; enum e { E_ONE = ONE };", genOpts{ConstType: "uint32"}},
	{"C19", "typedef-enum-label", "an enum item as a label of a union over a typedef of the enum", "enum e { E_ONE = 1 }; typedef e f; union u switch (f d) { case E_ONE: int a; default: void; };", genOpts{}},
	{"C19", "enum-item-other-enum", "an item of one enum as a value of another", "enum e { E_ONE = 1 }; enum f { F_ONE = E_ONE };", genOpts{}},
	{"C19", "field-xdr", "a field called xdr", "struct s { int xdr; };", genOpts{}},
	{"C19", "keyword-const", "a constant whose name is a Go keyword", "const func = 1; struct s { int a<func>; };", genOpts{}},
	{"C19", "const-shadow", "a constant called v as an array bound", "const v = 3; struct s { opaque a<v>; };", genOpts{}},
	{"C19", "case-collision", "two types whose names differ in the case of the first letter", "struct foo { int a; }; struct Foo { int b; };", genOpts{}},
	{"C19", "arm-named-discriminant", "a union arm with the name of the discriminant", "union u switch (int a) { case 1: int a; default: void; };", genOpts{}},
	{"C20", "same-proc-name", "two versions of a program with a procedure of the same name", "program P { version V1 { void NULL(void) = 0; } = 1; version V2 { void NULL(void) = 0; } = 2; } = 200;", genOpts{}},
}

func probes(m *mon.M, work string) {
	var specs []*genSpec
	byID := map[string]genProbe{}
	for i, p := range genProbes {
		if p.prop != m.Prop {
			continue
		}
		s, err := ref.Parse(p.text)
		if err != nil {
			panic(err)
		}
		g := &genSpec{id: fmt.Sprintf("probe%d", i), text: p.text, o: p.o, s: s}
		byID[g.id] = p
		if g.generate(work) != 0 {
			m.Violation(p.key, "%s is refused: %.400s\n%s", p.what, g.out, g.describe())
			continue
		}
		specs = append(specs, g)
	}
	_, bad, _ := driver(work, "probes", specs, true, m.Prop == "C20")
	for id, e := range bad {
		p := byID[id]
		m.Violation(p.key, "%s: the output does not compile: %s\n%s", p.what, clipText(e, 500), p.text)
	}
	m.Count("probes", int64(len(byID)))
}

// genBatch generates, compiles and runs a set of specifications.
func genBatch(m *mon.M, work, name, mode string, specs []*genSpec, consts, progs bool) {
	var ok []*genSpec
	for _, g := range specs {
		if g.pkg == "" {
			if c := g.generate(work); c != 0 {
				m.Violation("refused", "generator exit status %d: %s\nfor valid %s", c, clipText(g.out, 600), g.describe())
				continue
			}
			m.Count("specifications_generated", 1)
		}
		ok = append(ok, g)
	}
	bin, bad, good := driver(work, name, ok, consts, progs)
	for _, g := range ok {
		if e, isBad := bad[g.id]; isBad {
			m.Violation("compile", "output does not compile: %s\n%s", clipText(e, 1500), g.describe())
		}
	}
	if len(good) == 0 {
		return
	}
	m.Count("specifications_compiled", int64(len(good)))
	runChild(m, bin, "TestHelperGen", mode, work, name, "")
	os.Remove(bin)
}

func TestC19(t *testing.T) {
	run(t, "C19", "random specifications over all supported constructs (and hand-made ones with each construct in each position), under all option combinations, generated, compiled and linked into a driver that checks every type's codec (values, every union arm, mutated and truncated bytes, lengths around every limit, reuse of variables) against the reference interpreter of the same specification; non-trivial: encodings longer than a word and mutated inputs, distinct by specification, type and bytes", func(m *mon.M) {
		work := os.Getenv("VERIF_WORK")
		probes(m, work)
		r := rng(m, "specs")
		nb, per := m.N(18, 80), m.N(14, 25)
		batches := make([][]*genSpec, nb)
		k := 0
		for b := range batches {
			for i := 0; i < per; i++ {
				o := allOpts[k%len(allOpts)]
				id := fmt.Sprintf("p%d", k)
				k++
				half := (len(torture) + 1) / 2
				if j := b*half + i; i < half && b < 4 {
					// torture specifications under four option combinations
					x := torture[j%len(torture)]
					o = allOpts[r.Intn(len(allOpts))]
					if b == 0 || strings.Contains(x, "ONE") {
						o.ConstType = ""
					}
					s, err := ref.Parse(x)
					if err != nil {
						panic(err)
					}
					batches[b] = append(batches[b], &genSpec{id: id, text: x, o: o, s: s})
					continue
				}
				batches[b] = append(batches[b], randSpec(r, id, o, 3+r.Intn(14), r.Intn(4) == 0))
			}
		}
		m.Note("option_combinations", len(allOpts))
		parallel(nb, 4, func(b int) {
			if m.Violations() < 10 {
				genBatch(m, work, fmt.Sprintf("batch%d", b), "codec", batches[b], true, false)
			}
		})
	})
}

// recorder is what generated program stubs are given to call.
type recorder struct {
	mu    sync.Mutex
	calls []recCall
	set   func(prog, vers, proc uint32, res reflect.Value)
	over  func(id [3]uint32, arg, res reflect.Value) // if set, instead of the above
}

type recCall struct {
	id  [3]uint32
	arg reflect.Value
}

func (r *recorder) call(prog, vers, proc uint32, arg, res reflect.Value) {
	c := recCall{id: [3]uint32{prog, vers, proc}}
	if r.over != nil {
		r.over(c.id, arg, res)
		return
	}
	if arg.IsValid() {
		c.arg = deepCopy(arg)
	}
	r.mu.Lock()
	r.calls = append(r.calls, c)
	if res.IsValid() && r.set != nil {
		r.set(prog, vers, proc, res)
	}
	r.mu.Unlock()
}

func (r *recorder) take() []recCall {
	r.mu.Lock()
	defer r.mu.Unlock()
	c := r.calls
	r.calls = nil
	return c
}

var builtins = map[ref.Kind]reflect.Type{ref.KInt: reflect.TypeOf(int32(0)), ref.KUint: reflect.TypeOf(uint32(0)), ref.KHyper: reflect.TypeOf(int64(0)),
	ref.KUhyper: reflect.TypeOf(uint64(0)), ref.KBool: reflect.TypeOf(false)}

func (g genPkg) newValue(t *ref.Type) reflect.Value {
	if t.K == ref.KRef {
		return reflect.New(g.Types[t.Ref]).Elem()
	}
	return reflect.New(builtins[t.K]).Elem()
}

// genDispatch checks the stubs of a package against its program definitions.
func genDispatch(m *mon.M, g genPkg) {
	s := g.spec()
	r := rng(m, os.Getenv("VERIF_CHILD_NAME")+g.ID)
	rec := &recorder{}
	srv := rfc1057.MakeServer()
	where := func() string { return g.describe() }
	type key = [3]uint32
	procs := map[key]*ref.Proc{}
	order := []key{}
	progs, verss := map[uint32]bool{}, map[[2]uint32]bool{}
	constWant := func(kind, name string, v uint32) {
		if got, ok := g.Consts[kind+" "+name]; ok && got != int64(v) {
			m.Violation("number", "%s%s %s is declared as %d, not %d", where(), kind, name, got, v)
		}
	}
	for _, gp := range g.Progs {
		p := s.Progs[gp.Prog]
		v := p.Vers[gp.Vers]
		constWant("program", p.Name, p.Num)
		constWant("version", v.Name, v.Num)
		regs := gp.Regs(rec)
		seen := map[key]int{}
		for _, x := range regs {
			seen[key{x.Prog, x.Vers, x.Proc}]++
		}
		for i := range v.Procs {
			c := &v.Procs[i]
			constWant("proc", c.Name, c.Num)
			k := key{p.Num, v.Num, c.Num}
			if seen[k] != 1 {
				m.Violation("registration", "%sprocedure %s %v is registered %d times", where(), c.Name, k, seen[k])
			}
			delete(seen, k)
			procs[k] = c
			order = append(order, k)
		}
		for k := range seen {
			m.Violation("registration", "%sregistration of %v, which version %s does not declare", where(), k, v.Name)
		}
		if len(v.Procs) > 0 {
			progs[p.Num], verss[[2]uint32{p.Num, v.Num}] = true, true
		}
		srv.RegisterMany(regs)
		m.Count("versions", 1)
	}
	if len(order) == 0 {
		return
	}
	sort.Slice(order, func(i, j int) bool { return fmt.Sprint(order[i]) < fmt.Sprint(order[j]) })
	c := sim.NewConn()
	c.Chunk = chunker(r)
	go srv.Run(c)
	defer func() { c.End(io.EOF); sim.Quiesce() }()
	xid := uint32(100)
	type result struct {
		v    reflect.Value
		wire []byte
		over bool
	}
	prepare := func(t *ref.Type) (x result) {
		if t.K == ref.KVoid {
			return
		}
		x.v = g.newValue(t)
		gg := &ref.Gen{S: s, R: r, Budget: budget(r) / 4, Wild: true}
		gg.Fill(t, x.v)
		x.wire, _ = s.Encode(t, x.v)
		return
	}
	// exchange makes one call and returns what came of it
	exchange := func(k key, args []byte, results map[key]result) (rep reply, inv []recCall, ok bool) {
		rec.set = func(prog, vers, proc uint32, res reflect.Value) {
			if x := results[key{prog, vers, proc}]; x.v.IsValid() {
				res.Set(x.v)
			}
		}
		xid++
		before := len(c.Out())
		cl := call{xid: xid, rpcvers: 2, prog: k[0], vers: k[1], proc: k[2], args: args}
		c.Feed(record(cl.bytes()))
		sim.Quiesce()
		inv = rec.take()
		recs, rest, bad := records(c.Out()[before:])
		if len(recs) != 1 || len(rest) > 0 || bad != "" {
			m.Violation("reply", "%scall of %v: %d replies, %d stray bytes", where(), k, len(recs), len(rest))
			return
		}
		rep, ok = parseReply(recs[0])
		if !ok || rep.xid != xid || rep.denied {
			m.Violation("reply", "%scall of %v: malformed or denying reply %x", where(), k, clip(recs[0]))
			return rep, inv, false
		}
		return rep, inv, true
	}
	results := map[key]result{}
	fresh := func() {
		for k, p := range procs {
			results[k] = prepare(p.Res)
		}
	}
	fresh()
	for round := 0; round < m.N(6, 25); round++ {
		for _, k := range order {
			if m.Violations() > 6 {
				return
			}
			p := procs[k]
			m.Case(fmt.Sprintf("%s %s round %d", g.ID, p.Name, round))
			if r.Intn(3) == 0 {
				fresh()
			}
			var arg reflect.Value
			var wire []byte
			if p.Arg.K != ref.KVoid {
				arg = g.newValue(p.Arg)
				gg := &ref.Gen{S: s, R: r, Budget: budget(r) / 4, Wild: true}
				gg.Fill(p.Arg, arg)
				wire, _ = s.Encode(p.Arg, arg)
			}
			what := fmt.Sprintf("%scall of %s %v with %x", where(), p.Name, k, clip(wire))
			rep, inv, ok := exchange(k, wire, results)
			m.Eval(append([]byte(fmt.Sprint(g.ID, os.Getenv("VERIF_CHILD_NAME"), k)), wire...), true)
			m.Count("calls", 1)
			if !ok {
				continue
			}
			if len(inv) != 1 || inv[0].id != k {
				m.Violation("dispatch", "%s invoked %d procedures: %v", what, len(inv), ids(inv))
				continue
			}
			if arg.IsValid() != inv[0].arg.IsValid() {
				m.Violation("argument", "%s: argument given %v", what, inv[0].arg.IsValid())
			} else if arg.IsValid() {
				if d := s.Diff(p.Arg, arg, inv[0].arg); d != "" {
					m.Violation("argument", "%s: the procedure was given another argument: difference at %s", what, d)
				}
			}
			if rep.stat != 0 || !bytes.Equal(rep.results, results[k].wire) {
				m.Violation("result", "%s: reply status %d with %x, want %x", what, rep.stat, clip(rep.results), clip(results[k].wire))
			}
			// arguments that cannot be decoded
			if p.Arg.K != ref.KVoid {
				var bads [][]byte
				for i := 0; i < 3; i++ {
					b := mutate(wire, r)
					if len(wire) > 0 && r.Intn(2) == 0 {
						b = wire[:r.Intn(len(wire))]
					}
					bads = append(bads, b)
				}
				for _, b := range bads {
					d := &ref.Dec{S: s, In: b}
					d.Decode(p.Arg, g.newValue(p.Arg))
					if d.Err == nil {
						continue
					}
					m.Count("undecodable_arguments", 1)
					rep, inv, ok := exchange(k, b, results)
					m.Eval(append([]byte(fmt.Sprint(g.ID, os.Getenv("VERIF_CHILD_NAME"), k, "bad")), b...), true)
					if ok && (rep.stat != 4 || len(rep.results) > 0 || len(inv) > 0) {
						m.Violation("undecodable", "%scall of %s %v with undecodable %x: status %d, %d result bytes, invoked %v", where(), p.Name, k, clip(b), rep.stat, len(rep.results), ids(inv))
					}
				}
			}
			// numbers next to declared ones
			if round < 3 {
				for _, nk := range []key{{k[0], k[1], k[2] + 1}, {k[0], k[1], k[2] - 1}, {k[0], k[1] + 1, k[2]}, {k[0], k[1] - 1, k[2]}, {k[0] + 1, k[1], k[2]}, {k[2], k[1], k[0]}, {k[0], k[2], k[1]}} {
					if procs[nk] != nil {
						continue
					}
					rep, inv, ok := exchange(nk, wire, results)
					want := uint32(1)
					if verss[[2]uint32{nk[0], nk[1]}] {
						want = 3
					} else if progs[nk[0]] {
						want = 2
					}
					m.Count("undeclared_numbers", 1)
					if ok && (rep.stat != want || len(inv) > 0) {
						m.Violation("dispatch", "%scall of undeclared %v: status %d, want %d, invoked %v", where(), nk, rep.stat, want, ids(inv))
					}
				}
			}
			// results over a limit are no success
			if p.Res.K == ref.KRef && round == 0 {
				for _, st := range s.Sites(p.Res, 1, ref.Bounded) {
					if st.T.N > 5000 {
						continue
					}
					v := g.newValue(p.Res)
					gg := &ref.Gen{S: s, R: r, Budget: 60, Path: st.Path}
					gg.At = func(t *ref.Type, rv reflect.Value) bool { gg.FillLen(t, rv, int(t.N)+1); return true }
					gg.Fill(p.Res, v)
					rep, inv, ok := exchange(k, wire, map[key]result{k: {v: v}})
					m.Count("results_over_a_limit", 1)
					if ok && (rep.stat == 0 || len(rep.results) > 0 || len(inv) != 1) {
						m.Violation("result", "%s: result over the limit at %s: status %d, %d result bytes", what, st.Name, rep.stat, len(rep.results))
					}
					break
				}
			}
			if round == 0 {
				m.Sample(map[string]any{"package": g.ID, "procedure": p.Name, "number": k, "argument": ref.Hex(wire), "result": ref.Hex(results[k].wire)})
			}
		}
	}
	// through the library's own client, several calls on one connection
	a, b := sim.Pair()
	done := make(chan bool)
	go func() { srv.Run(b); close(done) }()
	for _, k := range order {
		p := procs[k]
		cl := rfc1057.MakeClient(a, k[0], k[1])
		fresh()
		rec.set = func(prog, vers, proc uint32, res reflect.Value) {
			if x := results[key{prog, vers, proc}]; x.v.IsValid() {
				res.Set(x.v)
			}
		}
		mk := func(t *ref.Type) (xdr.Xdrable, reflect.Value) {
			switch t.K {
			case ref.KRef:
				v := g.newValue(t)
				return v.Addr().Interface().(xdr.Xdrable), v
			case ref.KVoid:
				return &xdr.Void{}, reflect.Value{}
			}
			u := primUnit[t.K]()
			return u.X, u.RV
		}
		ax, av := mk(p.Arg)
		rx, rv := mk(p.Res)
		if av.IsValid() {
			gg := &ref.Gen{S: s, R: r, Budget: 300, Wild: true}
			gg.Fill(p.Arg, av)
		}
		err := cl.Call(k[2], rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, ax, rx)
		inv := rec.take()
		m.Count("client_calls", 1)
		if err != nil || len(inv) != 1 || inv[0].id != k {
			m.Violation("client", "%sclient call of %s %v: %v, invoked %v", where(), p.Name, k, err, ids(inv))
			break
		}
		if av.IsValid() {
			if d := s.Diff(p.Arg, av, inv[0].arg); d != "" {
				m.Violation("client", "%sclient call of %s: argument differs at %s", where(), p.Name, d)
			}
		}
		if rv.IsValid() {
			if d := s.Diff(p.Res, results[k].v, rv); d != "" {
				m.Violation("client", "%sclient call of %s: result differs at %s", where(), p.Name, d)
			}
		}
	}
	a.Close()
	<-done
}

// genOverlap makes many calls of a package's procedures run together on
// several connections: every procedure must be given the arguments of one of
// the calls made, and every reply must carry the results made for its call's
// arguments. With raced set, transports and procedures synchronise nothing and
// only the race detector judges.
func genOverlap(m *mon.M, g genPkg, r *rand.Rand, raced bool) (calls int) {
	s := g.spec()
	type key = [3]uint32
	type want struct {
		v    reflect.Value
		wire []byte
	}
	var order []key
	procs := map[key]*ref.Proc{}
	rec := &recorder{}
	srv := rfc1057.MakeServer()
	for _, gp := range g.Progs {
		p := s.Progs[gp.Prog]
		v := p.Vers[gp.Vers]
		for i := range v.Procs {
			k := key{p.Num, v.Num, v.Procs[i].Num}
			procs[k] = &v.Procs[i]
			order = append(order, k)
		}
		srv.RegisterMany(gp.Regs(rec))
	}
	if len(order) == 0 {
		return
	}
	sort.Slice(order, func(i, j int) bool { return fmt.Sprint(order[i]) < fmt.Sprint(order[j]) })
	order = append(order[:0:0], order...)
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	order = order[:min(len(order), 1+r.Intn(6))] // several calls of each
	fill := func(t *ref.Type) (x want) {
		if t.K == ref.KVoid {
			return
		}
		x.v = g.newValue(t)
		gg := &ref.Gen{S: s, R: r, Budget: []int{20, 200, 1000}[r.Intn(3)], Wild: true}
		gg.Fill(t, x.v)
		x.wire, _ = s.Encode(t, x.v)
		return
	}
	table := map[string]want{}
	type sent struct {
		k key
		w want
	}
	id := func(k key, wire []byte) string { return fmt.Sprint(k) + string(wire) }
	nconn, n := 1+r.Intn(4), 20+r.Intn(60)
	conns := make([]map[uint32]sent, nconn)
	ins := make([][]byte, nconn)
	for i := 0; i < n; i++ {
		k, c := order[r.Intn(len(order))], r.Intn(nconn)
		a := fill(procs[k].Arg)
		if _, ok := table[id(k, a.wire)]; !ok {
			table[id(k, a.wire)] = fill(procs[k].Res)
		}
		if conns[c] == nil {
			conns[c] = map[uint32]sent{}
		}
		xid := uint32(1000 + i)
		conns[c][xid] = sent{k, table[id(k, a.wire)]}
		cl := call{xid: xid, rpcvers: 2, prog: k[0], vers: k[1], proc: k[2], args: a.wire}
		ins[c] = append(ins[c], record(cl.bytes())...)
		if !raced {
			m.Eval(append([]byte(fmt.Sprint(g.ID, os.Getenv("VERIF_CHILD_NAME"), "overlap", k)), a.wire...), true)
		}
	}
	gated := !raced && r.Intn(4) > 0
	gate := make(chan bool)
	var mu sync.Mutex
	var strange []string
	invoked := 0
	rec.over = func(k key, arg, res reflect.Value) {
		look := func() (x want, ok bool) {
			var wire []byte
			if arg.IsValid() {
				wire, _ = s.Encode(procs[k].Arg, arg)
			}
			if x, ok = table[id(k, wire)]; !ok && !raced {
				mu.Lock()
				strange = append(strange, fmt.Sprintf("%s %v was given an argument nobody sent: %x", procs[k].Name, k, clip(wire)))
				mu.Unlock()
			}
			return
		}
		x, _ := look()
		if gated {
			<-gate
		}
		runtime.Gosched()
		if x, _ = look(); x.v.IsValid() {
			res.Set(x.v)
		}
		if !raced {
			mu.Lock()
			invoked++
			mu.Unlock()
		}
	}
	if raced {
		var wg sync.WaitGroup
		base := runtime.NumGoroutine()
		for _, in := range ins {
			wg.Add(1)
			c := &loose{in: in, r: rand.New(rand.NewSource(r.Int63())), tail: io.EOF, limit: []int{100, 4000, 1 << 20}[r.Intn(3)]}
			go func() { defer wg.Done(); srv.Run(c) }()
		}
		wg.Wait()
		drain(base)
		return n
	}
	defer procs8()()
	var cc []*sim.Conn
	for _, in := range ins {
		c := sim.NewConn()
		c.Chunk = chunker(r)
		c.Feed(in)
		cc = append(cc, c)
	}
	for _, c := range cc {
		go srv.Run(c)
	}
	if gated {
		sim.Quiesce()
		close(gate)
	}
	sim.Quiesce()
	mu.Lock()
	defer mu.Unlock()
	for _, x := range strange {
		m.Violation("argument", "%swith %d calls running together %s", g.describe(), n, x)
		break
	}
	if invoked != n {
		m.Violation("dispatch", "%s%d calls made together invoked procedures %d times", g.describe(), n, invoked)
	}
	for i, c := range cc {
		recs, rest, bad := records(c.Out())
		if len(recs) != len(conns[i]) || len(rest) > 0 || bad != "" {
			m.Violation("reply", "%s%d replies to %d calls made together, %d stray bytes %s", g.describe(), len(recs), len(conns[i]), len(rest), bad)
		}
		for _, b := range recs {
			rep, ok := parseReply(b)
			x, mine := conns[i][rep.xid]
			if !ok || !mine || rep.denied || rep.stat != 0 {
				m.Violation("reply", "%sbad reply to one of %d calls made together: %x", g.describe(), n, clip(b))
				break
			}
			delete(conns[i], rep.xid)
			if !bytes.Equal(rep.results, x.w.wire) {
				m.Violation("result", "%s%s %v, called together with others: results %x, want %x", g.describe(), procs[x.k].Name, x.k, clip(rep.results), clip(x.w.wire))
				break
			}
		}
		c.End(io.EOF)
	}
	sim.Quiesce()
	m.Count("overlapping_calls", int64(n))
	if gated {
		m.Max("most_procedures_held_together", int64(n))
	}
	return n
}

func procs8() func() { return procs(8) }

var primUnit = map[ref.Kind]func() units.Inst{}

func init() {
	for _, u := range units.Primitives() {
		switch n := strings.TrimPrefix(u.Name, "xdr."); n {
		case "Bool", "Int32", "Uint32", "Int64", "Uint64":
			primUnit[u.T.K] = u.Make
		}
	}
}

func ids(c []recCall) (l [][3]uint32) {
	for _, x := range c {
		l = append(l, x.id)
	}
	return
}

func TestC20(t *testing.T) {
	run(t, "C20", "stubs of the shipped programs (NFS, MOUNT, portmapper) and of random program definitions (versions, numbers anywhere in 32 bits, void, built-in and generated argument and result types) linked with recording implementations and called over the server with valid, undecodable and undeclared calls; the log of invocations, arguments and replies compared with the specification; non-trivial: every call, distinct by procedure and argument bytes", func(m *mon.M) {
		work := os.Getenv("VERIF_WORK")
		probes(m, work)
		r := rng(m, "specs")
		var shipped []*genSpec
		for _, p := range []string{"rfc1057", "rfc1813"} {
			shipped = append(shipped, &genSpec{id: p, text: units.SpecText(p), s: units.Spec(p), pkg: "github.com/zeldovich/go-rpcgen/" + p})
		}
		nb, per := m.N(4, 30), m.N(8, 12)
		k := 0
		batches := make([][]*genSpec, nb+1)
		batches[nb] = shipped
		for b := 0; b < nb; b++ {
			for i := 0; i < per; i++ {
				batches[b] = append(batches[b], randSpec(r, fmt.Sprintf("p%d", k), allOpts[k%len(allOpts)], 3+r.Intn(8), true))
				k++
			}
		}
		parallel(nb+1, 4, func(b int) {
			if m.Violations() < 10 {
				genBatch(m, work, fmt.Sprintf("batch%d", b), "progs", batches[b], true, true)
			}
		})
	})
}

// C04 for servers, clients and newly generated code.

func TestC04(t *testing.T) {
	defer quietStderr()()
	run(t, "C04", "bytes allocated (runtime counters) by each decode of messages whose length words announce up to 2^32-1, by the server and client for records announcing up to 2^31-1 bytes of which few or some arrive, and by newly generated code; bound: a constant plus a per-type factor of the bytes supplied; non-trivial: every hostile input, distinct by type and bytes", func(m *mon.M) {
		codecAlloc(m, units.All())
		recordAlloc(m)
		work := os.Getenv("VERIF_WORK")
		r := rng(m, "specs")
		var specs []*genSpec
		for i, x := range torture {
			s, err := ref.Parse(x)
			if err != nil {
				panic(err)
			}
			specs = append(specs, &genSpec{id: fmt.Sprintf("t%d", i), text: x, s: s})
		}
		for i := 0; i < m.N(6, 60); i++ {
			specs = append(specs, randSpec(r, fmt.Sprintf("p%d", i), allOpts[i%len(allOpts)], 6, false))
		}
		var ok []*genSpec
		for _, g := range specs { // what does not generate or compile is C19's concern
			if g.generate(work) == 0 {
				ok = append(ok, g)
			}
		}
		bin, _, good := driver(work, "alloc", ok, false, false)
		if len(good) > 0 {
			runChild(m, bin, "TestHelperGen", "alloc", work, "alloc", "")
		}
		m.Count("generated_packages", int64(len(good)))
	})
}

// short supplies some bytes and then ends.
type short struct {
	in  []byte
	max int
}

func (s *short) Read(p []byte) (int, error) {
	if len(s.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, s.in)
	if s.max > 0 && n > s.max {
		n = s.max
	}
	s.in = s.in[n:]
	return n, nil
}
func (s *short) Write(p []byte) (int, error) { return len(p), nil }

// recordAlloc measures servers and clients receiving records.
func recordAlloc(m *mon.M) {
	r := rng(m, "records")
	srv := rfc1057.MakeServer()
	lim := func(n int) int64 { return 8<<20 + 16*int64(n) }
	for i := 0; i < m.N(120, 1200); i++ {
		announced := []uint32{0x7fffffff, 0x40000000, 1 << 28, 1 << 26, uint32(r.Int31())}[r.Intn(5)]
		given := []int{0, 1, 3, 100, 4096, 70000, 1 << 20, 3<<20 + 1}[r.Intn(8)]
		if r.Intn(10) > 0 && given > 1<<17 {
			given = r.Intn(5000)
		}
		if uint32(given) >= announced {
			continue
		}
		body := make([]byte, given)
		r.Read(body)
		m.Case(fmt.Sprintf("record announcing %d, %d supplied", announced, given))
		mk := func() *short {
			return &short{append(be(nil, 1<<31|announced), body...), []int{0, 0, 1000, 7000}[r.Intn(4)]}
		}
		a := allocated(func() { srv.Run(mk()) })
		if a > lim(given) {
			m.Violation("server", "a record announcing %d bytes of which %d arrive makes the server allocate %d bytes", announced, given, a)
		}
		m.Max("largest_server_allocation", a)
		cl := rfc1057.MakeClient(mk(), 1, 1)
		a = allocated(func() { cl.Call(0, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, &xdr.Void{}) })
		if a > lim(given) {
			m.Violation("client", "a reply announcing %d bytes of which %d arrive makes the client allocate %d bytes", announced, given, a)
		}
		m.Max("largest_client_allocation", a)
		m.Eval([]byte(fmt.Sprint(announced, given)), true)
		m.Count("records", 2)
		m.Sample(map[string]any{"announced": announced, "supplied": given, "allocated_by_client": a})
		if m.Violations() > 5 {
			return
		}
	}
	// large records received before, by other connections, do not count
	for _, n := range []int{6 << 20, 40 << 20, m.N(100<<20, 400<<20)} {
		big := record(call{xid: 1, rpcvers: 2, prog: 77, args: make([]byte, n)}.bytes())
		for i := 0; i < 3; i++ {
			srv.Run(&short{big, 0})
			sim.Quiesce()
		}
		rep := record(reply{xid: 1, results: opaqueBytes(nil, make([]byte, n))}.bytes())
		rfc1057.MakeClient(&short{rep, 0}, 1, 1).Call(0, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, &opq{})
		for i := 0; i < 6; i++ {
			given := r.Intn(5000)
			in := append(be(nil, []uint32{0xffffffff, 1<<31 | uint32(n) - 100}[i%2]), make([]byte, given)...)
			a := allocated(func() { srv.Run(&short{in, 0}) })
			if a > lim(given) {
				m.Violation("server", "after records of %d bytes on other connections, a record announcing %x of which %d bytes arrive makes the server allocate %d bytes", n, in[:4], given, a)
			}
			cl := rfc1057.MakeClient(&short{in, 0}, 1, 1)
			a = allocated(func() { cl.Call(0, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, &xdr.Void{}) })
			if a > lim(given) {
				m.Violation("client", "after a reply of %d bytes to another client, a reply announcing %x of which %d bytes arrive makes the client allocate %d bytes", n, in[:4], given, a)
			}
			m.Count("records", 2)
			m.Count("announced_after_large_ones", 2)
			m.Eval([]byte(fmt.Sprint("after", n, i)), true)
		}
	}
	// many connections each announcing much
	a := allocated(func() {
		for i := 0; i < 50; i++ {
			srv.Run(&short{append(be(nil, 0xffffffff), 1, 2, 3), 0})
		}
	})
	if a > 50*lim(3) {
		m.Violation("server", "50 connections announcing 2 GB make the server allocate %d bytes", a)
	}
	// whole records with hostile lengths inside, through a server's decoding of
	// the call header and arguments, and a client's decoding of the reply
	u := units.ByName("rfc1813", "WRITE3args")
	res := units.ByName("rfc1813", "READDIRPLUS3res")
	for i := 0; i < m.N(60, 600); i++ {
		srv := rfc1057.MakeServer()
		srv.Register(9, 1, 1, func(args *xdr.XdrState) (xdr.Xdrable, error) {
			x := u.Make()
			x.X.Xdr(args)
			return nil, args.Error()
		})
		b, _ := u.S.Encode(u.T, value(u, r, 300, false, nil).RV)
		rec := call{xid: 1, rpcvers: 2, prog: 9, vers: 1, proc: 1, args: b}.bytes()
		binary.BigEndian.PutUint32(rec[r.Intn(len(rec)/4)*4:], []uint32{1 << 24, 0x7fffffff, 0xffffffff, 0xfffffffc}[r.Intn(4)])
		a := allocated(func() {
			srv.Run(&short{record(rec), 0})
			sim.Quiesce()
		})
		if a > lim(len(rec)) {
			m.Violation("server", "the call record %x makes the server allocate %d bytes", clip(rec), a)
		}
		rb, _ := res.S.Encode(res.T, value(res, r, 300, false, nil).RV)
		rep := reply{xid: 1, results: rb}.bytes()
		binary.BigEndian.PutUint32(rep[r.Intn(len(rep)/4)*4:], []uint32{1 << 24, 0x7fffffff, 0xffffffff}[r.Intn(3)])
		cl := rfc1057.MakeClient(&short{record(rep), 0}, 9, 1)
		out := res.Make()
		a = allocated(func() { cl.Call(1, rfc1057.Opaque_auth{}, rfc1057.Opaque_auth{}, &xdr.Void{}, out.X) })
		if a > lim(len(rep)) {
			m.Violation("client", "the reply record %x makes the client allocate %d bytes", clip(rep), a)
		}
		m.Eval(append(rec, rep...), true)
		m.Count("records", 2)
	}
}

var _ = rand.New
