package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"verifharness/mon"
	"verifharness/ref"
	"verifharness/specgen"
	"verifharness/units"

	"github.com/zeldovich/go-rpcgen/xdr"
)

// This file runs the generator and links what it produced into new copies of
// the test binary, in which the codec and dispatch checks run on it.

// genOpts are generator options that do not change the wire format.
type genOpts struct {
	Unsigned  bool
	ConstType string
	Split     bool
}

func (o genOpts) String() string {
	return fmt.Sprintf("unsigned-enum=%v const-type=%q types-file=%v", o.Unsigned, o.ConstType, o.Split)
}

var allOpts = func() (l []genOpts) {
	for _, u := range []bool{false, true} {
		for _, c := range []string{"", "uint32", "uint64", "int64"} {
			for _, s := range []bool{false, true} {
				l = append(l, genOpts{u, c, s})
			}
		}
	}
	return
}()

// genSpec is one specification and where its output goes.
type genSpec struct {
	id   string
	text string
	o    genOpts
	s    *ref.Spec
	dir  string
	pkg  string // import path if not generated
	out  string // generator messages
}

func (g *genSpec) describe() string {
	return fmt.Sprintf("specification (%v):\n%s\n", g.o, g.text)
}

// genCPU is how much processor time one run of the generator may take; the
// largest input any check has takes well under a second.
const genCPU = 12

var genHung atomic.Int64

// runGen runs the generator, or what becomes it, and whether it had to be
// stopped.
func runGen(cmd *exec.Cmd) (code int, out string, stuck bool) {
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if cmd.SysProcAttr == nil {
		cmd.SysProcAttr = &syscall.SysProcAttr{}
	}
	cmd.SysProcAttr.Pdeathsig = syscall.SIGKILL
	runtime.LockOSThread() // the thread must not end before the process
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		fmt.Println("CHECK ERROR: cannot run the generator:", err)
		os.Exit(3)
	}
	lim := func(what int, n uint64) {
		l := syscall.Rlimit{Cur: n, Max: n}
		syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(cmd.Process.Pid), uintptr(what), uintptr(unsafe.Pointer(&l)), 0, 0, 0)
	}
	lim(syscall.RLIMIT_CPU, genCPU)
	lim(syscall.RLIMIT_AS, 4<<30)
	var late atomic.Bool
	t := time.AfterFunc(4*time.Minute, func() { late.Store(true); cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	out = b.String()
	if err == nil {
		return 0, out, false
	}
	e, ok := err.(*exec.ExitError)
	if !ok {
		fmt.Println("CHECK ERROR: cannot run the generator:", err)
		os.Exit(3)
	}
	if late.Load() || e.UserTime()+e.SystemTime() >= (genCPU-2)*time.Second {
		genHung.Add(1)
		return -1, clipText(out, 4000) + "\n(did not end, and was stopped)\n", true
	}
	return e.ExitCode(), out, false
}

// generator runs the generator.
func generator(dir string, args ...string) (code int, out string) {
	return generatorEnv(dir, nil, args...)
}

// generatorEnv runs the generator with an environment, if one is given.
func generatorEnv(dir string, env []string, args ...string) (code int, out string) {
	if genHung.Load() >= 3 {
		return -1, "(not run: three runs before did not end)\n"
	}
	cmd := exec.Command(os.Getenv("VERIF_GEN"), args...)
	cmd.Dir, cmd.Env = dir, env
	code, out, _ = runGen(cmd)
	return
}

func (g *genSpec) args() []string {
	a := []string{"-i", filepath.Join(g.dir, "prot.x"), "-o", filepath.Join(g.dir, "xdr.go"), "-p", g.id}
	if g.o.Split {
		a = append(a, "-t", filepath.Join(g.dir, "types.go"))
	}
	if g.o.Unsigned {
		a = append(a, "-unsigned-enum")
	}
	if g.o.ConstType != "" {
		a = append(a, "-const-type", g.o.ConstType)
	}
	return a
}

// generate makes a package from a specification.
func (g *genSpec) generate(work string) (code int) {
	g.dir = filepath.Join(work, g.id)
	os.MkdirAll(g.dir, 0777)
	os.WriteFile(filepath.Join(g.dir, "prot.x"), []byte(g.text), 0666)
	code, g.out = generator(g.dir, g.args()...)
	return code
}

func (g *genSpec) files() []string {
	if g.o.Split {
		return []string{"xdr.go", "types.go"}
	}
	return []string{"xdr.go"}
}

func (g *genSpec) importPath() string {
	if g.pkg != "" {
		return g.pkg
	}
	return "verifharness/gen/" + g.id
}

func upperFirst(s string) bool { return s[0] >= 'A' && s[0] <= 'Z' }

// goType is how a procedure's argument or result is declared.
func goType(id string, t *ref.Type) string {
	switch t.K {
	case ref.KInt:
		return "int32"
	case ref.KUint:
		return "uint32"
	case ref.KHyper:
		return "int64"
	case ref.KUhyper:
		return "uint64"
	case ref.KBool:
		return "bool"
	case ref.KRef:
		return id + "." + ref.GoName(t.Ref)
	}
	panic("type of procedure")
}

// glue writes the test file that registers a generated package.
func (g *genSpec) glue(consts, progs bool) string {
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, f, a...) }
	p("package checks\n\nimport (\n\t\"reflect\"\n\t%s %q\n)\n\n", g.id, g.importPath())
	if progs {
		for _, pr := range g.s.Progs {
			for _, v := range pr.Vers {
				tn := fmt.Sprintf("impl_%s_%s_%s", g.id, pr.Name, v.Name)
				p("type %s struct{ r *recorder }\n", tn)
				for _, c := range v.Procs {
					arg, res, av, rv := "", "", "reflect.Value{}", "reflect.Value{}"
					if c.Arg.K != ref.KVoid {
						arg, av = "a "+goType(g.id, c.Arg), "reflect.ValueOf(&a).Elem()"
					}
					if c.Res.K != ref.KVoid {
						res, rv = "(res "+goType(g.id, c.Res)+")", "reflect.ValueOf(&res).Elem()"
					}
					p("func (x *%s) %s(%s) %s { x.r.call(%d, %d, %d, %s, %s); return }\n", tn, ref.GoName(c.Name), arg, res, pr.Num, v.Num, c.Num, av, rv)
				}
			}
		}
	}
	p("func init() {\n\taddGen(genPkg{ID: %q, Text: %q, Opts: %q,\n\tTypes: map[string]reflect.Type{\n", g.id, g.text, g.o.String())
	for _, n := range g.s.Order {
		p("\t%q: reflect.TypeOf((*%s.%s)(nil)).Elem(),\n", n, g.id, ref.GoName(n))
	}
	p("\t},\n\tConsts: map[string]int64{\n")
	if consts {
		for n := range g.s.Consts {
			if n == "TRUE" || n == "FALSE" {
				continue
			}
			gn := n
			if _, item := g.s.EnumOf[n]; item {
				gn = ref.GoName(n)
			}
			if upperFirst(gn) {
				p("\t%q: int64(%s.%s),\n", n, g.id, gn)
			}
		}
		for _, pr := range g.s.Progs {
			p("\t%q: int64(%s.%s),\n", "program "+pr.Name, g.id, ref.GoName(pr.Name))
			for _, v := range pr.Vers {
				p("\t%q: int64(%s.%s),\n", "version "+v.Name, g.id, ref.GoName(v.Name))
				for _, c := range v.Procs {
					p("\t%q: int64(%s.%s),\n", "proc "+c.Name, g.id, ref.GoName(c.Name))
				}
			}
		}
	}
	p("\t},\n\tConstTypes: map[string]string{\n")
	if consts {
		for n := range g.s.Consts {
			if _, item := g.s.EnumOf[n]; !item && n != "TRUE" && n != "FALSE" && upperFirst(n) {
				p("\t%q: reflect.TypeOf(%s.%s).String(),\n", n, g.id, n)
			}
		}
	}
	p("\t},\n\tProgs: []genProg{\n")
	if progs {
		for i, pr := range g.s.Progs {
			for j, v := range pr.Vers {
				gn := ref.GoName(pr.Name) + "_" + ref.GoName(v.Name)
				p("\t{%d, %d, func(r *recorder) []xdrReg { return %s.%s_regs(&impl_%s_%s_%s{r}) }},\n", i, j, g.id, gn, g.id, pr.Name, v.Name)
			}
		}
	}
	p("\t}})\n}\n")
	return b.String()
}

type xdrReg = xdr.ProcRegistration

// genProg is one version of a program of a generated package.
type genProg struct {
	Prog, Vers int // indices in the specification
	Regs       func(r *recorder) []xdrReg
}

type genPkg struct {
	ID, Text, Opts string
	Types          map[string]reflect.Type
	Consts         map[string]int64
	ConstTypes     map[string]string
	Progs          []genProg
}

func (g genPkg) spec() *ref.Spec {
	s, err := ref.Parse(g.Text)
	if err != nil {
		panic(err)
	}
	return s
}

func (g genPkg) units() (us []units.Unit) {
	s := g.spec()
	for _, n := range s.Order {
		us = append(us, units.Named(g.ID, s, n, g.Types[n]))
	}
	return
}

func (g genPkg) describe() string {
	return fmt.Sprintf("specification (%s):\n%s\n", g.Opts, g.Text)
}

var genPkgs []genPkg

func addGen(g genPkg) { genPkgs = append(genPkgs, g) }

var (
	pkgHead  = regexp.MustCompile(`(?m)^# (\S+)`)
	glueLine = regexp.MustCompile(`(?:zz_gen_(\w+)_test\.go|[a-z]+\d*_(\w+)\.glue):`)
)

// driver links packages into a copy of the test binary. Packages that do not
// compile, or lack something their specification declares, are left out and
// reported in bad.
func driver(work, name string, specs []*genSpec, consts, progs bool, flags ...string) (bin string, bad map[string]string, good []*genSpec) {
	root := os.Getenv("VERIF_ROOT")
	bad = map[string]string{}
	good = specs
	bin = filepath.Join(work, name+".bin")
	for round := 0; round < 20; round++ {
		if len(good) == 0 {
			return "", bad, nil
		}
		ov := map[string]string{}
		for _, g := range good {
			if g.pkg == "" {
				for _, f := range g.files() {
					ov[filepath.Join(root, "harness/gen", g.id, f)] = filepath.Join(g.dir, f)
				}
			}
			gf := filepath.Join(work, name+"_"+g.id+".glue")
			os.WriteFile(gf, []byte(g.glue(consts, progs)), 0666)
			ov[filepath.Join(root, "harness/checks", "zz_gen_"+g.id+"_test.go")] = gf
		}
		b, _ := json.Marshal(map[string]any{"Replace": ov})
		of := filepath.Join(work, name+".overlay.json")
		os.WriteFile(of, b, 0666)
		args := append([]string{"test", "-c", "-vet=off", "-modfile", os.Getenv("VERIF_MOD"), "-overlay", of, "-o", bin, "-gcflags=-e"}, flags...)
		cmd := exec.Command("go", append(args, "./checks")...)
		cmd.Dir = filepath.Join(root, "harness")
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
		out, err := cmd.CombinedOutput()
		if err == nil {
			return bin, bad, good
		}
		// which packages are to blame
		s := string(out)
		blame := map[string]string{}
		hs := pkgHead.FindAllStringSubmatchIndex(s, -1)
		for i, h := range hs {
			end := len(s)
			if i+1 < len(hs) {
				end = hs[i+1][0]
			}
			pkg, sec := s[h[2]:h[3]], s[h[0]:end]
			if strings.HasPrefix(pkg, "verifharness/gen/") {
				blame[strings.TrimPrefix(pkg, "verifharness/gen/")] = sec
			}
			for _, l := range strings.Split(sec, "\n") {
				if x := glueLine.FindStringSubmatch(l); x != nil && len(blame[x[1]+x[2]]) < 2000 {
					blame[x[1]+x[2]] += l + "\n"
				}
			}
		}
		var keep []*genSpec
		for _, g := range good {
			if e, ok := blame[g.id]; ok {
				bad[g.id] = e
			} else {
				keep = append(keep, g)
			}
		}
		if len(keep) == len(good) {
			fmt.Printf("CHECK ERROR: cannot build the driver: %v\n%.4000s\n", err, out)
			os.Exit(3)
		}
		good = keep
	}
	return "", bad, nil
}

// runChild runs a helper test of a driver and merges what it saw.
func runChild(m *mon.M, bin, helper, mode string, work, name string, prefix string) {
	res := filepath.Join(work, name+".result")
	cmd := exec.Command(bin, "-test.run", "^"+helper+"$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "VERIF_HELPER="+mode, "VERIF_CHILD_OUT="+res, "VERIF_CHILD_PROP="+m.Prop, "VERIF_CHILD_NAME="+name, "GOMAXPROCS=2")
	out, err := cmd.CombinedOutput()
	if e := m.Merge(res, prefix); e != nil {
		// it ended before it could report
		if i := bytes.Index(out, []byte("panic: ")); i >= 0 || bytes.Contains(out, []byte("fatal error: ")) {
			tail := out[max(i, 0):]
			if bytes.Contains(tail, []byte("verifharness/gen/")) || bytes.Contains(tail, []byte("github.com/zeldovich/go-rpcgen/")) {
				m.Violation("crash", "%sgenerated code or the library crashed: %.3000s", prefix, tail)
				return
			}
		}
		fmt.Printf("CHECK ERROR: driver %s ended with %v\n%.4000s\n", name, err, out)
		os.Exit(3)
	}
}

// parallel runs f for 0..n-1 on w goroutines.
func parallel(n, w int, f func(i int)) {
	var wg sync.WaitGroup
	next := make(chan int)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
}

// randSpec makes a specification that every correct generator must support.
func randSpec(r *rand.Rand, id string, o genOpts, ntypes int, progs bool) *genSpec {
	for {
		ds := specgen.Make(r, specgen.Opts{TypedConsts: o.ConstType != "", Types: ntypes, Progs: progs})
		text := specgen.Text(ds)
		s, err := ref.Parse(text)
		if err != nil {
			panic(fmt.Sprint(err, "\n", text))
		}
		return &genSpec{id: id, text: text, o: o, s: s}
	}
}

// TestHelperGen runs inside a driver.
func TestHelperGen(t *testing.T) {
	mode := os.Getenv("VERIF_HELPER")
	if os.Getenv("VERIF_CHILD_OUT") == "" {
		t.Skip("helper")
	}
	sort.Slice(genPkgs, func(i, j int) bool { return genPkgs[i].ID < genPkgs[j].ID })
	m := mon.NewChild(os.Getenv("VERIF_CHILD_PROP"), os.Getenv("VERIF_CHILD_OUT"))
	defer m.Finish()
	switch mode {
	case "codec":
		for _, g := range genPkgs {
			genCodec(m, g, 1)
		}
	case "codec-short":
		for _, g := range genPkgs {
			genCodec(m, g, 0)
			genDeclared(m, g)
		}
	case "alloc":
		for _, g := range genPkgs {
			codecAlloc(m, g.units())
		}
	case "progs":
		defer quietStderr()()
		for _, g := range genPkgs {
			genDispatch(m, g)
			r := rng(m, os.Getenv("VERIF_CHILD_NAME")+g.ID+"overlap")
			for i := 0; i < m.N(4, 20) && m.Violations() == 0; i++ {
				m.Case(fmt.Sprintf("%s overlap %d", g.ID, i))
				genOverlap(m, g, r, false)
			}
		}
	case "race":
		defer quietStderr()()
		for _, g := range genPkgs {
			r := rng(m, os.Getenv("VERIF_CHILD_NAME")+g.ID+"race")
			for i := 0; i < m.N(15, 60); i++ {
				m.Count("generated_calls", int64(genOverlap(m, g, r, true)))
				m.Eval([]byte(fmt.Sprint(g.ID, i)), true)
			}
			m.Count("generated_packages", 1)
		}
	case "diff":
		genDiffer(m)
	}
}

// genDeclared checks that enums and constants are declared with the types the
// options ask for.
func genDeclared(m *mon.M, g genPkg) {
	var o genOpts
	for _, x := range allOpts {
		if x.String() == g.Opts {
			o = x
		}
	}
	s := g.spec()
	want := reflect.Int32
	if o.Unsigned {
		want = reflect.Uint32
	}
	for n, t := range s.Types {
		if t.K == ref.KEnum && g.Types[n] != nil {
			m.Count("enum_types", 1)
			if k := g.Types[n].Kind(); k != want {
				m.Violation("enum-type", "enum %s is declared as %v; %s", n, k, g.describe())
				return
			}
		}
	}
	wantc := o.ConstType
	if wantc == "" {
		wantc = "int" // untyped
	}
	for n, t := range g.ConstTypes {
		m.Count("constant_types", 1)
		if t != wantc {
			m.Violation("const-type", "constant %s is declared as %s instead of %s; %s", n, t, wantc, g.describe())
			return
		}
	}
}

// genCodec checks the codecs of a generated package against its specification.
func genCodec(m *mon.M, g genPkg, effort int) {
	s := g.spec()
	before := m.Violations()
	r := rng(m, os.Getenv("VERIF_CHILD_NAME")+g.ID)
	for n, v := range g.Consts {
		if want, ok := s.Consts[n]; ok && v != want {
			m.Violation("const", "%sconstant %s is %d", g.describe(), n, v)
		}
	}
	m.Count("packages", 1)
	for _, u := range g.units() {
		m.Case(u.Name)
		n, _ := u.T, 0
		if err := s.Shape(n, g.Types[u.T.Ref], u.Name, map[string]bool{}); err != nil {
			m.Violation("shape", "%s%v", g.describe(), err)
			continue
		}
		m.Count("types", 1)
		var corpus [][]byte
		try := func(in units.Inst, what string) {
			keep := deepCopy(in.RV)
			want, werr := u.S.Encode(u.T, in.RV)
			var got []byte
			var err error
			safely(m, "panic", u.Name+" encoding", func() { got, err = encode(in.X) })
			if werr != nil {
				panic(werr)
			}
			if err != nil || !bytes.Equal(got, want) {
				m.Violation("encode", "%s %s: encoding %s\ngives %x (%v)\nwant  %x", u.Name, what, dump(in.RV), clip(got), err, clip(want))
				return
			}
			if d := u.S.Diff(u.T, keep, in.RV); d != "" {
				m.Violation("encode", "%s %s: encoding changed the value at %s", u.Name, what, d)
			}
			if len(corpus) < 40 || r.Intn(4) == 0 {
				corpus = append(corpus, want)
			}
			judgeDecode(m, u, append(append([]byte{}, want...), 0, 0, 0, 9), "valid")
			m.Eval(append([]byte(g.ID+os.Getenv("VERIF_CHILD_NAME")+u.Name), want...), len(want) > 4)
			m.Count("values", 1)
		}
		k := 1 + effort*2
		for i := 0; i < m.N(6, 20)*k; i++ {
			try(value(u, r, budget(r), true, nil), "random")
		}
		armVariants(u, r, func(in units.Inst, what string) { try(in, what) })
		if len(corpus) == 0 {
			continue
		}
		for i := 0; i < m.N(10, 40)*k; i++ {
			b := corpus[r.Intn(len(corpus))]
			switch r.Intn(3) {
			case 0:
				b = b[:r.Intn(len(b)+1)]
			default:
				b = mutate(b, r)
			}
			judgeDecode(m, u, b, "mutated")
			m.Eval(append([]byte(g.ID+os.Getenv("VERIF_CHILD_NAME")+u.Name), b...), true)
			m.Count("byte_strings", 1)
		}
		if effort > 0 {
			limitCases(m, u, r, 1, 20<<20)
			reuseCases(m, u, r, m.N(6, 20))
			if len(corpus) > 0 {
				m.Sample(map[string]string{"type": u.Name, "spec": clipText(g.Text, 1500), "encoding": ref.Hex(corpus[0])})
			}
		}
		if m.Violations() > before {
			m.Violation("in", "(violations above are of this specification)\n%s", g.describe())
			return
		}
	}
}

func clipText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// declared lists what Go source files declare at top level: name -> printed
// form, independent of order and file.
func declared(files []string) (fs *token.FileSet, af []*ast.File, err error) {
	fs = token.NewFileSet()
	for _, f := range files {
		a, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			return nil, nil, err
		}
		af = append(af, a)
	}
	return
}

// typeCheck type-checks generated files; the xdr package comes from source.
func typeCheck(path string, files []string, imp types.Importer) (*types.Package, error) {
	fs, af, err := declared(files)
	if err != nil {
		return nil, err
	}
	cfg := types.Config{Importer: imp}
	return cfg.Check(path, fs, af, nil)
}

// constants of a package by name.
func constants(p *types.Package) map[string]*types.Const {
	out := map[string]*types.Const{}
	for _, n := range p.Scope().Names() {
		if c, ok := p.Scope().Lookup(n).(*types.Const); ok {
			out[n] = c
		}
	}
	return out
}

var _ = constant.Int
var _ = importer.ForCompiler
