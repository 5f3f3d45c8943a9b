package checks

import (
	"bytes"
	"fmt"
	"go/ast"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"unsafe"

	"verifharness/mon"
	"verifharness/ref"
	"verifharness/specgen"
	"verifharness/units"
)

// snapshot is what a directory holds: path -> contents ("dir" for directories).
func snapshot(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			out[rel] = "dir"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[rel] = "link " + l
		default:
			b, _ := os.ReadFile(p)
			out[rel] = "file " + string(b)
		}
		return nil
	})
	return out
}

func snapDiff(a, b map[string]string) (l []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			l = append(l, k+" is gone")
		} else if v != w {
			l = append(l, fmt.Sprintf("%s changed from %d to %d bytes", k, len(v)-5, len(w)-5))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			l = append(l, k+" is new")
		}
	}
	sort.Strings(l)
	return
}

// genRun is one run of the generator in a directory of its own.
type genRun struct {
	src   string
	args  []string // besides -i; paths relative to the directory
	prior map[string]string
	fsize int // limit on file sizes, if > 0
	split bool
	input string                 // other than prot.x
	modes map[string]os.FileMode // if set, run by a user for whom these count
}

// unprivileged is who runs the generator where permissions are to count.
const unprivileged = 65534

type genResult struct {
	code   int
	out    string
	before map[string]string
	after  map[string]string
	dir    string
	stuck  bool
}

func (g *genRun) run(dir string) (res genResult) {
	os.MkdirAll(dir, 0777)
	in := "prot.x"
	if g.input != "" {
		in = g.input
	}
	os.WriteFile(filepath.Join(dir, "prot.x"), []byte(g.src), 0666)
	for k, v := range g.prior {
		p := filepath.Join(dir, k)
		if v == "dir" {
			os.MkdirAll(p, 0777)
			continue
		}
		os.MkdirAll(filepath.Dir(p), 0777)
		os.WriteFile(p, []byte(v), 0666)
	}
	if g.modes != nil {
		filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error { return os.Lchown(p, unprivileged, unprivileged) })
		for k, v := range g.modes {
			os.Chmod(filepath.Join(dir, k), v)
		}
	}
	res.dir = dir
	res.before = snapshot(dir)
	args := append([]string{}, g.args...)
	if in != "-" {
		args = append([]string{"-i", in}, args...)
	}
	var cmd *exec.Cmd
	if g.fsize > 0 {
		cmd = exec.Command(os.Args[0], append([]string{"-test.run", "^TestHelperLimit$", "--"}, args...)...)
		cmd.Env = append(os.Environ(), "VERIF_FSIZE="+strconv.Itoa(g.fsize))
	} else {
		cmd = exec.Command(os.Getenv("VERIF_GEN"), args...)
	}
	cmd.Dir = dir
	if g.modes != nil {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: unprivileged, Gid: unprivileged}}
	}
	res.code, res.out, res.stuck = runGen(cmd)
	res.after = snapshot(dir)
	return
}

// TestHelperLimit becomes the generator with a limit on the size of files, for
// which writes fail as they do on a full disk.
func TestHelperLimit(t *testing.T) {
	n, err := strconv.Atoi(os.Getenv("VERIF_FSIZE"))
	if err != nil {
		t.Skip("helper")
	}
	runtime.LockOSThread()
	set := uint64(1) << (uint(syscall.SIGXFSZ) - 1)
	if _, _, e := syscall.RawSyscall6(syscall.SYS_RT_SIGPROCMASK, 0, uintptr(unsafe.Pointer(&set)), 0, 8, 0, 0); e != 0 {
		fmt.Println("CHECK ERROR: sigprocmask:", e)
		os.Exit(99)
	}
	if e := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: uint64(n)}); e != nil {
		os.Exit(99)
	}
	var args []string
	for i, a := range os.Args {
		if a == "--" {
			args = os.Args[i+1:]
			break
		}
	}
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_FSIZE") {
			env = append(env, e)
		}
	}
	syscall.Exec(os.Getenv("VERIF_GEN"), append([]string{"go-rpcgen"}, args...), env)
	os.Exit(99)
}

// goNames is what Go files declare, and the identifiers used in each type.
func goNames(af []*ast.File) (top map[string]bool, inside map[string]map[string]bool) {
	top, inside = map[string]bool{}, map[string]map[string]bool{}
	for _, a := range af {
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						top[s.Name.Name] = true
						in := inside[s.Name.Name] // may be declared twice
						if in == nil {
							in = map[string]bool{}
						}
						ast.Inspect(s.Type, func(n ast.Node) bool {
							if f, ok := n.(*ast.Field); ok {
								for _, x := range f.Names {
									in[x.Name] = true
								}
							}
							return true
						})
						inside[s.Name.Name] = in
					case *ast.ValueSpec:
						for _, n := range s.Names {
							top[n.Name] = true
						}
					}
				}
			case *ast.FuncDecl:
				if d.Recv == nil {
					top[d.Name.Name] = true
				}
			}
		}
	}
	return
}

// ignored lists what output files lack of the definitions of a specification.
func ignored(defs []ref.Def, af []*ast.File) (l []string) {
	top, inside := goNames(af)
	need := func(kind, n string) {
		if !top[n] {
			l = append(l, kind+" "+n)
		}
	}
	for _, d := range defs {
		switch d.Kind {
		case "const":
			need("constant", d.Name)
		case "type":
			need("type", ref.GoName(d.Name))
			for _, i := range d.Items {
				need("enum item", ref.GoName(i))
			}
			if in := inside[ref.GoName(d.Name)]; in != nil {
				for _, n := range d.Names {
					if !in[ref.GoName(n)] {
						l = append(l, "field "+n+" of "+d.Name)
					}
				}
			}
		case "program":
			need("program", ref.GoName(d.Name))
			for _, v := range d.Vers {
				need("version", ref.GoName(v.Name))
				h := ref.GoName(d.Name) + "_" + ref.GoName(v.Name) + "_handler"
				need("handler", h)
				for _, p := range v.Procs {
					need("procedure", ref.GoName(p))
				}
			}
		}
	}
	return
}

// judge checks one run: must tells that it has to be refused.
func (g *genRun) judge(m *mon.M, res genResult, must bool, why string, defs []ref.Def, outs []string) {
	desc := func() string {
		return fmt.Sprintf("go-rpcgen -i %s %s (files before: %s)\n%s\nexit status %d: %s\n", orIs(g.input, "prot.x"), strings.Join(g.args, " "), keys(g.prior), clipText(g.src, 3000), res.code, clipText(res.out, 600))
	}
	if res.stuck {
		m.Violation("hang", "%sdid not end and was stopped", desc())
		return
	}
	if res.code != 0 {
		m.Count("refused", 1)
		if d := snapDiff(res.before, res.after); len(d) > 0 {
			m.Violation("touched", "%srefused, but %s", desc(), strings.Join(d, ", "))
		}
		return
	}
	if must {
		m.Violation("accepted", "%saccepted in spite of: %s", desc(), why)
		return
	}
	m.Count("accepted", 1)
	exp := map[string]string{}
	for k, v := range res.before {
		exp[k] = v
	}
	var files []string
	for _, o := range outs {
		exp[o] = res.after[o]
		files = append(files, filepath.Join(res.dir, o))
	}
	if d := snapDiff(exp, res.after); len(d) > 0 {
		m.Violation("extra", "%ssucceeded, but besides its outputs %s", desc(), strings.Join(d, ", "))
		return
	}
	_, af, err := declared(files)
	if err != nil {
		m.Violation("accepted", "%ssucceeded with output that is not Go: %v", desc(), err)
		return
	}
	if l := ignored(defs, af); len(l) > 0 {
		m.Violation("ignored", "%ssucceeded, but the output lacks %s", desc(), strings.Join(l, ", "))
	}
}

func orIs(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func keys(m map[string]string) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	if len(l) == 0 {
		return "none"
	}
	return strings.Join(l, " ")
}

var longText = strings.Repeat("// long\n", 40000)

// randRun picks options and prior files.
func randRun(r *rand.Rand, src string) (*genRun, []string) {
	g := &genRun{src: src, prior: map[string]string{}}
	o := []string{"xdr.go", "o/xdr.go", "x"}[r.Intn(3)]
	outs := []string{o}
	if strings.HasPrefix(o, "o/") {
		g.prior["o"] = "dir"
	}
	g.args = []string{"-o", o}
	if r.Intn(2) == 0 {
		t := []string{"types.go", "o/types.go"}[r.Intn(2)]
		if strings.HasPrefix(t, "o/") {
			g.prior["o"] = "dir"
		}
		g.args = append(g.args, "-t", t)
		outs = append(outs, t)
	}
	if r.Intn(2) == 0 {
		g.args = append(g.args, "-p", "some")
	}
	if r.Intn(3) == 0 {
		g.args = append(g.args, "-unsigned-enum")
	}
	if r.Intn(3) == 0 {
		g.args = append(g.args, "-const-type", "uint32")
	}
	if r.Intn(10) == 0 {
		g.args = append(g.args, "-d")
	}
	if r.Intn(3) > 0 {
		for _, f := range outs {
			if r.Intn(4) > 0 {
				g.prior[f] = []string{"package old\n\nvar X int\n", "not go", "", longText}[r.Intn(4)]
			}
		}
		if r.Intn(3) == 0 {
			g.prior["other.go"] = "package other\n"
		}
	}
	return g, outs
}

var vocabulary = []string{"const", "typedef", "enum", "struct", "union", "switch", "case", "default", "void", "string", "opaque", "unsigned", "int", "hyper", "float", "double",
	"quadruple", "bool", "program", "version", "=", ";", "<", ">", "[", "]", "{", "}", ",", ":", "(", ")", "*", "0", "3", "0x10", "089", "08", "0x", "1.5", "1e3", "7up", "'a'", `"str"`, "`r`",
	"#", "%", "$", "@", "?", "!", "&", "|", "^", "~", "/", "\\", ".", "-", "+", "-1", "<<", "<=", ":=", "==", "...", "<-", "++", "foo", "A_B", "TRUE", "/*", "*/", "//", "\x00", "\x01", "\"", "'", "`"}

// foreign are tokens of Go that XDR does not have, and XDR tokens likely to be
// taken for others.
var foreign = []string{"+", "-", "/", "%", "&", "|", "^", "<<", ">>", "&^", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "&^=", "&&", "||", "<-", "++", "--", "==", "!", "~", "!=", "<=", ">=", ":=", "...", ".",
	"1.5", "1e9", "2i", "'a'", "\"a\"", "`a`", "#", "$", "?", "@", "\\", "0b1", "0o7", "1_000", "0x1p4", "float", "*", ";", ",", ":", "(", ")", "{", "}", "[", "]", "<", ">", "=", "void", "case", "default", "3", "zz"}

func mutateTokens(toks []string, r *rand.Rand) []string {
	t := append([]string{}, toks...)
	for n := 1 + r.Intn(2)*r.Intn(3); n > 0 && len(t) > 1; n-- {
		i := r.Intn(len(t))
		switch r.Intn(8) {
		case 0, 1:
			t = append(t[:i], t[i+1:]...)
		case 2:
			t = append(t[:i], append([]string{t[i]}, t[i:]...)...)
		case 3:
			if i+1 < len(t) {
				t[i], t[i+1] = t[i+1], t[i]
			}
		case 4:
			t[i] = vocabulary[r.Intn(len(vocabulary))]
		case 5:
			t[i] = t[r.Intn(len(t))]
		case 6:
			t = append(t[:i], append([]string{vocabulary[r.Intn(len(vocabulary))]}, t[i:]...)...)
		case 7: // a stretch is lost
			j := min(len(t), i+1+r.Intn(6))
			t = append(t[:i], t[j:]...)
		}
	}
	return t
}

func mutateBytes(s string, r *rand.Rand) string {
	b := []byte(s)
	for n := 1 + r.Intn(3); n > 0 && len(b) > 0; n-- {
		i := r.Intn(len(b))
		switch r.Intn(4) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b = append(b[:i], append([]byte{byte(32 + r.Intn(95))}, b[i:]...)...)
		case 3:
			b[i] = "@#$%^&!?.'\"`\\~|+-/"[r.Intn(18)]
		}
	}
	return string(b)
}

// badSpecs must be refused. %s in a template is replaced by each unsupported
// type.
var badSpecs = []string{
	"struct s { int a }", "struct s { int a; }", "struct s int a;", "struct { int a; };", "struct s { int; };", "struct s { a; };", "struct s { int a b; };", "struct s { int a, b; };",
	"struct s { int a[]; };", "struct s { int a[2; };", "struct s { int a<2; };", "struct s { int a>2<; };", "struct s { opaque a; };", "struct s { string a; };", "struct s { string a[3]; };",
	"struct s { int *; };", "struct s { int * * a; };", "struct s { int *a[3]; };", "struct s { int *a<3>; };", "struct s { int a[2][3]; };", "struct s { int a<2><3>; };", "struct s { void a; };", "struct s { void * a; };",
	"struct s { unsigned a; };", "struct s { unsigned bool a; };", "struct s { unsigned float a; };", "struct s { unsigned; };", "struct s { opaque *a; };", "struct s { string *a<3>; };", "struct s { opaque a[2]<3>; };",
	"struct s { int a; } t;", "struct s;", "struct s { int case; };", "struct int { int a; };", "struct s { int 3a; };", "struct s { int a[3a]; };", "struct s { int a<08>; };", "struct s { int a<0x>; };", "struct s { int a<1.5>; };",
	"struct s { int a<'a'>; };", "struct s { int a<\"3\">; };", "struct s { int a[1+2]; };", "struct s { int a[(3)]; };", "struct s { struct { int b } a; };", "struct s { struct t { int b; } a; };",
	"enum e { };", "enum e { A };", "enum e { A, B };", "enum e { A = };", "enum e { A = 1, };", "enum e { A = 1 B = 2 };", "enum e { A = 1; };", "enum { A = 1 };", "enum e { = 1 };", "enum e { A = 1 }", "enum e { 1 = A };", "enum e { A = 1.0 };", "enum e { A = 'a' };",
	"const A = 1", "const A 1;", "const = 1;", "const A = ;", "const A = B;", "const 1 = A;", "const A == 1;", "const A = 1, B = 2;", "const A = 1.5;", "const A = \"s\";", "const A = 1 2;", "const A = (1);", "const A = 1+1;", "const A = 019;", "const A = 1x;", "const A = 0xg;",
	"union u switch (int d) { case 1: int a; default: void; }", "union u (int d) { case 1: int a; };", "union u switch int d { case 1: int a; };", "union u switch (int d) { int a; };", "union u switch (int d) { case 1 int a; };", "union u switch (int d) { case 1: };",
	"union u switch (int d) { case: int a; };", "union u switch (int d) { default: void; case 1: int a; };", "union u switch (int d) { case 1: int a; default: void; default: void; };", "union u switch (int d) { case 1, 2: int a; };", "union u switch (int d) { case 1: int a; int b; };",
	"union u switch (int d) { case 1: int a; default: };", "union u switch () { case 1: int a; };", "union u switch (int) { case 1: int a; };", "union u switch (int d) { case 1: case: int a; };", "union u switch (int d, int e) { case 1: int a; };", "union u { int a; };",
	"union u switch (int d) { case 1.5: int a; };", "union u switch (int d) { case 'a': int a; };", "union u switch (int d) { case \"a\": int a; };", "union u switch (int d) { default void; };",
	"typedef int;", "typedef a;", "typedef int a", "typedef struct s a b;", "typedef int a, b;", "typedef opaque o;", "typedef string s;", "typedef struct { int a };", "typedef int *;", "typedef unsigned a;",
	"program P { version V { void F(void) = 1; } = 1; } = 1", "program P { version V { void F(void) = 1; } = 1; };", "program P { version V { void F(void) = 1; } = 1 } = 1;", "program P { version V { void F(void) = 1; }; } = 1;", "program P { version V { void F(void); } = 1; } = 1;",
	"program P { version V { void F() = 1; } = 1; } = 1;", "program P { version V { F(void) = 1; } = 1; } = 1;", "program P { version V { void (void) = 1; } = 1; } = 1;", "program P { version V { void F(void) = X; } = 1; } = 1;", "program P { version V { void F(void) = 1; } = X; } = 1;",
	"program P { version V { void F(void) = 1; } = 1; } = X;", "program P { void F(void) = 1; } = 1;", "program { version V { void F(void) = 1; } = 1; } = 1;", "program P { version { void F(void) = 1; } = 1; } = 1;", "program P { version V { void F(void) = 1 } = 1; } = 1;",
	"program P { version V { void F(int, int) = 1; } = 1; } = 1;", "program P { version V { void F(int a) = 1; } = 1; } = 1;", "program P { version V { int *F(void) = 1; } = 1; } = 1;", "program P { version V { void F(string) = 1; } = 1; } = 1;", "program P { version V { opaque F(void) = 1; } = 1; } = 1;",
	"program P { version V { void F(struct { int a; }) = 1; } = 1; } = 1;", "program P { version V { struct { int a; } F(void) = 1; } = 1; } = 1;", "program P { version V { void F(union switch (int d) { case 1: int a; }) = 1; } = 1; } = 1;", "program P { version V { void F(enum { A = 1 }) = 1; } = 1; } = 1;",
	"program P { version V { void F(void) = 1.5; } = 1; } = 1;", "program P { version V { void F(void) = 09; } = 1; } = 1;",
	"int a;", ";", "}", "foo", "foo bar;", "1;", "struct s { int a; };;", "struct s { int a; }; }", "# define X 1\nstruct s { int a; };", "%#include <x.h>\nstruct s { int a; };", "struct s { int a; }; /* open", "/* open", "struct s { int a; }; */", "struct s { int a; /* x /* y */ */ };",
	"struct s { int a; }; \x00", "struct s { int a$; };", "struct s { int a?; };", "struct s { int a.b; };", "struct s { int \"a\"; };", "struct s { int a; }; 'x'", "struct s { int a; }; \"x", "struct s { int a; }; `x", "struct s { int a; }; \"x\"", "struct s -- comment\n{ int a; };", "struct s { int a; } /;", "import x;", "package x",
	"struct s { %s a; };", "struct s { %s a[3]; };", "struct s { %s a<>; };", "struct s { %s a<3>; };", "struct s { %s *a; };", "typedef %s a;", "typedef %s a[2];", "typedef %s a<>;", "typedef %s *a;", "union u switch (int d) { case 1: %s a; };", "union u switch (int d) { case 1: int b; default: %s a; };",
	"union u switch (int d) { case 1: %s a<2>; };", "union u switch (%s d) { case 1: int a; };", "struct s { struct { %s a; } t; };", "struct s { union switch (int d) { case 1: %s a; } t; };", "program P { version V { %s F(void) = 1; } = 1; } = 1;", "program P { version V { void F(%s) = 1; } = 1; } = 1;", "typedef struct { %s a; } t;",
}

var unsupported = []string{"float", "double", "quadruple", "enum { Q_A = 1 }"}

// goodBefore and goodAfter are put around what must be refused.
const goodBefore = "const BEFORE = 1;\nstruct before { int a; opaque b<BEFORE>; };\n"
const goodAfter = "\nstruct after { before x; };\nprogram AP { version AV { after F(before) = 1; } = 1; } = 9;\n"

// mayDrop says whether the generator can be run as another user.
func mayDrop(work string) bool {
	for _, d := range []string{work, filepath.Dir(os.Getenv("VERIF_GEN"))} {
		if os.Chmod(d, 0755) != nil {
			return false
		}
	}
	cmd := exec.Command(os.Getenv("VERIF_GEN"))
	cmd.Dir = work
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: unprivileged, Gid: unprivileged}}
	return cmd.Start() == nil && (cmd.Wait() != nil || true)
}

func TestC21(t *testing.T) {
	run(t, "C21", "runs of the real generator on specifications cut at every token, with tokens lost, doubled, swapped, replaced and inserted, with bytes changed, with each unsupported or malformed construct in each position, with unusable options, outputs and inputs, and with every write failing from some size on; an independent strict parser says what must be refused; every directory is compared byte for byte before and after, and accepted output with the definitions given; non-trivial: refused runs and accepted mutations, distinct by text, options and prior files", func(m *mon.M) {
		work := os.Getenv("VERIF_WORK")
		r := rng(m, "reject")
		var n atomic.Int64
		type job struct {
			g    *genRun
			outs []string
			must bool // besides what the parser says
			why  string
		}
		var jobs []job
		add := func(src string) {
			g, outs := randRun(r, src)
			jobs = append(jobs, job{g: g, outs: outs})
		}
		// malformed and unsupported constructs
		bad := 0
		for _, b := range badSpecs {
			subs := []string{b}
			if strings.Contains(b, "%s") {
				subs = nil
				for _, u := range unsupported {
					subs = append(subs, strings.ReplaceAll(b, "%s", u))
				}
			}
			for _, x := range subs {
				for _, y := range []string{x, goodBefore + x, x + goodAfter, goodBefore + x + goodAfter} {
					if must, why, _ := ref.Syntax(y); !must && y == x {
						panic("not refused by the strict parser: " + x + why)
					} else if !must {
						continue
					}
					bad++
					add(y)
				}
			}
		}
		m.Note("malformed_constructs", bad)
		// mutations
		bases := append([]string{}, torture...)
		bases = append(bases, goodBefore+goodAfter, units.SpecText("rfc1057"), units.SpecText("rfc1813"))
		for i := 0; i < m.N(10, 80); i++ {
			bases = append(bases, randSpec(r, "x", genOpts{}, 2+r.Intn(4), r.Intn(2) == 0).text)
		}
		for _, b := range bases {
			toks := ref.Tokens(b)
			join := func(t []string) string {
				if r.Intn(3) == 0 {
					return strings.Join(t, "\n")
				}
				return strings.Join(t, " ")
			}
			add(b)
			step := 1 + len(toks)/m.N(150, 3000)
			for i := r.Intn(step); i < len(toks); i += step {
				add(join(toks[:i]))
			}
			for i := 0; i < m.N(160, 3000); i++ {
				add(join(mutateTokens(toks, r)))
			}
			for i := 0; i < m.N(40, 600); i++ {
				add(mutateBytes(b, r))
			}
			for i := 0; i < m.N(10, 200); i++ {
				add(b[:r.Intn(len(b))])
			}
			for i := 0; i < m.N(6, 40); i++ { // a bad character at each end of a token
				k := r.Intn(len(toks) + 1)
				c := string("@#$%^&!?.'\"`\\~|+/"[r.Intn(17)])
				add(specgen.Layout(toks[:k], r, 2) + c + specgen.Layout(toks[k:], r, 7))
			}
		}
		// each foreign token in place of, before and after each token
		every := ref.Tokens("const A = 3; enum e { E_A = 1, E_B = 2 }; typedef opaque o<A>; typedef unsigned hyper h[2]; struct s { int a; string t<>; o *p; }; union u switch (e d) { case E_A: int x; default: void; }; program AP { version AV { s F(u) = 1; } = 1; } = 9;")
		for _, tok := range foreign {
			for i := range every {
				for mode := 0; mode < 2; mode++ {
					if !m.Thorough && mode == 1 && r.Intn(3) > 0 {
						continue
					}
					t := append(append(append([]string{}, every[:i]...), tok), every[i+1-mode:]...)
					jobs = append(jobs, job{g: &genRun{src: strings.Join(t, " "), args: []string{"-o", "xdr.go"}, prior: map[string]string{}}, outs: []string{"xdr.go"}})
					m.Count("foreign_tokens", 1)
				}
			}
		}
		// unusable options, inputs and outputs
		good := goodBefore + goodAfter
		refuse := func(why string, g *genRun) {
			if g.src == "" {
				g.src = good
			}
			jobs = append(jobs, job{g: g, must: true, why: why})
		}
		old := map[string]string{"xdr.go": "package old\n", "types.go": "package old2\n"}
		with := func(m map[string]string, kv ...string) map[string]string {
			c := map[string]string{}
			for k, v := range m {
				c[k] = v
			}
			for i := 0; i < len(kv); i += 2 {
				c[kv[i]] = kv[i+1]
			}
			return c
		}
		for _, prior := range []map[string]string{nil, old} {
			refuse("no input", &genRun{input: "-", args: []string{"-o", "xdr.go"}, prior: prior})
			refuse("no output", &genRun{args: []string{"-t", "types.go"}, prior: prior})
			refuse("no output", &genRun{args: []string{}, prior: prior})
			refuse("no arguments", &genRun{input: "-", prior: prior})
			refuse("unknown option", &genRun{args: []string{"-o", "xdr.go", "-x"}, prior: prior})
			refuse("option without value", &genRun{args: []string{"-o"}, prior: prior})
			refuse("option with a bad value", &genRun{args: []string{"-o", "xdr.go", "-unsigned-enum=maybe"}, prior: prior})
			refuse("input missing", &genRun{input: "none.x", args: []string{"-o", "xdr.go", "-t", "types.go"}, prior: prior})
			refuse("input is a directory", &genRun{input: "d", args: []string{"-o", "xdr.go", "-t", "types.go"}, prior: with(prior, "d", "dir")})
			refuse("output directory missing", &genRun{args: []string{"-o", "no/xdr.go", "-t", "types.go"}, prior: prior})
			refuse("types directory missing", &genRun{args: []string{"-o", "xdr.go", "-t", "no/types.go"}, prior: prior})
			refuse("output directory is a file", &genRun{args: []string{"-o", "f/xdr.go", "-t", "types.go"}, prior: with(prior, "f", "x")})
			refuse("types directory is a file", &genRun{args: []string{"-o", "xdr.go", "-t", "f/types.go"}, prior: with(prior, "f", "x")})
			refuse("output is a directory", &genRun{args: []string{"-o", "d", "-t", "types.go"}, prior: with(prior, "d", "dir")})
			refuse("types is a directory", &genRun{args: []string{"-o", "xdr.go", "-t", "d"}, prior: with(prior, "d", "dir")})
			refuse("one file for both", &genRun{args: []string{"-o", "xdr.go", "-t", "xdr.go"}, prior: prior})
			refuse("one file for both", &genRun{args: []string{"-o", "xdr.go", "-t", "./xdr.go"}, prior: prior})
			for _, f := range []string{"xdr.go.tmp", "types.go.tmp"} { // others' files stay as they are
				jobs = append(jobs, job{g: &genRun{src: good, args: []string{"-o", "xdr.go", "-t", "types.go"}, prior: with(prior, f, "mine")}, outs: []string{"xdr.go", "types.go"}})
			}
			for _, p := range []string{"", "1x", "a b", "a.b", "func", "a-b", "\"a\"", "{"} {
				refuse("unusable package name", &genRun{args: []string{"-o", "xdr.go", "-t", "types.go", "-p", p}, prior: prior})
				refuse("unusable package name", &genRun{args: []string{"-o", "xdr.go", "-p", p}, prior: prior})
			}
			for _, c := range []string{"[", "uint32 {", "1", "func", ")", "a b", "}"} {
				refuse("unusable constant type", &genRun{args: []string{"-o", "xdr.go", "-t", "types.go", "-const-type", c}, prior: prior})
			}
			// a bad specification in which what is wrong comes last or first
			for _, x := range []string{good + "struct bad { int a }", "struct bad { int a } " + good, good + "/*", good + "@"} {
				for _, a := range [][]string{{"-o", "xdr.go"}, {"-o", "xdr.go", "-t", "types.go"}} {
					refuse("malformed", &genRun{src: x, args: a, prior: prior})
				}
			}
		}
		// what permissions forbid, to a user whom they bind
		if mayDrop(work) {
			for _, prior := range []map[string]string{{}, old} {
				for _, a := range [][]string{{"-o", "xdr.go"}, {"-o", "xdr.go", "-t", "types.go"}} {
					modes := func(kv ...any) map[string]os.FileMode {
						c := map[string]os.FileMode{}
						for i := 0; i < len(kv); i += 2 {
							c[kv[i].(string)] = os.FileMode(kv[i+1].(int))
						}
						m.Count("permission_cases", 1)
						return c
					}
					jobs = append(jobs, job{g: &genRun{src: good, args: a, prior: prior, modes: modes()}, outs: []string{"xdr.go", "types.go"}[:len(a)/2]})
					refuse("input not readable", &genRun{args: a, prior: prior, modes: modes("prot.x", 0)})
					refuse("input not readable", &genRun{args: a, prior: prior, modes: modes("prot.x", 0200)})
					refuse("directory not writable", &genRun{args: a, prior: prior, modes: modes(".", 0555)})
					if len(prior) > 0 {
						refuse("output not writable", &genRun{args: a, prior: prior, modes: modes("xdr.go", 0444)})
						refuse("output not writable", &genRun{args: a, prior: prior, modes: modes("xdr.go", 0)})
					}
				}
				a := []string{"-o", "xdr.go", "-t", "d/types.go"}
				for _, mode := range []os.FileMode{0555, 0} {
					refuse("types directory not writable", &genRun{args: a, prior: with(prior, "d", "dir"), modes: map[string]os.FileMode{"d": mode}})
					refuse("types directory not writable", &genRun{args: a, prior: with(prior, "d/types.go", "package old\n"), modes: map[string]os.FileMode{"d": mode}})
					refuse("output directory not writable", &genRun{args: []string{"-o", "d/xdr.go", "-t", "types.go"}, prior: with(prior, "d", "dir"), modes: map[string]os.FileMode{"d": mode}})
					m.Count("permission_cases", 3)
				}
			}
			refuse("types not writable", &genRun{args: []string{"-o", "xdr.go", "-t", "types.go"}, prior: old, modes: map[string]os.FileMode{"types.go": 0444}})
			refuse("types not writable", &genRun{args: []string{"-o", "new.go", "-t", "types.go"}, prior: old, modes: map[string]os.FileMode{"types.go": 0}})
		}
		// writes that fail
		small := "const A = 3;\nenum e { E_A = 1 };\ntypedef opaque o<A>;\nstruct s { int a; };\nstruct t { s b; };\nprogram AP { version AV { t F(s) = 1; } = 1; } = 9;\n"
		type limited struct{ src, split string }
		for _, src := range []string{small, good, torture[0]} {
			for _, split := range []bool{false, true} {
				for _, prior := range []map[string]string{nil, old, {"xdr.go": strings.Repeat("//\n", 9), "types.go": ""}} {
					step := m.N(37, 5)
					if src == small && prior != nil && len(prior["types.go"]) > 0 {
						step = m.N(5, 1)
					}
					for lim := 1 + r.Intn(step); lim < 4000; lim += step {
						g := &genRun{src: src, args: []string{"-o", "xdr.go"}, prior: prior, fsize: lim}
						outs := []string{"xdr.go"}
						if split {
							g.args = append(g.args, "-t", "types.go")
							outs = append(outs, "types.go")
						}
						if m.Thorough || lim < 1500 || r.Intn(4) == 0 {
							jobs = append(jobs, job{g: g, outs: outs})
						}
					}
				}
			}
		}
		// what is written first is larger than the formatted output, so there
		// are limits at which only the former fails
		many := "typedef int number;\n"
		for i := 0; i < m.N(60, 300); i++ {
			many += fmt.Sprintf("const C%d = %d;\n", i, i)
		}
		for _, a := range [][]string{{"-o", "xdr.go"}, {"-o", "xdr.go", "-t", "types.go"}} {
			dir := filepath.Join(work, "sizes")
			res := (&genRun{src: many, args: a}).run(dir)
			os.RemoveAll(dir)
			size := max(len(res.after["xdr.go"]), len(res.after["types.go"])) - len("file ")
			for lim := max(1, size-30); lim < size+m.N(60, 300)+60; lim++ {
				jobs = append(jobs, job{g: &genRun{src: many, args: a, prior: map[string]string{}, fsize: lim}, outs: []string{"xdr.go", "types.go"}[:len(a)/2]})
			}
		}
		r.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
		parallel(len(jobs), 10, func(i int) {
			if m.Violations() >= 8 {
				return
			}
			j := jobs[i]
			must, why, defs := ref.Syntax(j.g.src)
			if j.must {
				must, why = true, j.why
			}
			dir := filepath.Join(work, fmt.Sprint("r", n.Add(1)))
			m.Case(clipText(j.g.src, 2000))
			res := j.g.run(dir)
			if j.g.fsize > 0 {
				if res.code == 99 {
					fmt.Println("CHECK ERROR: cannot limit file sizes")
					os.Exit(3)
				}
				m.Count("runs_with_failing_writes", 1)
				if res.code != 0 {
					m.Count("runs_refused_for_failed_writes", 1)
				}
			}
			j.g.judge(m, res, must, why, defs, j.outs)
			if must {
				m.Count("must_refuse", 1)
			}
			m.Eval([]byte(fmt.Sprint(j.g.src, j.g.args, keys(j.g.prior), j.g.fsize)), res.code != 0 || defs != nil)
			if i%977 == 0 {
				m.Sample(map[string]any{"specification": clipText(j.g.src, 400), "options": strings.Join(j.g.args, " "), "before": keys(j.g.prior), "must_refuse": must, "why": why, "exit": res.code})
			}
			os.RemoveAll(dir)
		})
	})
}

var _ = bytes.Equal
