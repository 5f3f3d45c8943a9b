package checks

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"

	"verifharness/mon"
	"verifharness/ref"
	"verifharness/specgen"
	"verifharness/units"
)

var packageClause = regexp.MustCompile(`(?m)^package \S+$`)

var pkgNames = []string{"other", "a", "p2", "some_test", "_test", "test", "x_", "With_Capitals", "naïve", "包", "string", "xdr", "rfc1813", "a1_b2", "int", "main_", "typesfile", "vendor", "internal", strings.Repeat("long", 50)}

// printed lists the declarations of Go files, except imports, each printed.
func printed(texts ...[]byte) (l []string, err error) {
	for _, t := range texts {
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, "x.go", t, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range a.Decls {
			if g, ok := d.(*ast.GenDecl); ok {
				if g.Tok == token.IMPORT {
					continue
				}
				if !g.Lparen.IsValid() || g.Tok == token.CONST && len(g.Specs) > 1 {
					var b bytes.Buffer
					printer.Fprint(&b, fs, d)
					l = append(l, b.String())
					continue
				}
				for _, s := range g.Specs {
					var b bytes.Buffer
					printer.Fprint(&b, fs, s)
					l = append(l, g.Tok.String()+" "+b.String())
				}
				continue
			}
			var b bytes.Buffer
			printer.Fprint(&b, fs, d)
			l = append(l, b.String())
		}
	}
	sort.Strings(l)
	return l, nil
}

type genOut struct {
	code int
	msg  string
	x, t []byte
}

// generateIn runs the generator with the given layout of files and options.
func generateIn(dir, text string, o genOpts, pkg string, r *rand.Rand) (g genOut) {
	os.MkdirAll(dir, 0777)
	defer os.RemoveAll(dir)
	in, out, types := "prot.x", "xdr.go", "types.go"
	cwd := dir
	if r != nil { // other names and places
		in = []string{"prot.x", "other.x", "a b.x", "spec"}[r.Intn(4)]
		out = []string{"xdr.go", "zz.go", "out"}[r.Intn(3)]
		if r.Intn(2) == 0 {
			os.MkdirAll(filepath.Join(dir, "sub"), 0777)
			out = "sub/" + out
		}
		if k := r.Intn(4); k < 2 {
			old := []string{longText, "package elsewhere\n\nimport \"github.com/zeldovich/go-rpcgen/xdr\"\n\ntype Old struct{}\n\nfunc (v *Old) Xdr(xs *xdr.XdrState) {}\n"}[k]
			os.WriteFile(filepath.Join(dir, out), []byte(old), 0666)
			os.WriteFile(filepath.Join(dir, types), []byte(old), 0666)
		}
	}
	os.WriteFile(filepath.Join(dir, in), []byte(text), 0666)
	pi, po, pt := in, out, types
	if r != nil && r.Intn(2) == 0 {
		cwd = "/"
		pi, po, pt = filepath.Join(dir, in), filepath.Join(dir, out), filepath.Join(dir, types)
	}
	a := [][]string{{"-i", pi}, {"-o", po}}
	if pkg != "" {
		a = append(a, []string{"-p", pkg})
	}
	if o.Split {
		a = append(a, []string{"-t", pt})
	}
	if o.Unsigned {
		a = append(a, []string{"-unsigned-enum"})
	}
	if o.ConstType != "" {
		a = append(a, []string{"-const-type", o.ConstType})
	}
	if r != nil {
		if r.Intn(3) == 0 {
			a = append(a, []string{"-d"})
		}
		r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
	}
	var args []string
	for _, x := range a {
		args = append(args, x...)
	}
	var env []string
	if r != nil && r.Intn(2) == 0 { // as under go generate, and for other users
		env = append(os.Environ(), "GOPACKAGE=elsewhere", "GOFILE=elsewhere.go", "GOLINE=7", "DOLLAR=$", "GOARCH=386", "GOOS=plan9", "HOME=/nowhere", "USER=other", "LOGNAME=other",
			"TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "DEBUG=1", "VERBOSE=1", "SOURCE_DATE_EPOCH=1", "GOMAXPROCS=1", "PWD=/")
	}
	g.code, g.msg = generatorEnv(cwd, env, args...)
	g.x, _ = os.ReadFile(filepath.Join(dir, out))
	if o.Split {
		g.t, _ = os.ReadFile(filepath.Join(dir, types))
	}
	return
}

func firstDiff(a, b []byte) string {
	la, lb := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			o := "(end)"
			if i < len(lb) {
				o = lb[i]
			}
			return fmt.Sprintf("line %d: %q and %q", i+1, la[i], o)
		}
	}
	return fmt.Sprintf("%d and %d lines", len(la), len(lb))
}

// shuffled is a specification with its definitions in another order.
func shuffled(ds []specgen.Def, r *rand.Rand) []specgen.Def {
	o := append([]specgen.Def{}, ds...)
	r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return o
}

// splitDefs cuts a specification into definitions.
func splitDefs(text string) (ds []specgen.Def) {
	var d specgen.Def
	depth := 0
	for _, t := range ref.Tokens(text) {
		d = append(d, t)
		switch t {
		case "{":
			depth++
		case "}":
			depth--
		case ";":
			if depth == 0 {
				ds = append(ds, d)
				d = nil
			}
		}
	}
	return
}

func TestC22(t *testing.T) {
	run(t, "C22", "generator output compared byte for byte over layouts (no, minimal, random white space, line breaks and comments between any two tokens), repeated runs, directories, file names and option orders; declarations compared between one file and two and between option values; packages from shuffled definitions and all option values compiled, and their codecs and constants compared with one reference reading of the specification; non-trivial: every run and every value, distinct by layout or by type and bytes", func(m *mon.M) {
		work := os.Getenv("VERIF_WORK")
		r := rng(m, "layout")
		type item struct {
			name string
			ds   []specgen.Def
			full bool // may be given constant types
			seed int64
		}
		var items []item
		for i, x := range torture {
			items = append(items, item{fmt.Sprint("torture", i), splitDefs(x), true, r.Int63()})
		}
		for _, p := range []string{"rfc1057", "rfc1813"} {
			items = append(items, item{p, splitDefs(units.SpecText(p)), true, r.Int63()})
		}
		for i := 0; i < m.N(40, 400); i++ {
			items = append(items, item{fmt.Sprint("random", i), specgen.Make(r, specgen.Opts{TypedConsts: true, Types: 2 + r.Intn(10), Progs: r.Intn(2) == 0}), true, r.Int63()})
		}
		items = append(items, item{"large", specgen.Make(r, specgen.Opts{TypedConsts: true, Types: m.N(150, 600), Progs: true}), true, r.Int63()})
		var probe sync.Once
		parallel(len(items), 8, func(i int) {
			if m.Violations() >= 6 {
				return
			}
			it := items[i]
			r := rand.New(rand.NewSource(it.seed))
			dir := filepath.Join(work, it.name)
			toks := specgen.Tokens(it.ds)
			text := specgen.Text(it.ds)
			// comments that look like directives
			probe.Do(func() {
				for _, c := range []string{"//line x:0\n", "/*line x:0*/"} {
					if g := generateIn(dir+"l", c+text, genOpts{}, "", nil); g.code != 0 {
						m.Violation("line-comment", "the comment %q makes the generator fail: %.200s", c, g.msg)
					}
				}
			})
			bases := map[string]genOut{}
			for _, o := range allOpts {
				g := generateIn(dir, text, o, "some", nil)
				if g.code != 0 {
					m.Violation("refused", "%v: exit status %d: %.300s\n%s", o, g.code, g.msg, text)
					return
				}
				bases[o.String()] = g
			}
			same := func(what, text string, o genOpts, g genOut) bool {
				b := bases[o.String()]
				m.Eval([]byte(fmt.Sprint(it.name, what, o)+text), true)
				if g.code != 0 {
					m.Violation("layout", "%s (%v): %s: exit status %d: %.400s\n%s", it.name, o, what, g.code, g.msg, clipText(text, 6000))
					return false
				}
				if !bytes.Equal(g.x, b.x) {
					m.Violation("layout", "%s (%v): %s changes the output: %s\n%s", it.name, o, what, firstDiff(b.x, g.x), clipText(text, 6000))
					return false
				}
				if !bytes.Equal(g.t, b.t) {
					m.Violation("layout", "%s (%v): %s changes the types file: %s\n%s", it.name, o, what, firstDiff(b.t, g.t), clipText(text, 6000))
					return false
				}
				return true
			}
			opt := func() genOpts { return allOpts[r.Intn(len(allOpts))] }
			for k := 0; k < m.N(4, 10); k++ {
				o := opt()
				if !same("running it again", text, o, generateIn(dir, text, o, "some", r)) {
					return
				}
				m.Count("repeated_runs", 1)
			}
			for style := 0; style <= 7; style++ {
				n := 1
				if style == 7 {
					n = m.N(8, 60)
				} else if style == 4 {
					n = m.N(3, 10)
				}
				for ; n > 0; n-- {
					o := opt()
					l := specgen.Layout(toks, r, style)
					if !same("another layout", l, o, generateIn(dir, l, o, "some", nil)) {
						return
					}
					m.Count("layouts", 1)
				}
			}
			// one break or comment in one place
			for k := 0; k < m.N(20, 200); k++ {
				o := opt()
				p := r.Intn(len(toks) + 1)
				c := specgen.LongComments[r.Intn(len(specgen.LongComments))]
				if k%4 > 0 {
					c = []string{"\n", "\r\n", "\n\n", "\t", "/*x*/", "/*\n*/", "// }\n", "/* */ // ;\n", " /** / **/ ", "// é ü\n", "/* \U0001f600 */", "//*\n", "/*/ */", "/***/"}[r.Intn(14)]
				}
				l := strings.Join(toks[:p], " ") + c + strings.Join(toks[p:], " ")
				if !same("one change of layout", l, o, generateIn(dir, l, o, "some", nil)) {
					return
				}
				m.Count("single_changes", 1)
			}
			// options
			for _, u := range []bool{false, true} {
				for _, c := range []string{"", "uint32", "uint64", "int64"} {
					one, two := bases[genOpts{u, c, false}.String()], bases[genOpts{u, c, true}.String()]
					a, e1 := printed(one.x)
					b, e2 := printed(two.x, two.t)
					if e1 != nil || e2 != nil {
						m.Violation("split", "%s: output is not Go: %v %v", it.name, e1, e2)
						return
					}
					if strings.Join(a, "\n") != strings.Join(b, "\n") {
						m.Violation("split", "%s (unsigned %v, constants %q): a types file changes the declarations: %s\n%s", it.name, u, c, firstDiff([]byte(strings.Join(a, "\n")), []byte(strings.Join(b, "\n"))), text)
						return
					}
					for _, f := range [][]byte{one.x, two.x, two.t} {
						if p := packageClause.Find(f); string(p) != "package some" || !bytes.HasPrefix(bytes.TrimSpace(f), p) {
							m.Violation("package", "%s: with -p some, the package clause is %q", it.name, p)
							return
						}
					}
					m.Count("declarations_compared", int64(len(a)))
				}
			}
			for _, pkg := range []string{"main", "", pkgNames[r.Intn(len(pkgNames))], pkgNames[r.Intn(len(pkgNames))]} {
				o := opt()
				b := bases[o.String()]
				var elsewhere *rand.Rand
				if r.Intn(2) == 0 {
					elsewhere = r
				}
				g := generateIn(dir, text, o, pkg, elsewhere)
				want := pkg
				if want == "" {
					want = "main"
				}
				m.Eval([]byte(it.name+"package"+pkg), true)
				for j, f := range [][]byte{g.x, g.t} {
					e := [][]byte{b.x, b.t}[j]
					if len(e) == 0 && len(f) == 0 {
						continue
					}
					e = packageClause.ReplaceAll(e, []byte("package "+want))
					if g.code != 0 || !bytes.Equal(e, f) {
						m.Violation("package", "%s (%v): the package name %q changes more than the package clause: %s", it.name, o, pkg, firstDiff(e, f))
						return
					}
				}
			}
			// -d only adds messages
			if i%8 == 0 {
				m.Sample(map[string]any{"specification": it.name, "tokens": len(toks), "a layout": clipText(specgen.Layout(toks, r, 7), 300)})
			}
		})
		// the wire format of all options and orders
		var specs []*genSpec
		k := 0
		mk := func(ds []specgen.Def, o genOpts, pkgs []*genSpec) []*genSpec {
			text := specgen.Text(ds)
			s, err := ref.Parse(text)
			if err != nil {
				panic(err)
			}
			k++
			return append(pkgs, &genSpec{id: fmt.Sprintf("w%d", k), text: text, o: o, s: s})
		}
		for i, it := range items {
			if m.Violations() >= 6 {
				return
			}
			if strings.HasPrefix(it.name, "rfc") || i >= m.N(36, 80) && i >= len(torture) {
				continue
			}
			o := append([]genOpts{}, allOpts...)
			r.Shuffle(len(o), func(a, b int) { o[a], o[b] = o[b], o[a] })
			for j := 0; j < m.N(2, 8); j++ {
				if len(torture) > i && (o[j].ConstType != "") {
					o[j].ConstType = "" // see the findings of C19
				}
				specs = mk(shuffled(it.ds, r), o[j], specs)
			}
		}
		parallel(4, 4, func(b int) {
			var l []*genSpec
			for i, g := range specs {
				if i%4 == b {
					l = append(l, g)
				}
			}
			genBatch(m, work, fmt.Sprint("wire", b), "codec-short", l, true, false)
		})
	})
}
