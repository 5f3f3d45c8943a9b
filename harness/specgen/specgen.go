// Package specgen makes random XDR specifications.
package specgen

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// Def is one definition as a list of tokens.
type Def []string

// Opts restricts what is generated.
type Opts struct {
	TypedConsts bool // constants will have a declared Go type, so they are used as sizes only
	Types       int  // number of type definitions
	Progs       bool
}

type typ struct {
	name string
	kind string // enum, int, uint, bool, other
	size int
	lab  []string // labels of an enum: names
	val  []int64
}

type gen struct {
	r      *rand.Rand
	o      Opts
	used   map[string]bool
	names  []string // all type names, also of types to come
	types  []typ    // defined so far
	sizes  []named  // names usable as sizes
	labels []named  // constants usable as labels and enum values
	lower  []named
	tag    int
}

type named struct {
	n string
	v int64
}

var words = []string{"foo", "bar", "error", "nil", "append", "uint32", "type", "map", "byte", "main", "xs", "v", "in", "out", "args", "res", "err", "w", "h",
	"opted", "iota", "make", "new", "data", "x", "len", "Status", "fileHandle", "A", "b2", "dir_path", "NFS3_X", "count", "cookie", "next", "list", "string_t", "int32", "float32", "p", "self", "arraysz", "var", "func", "range", "return", "interface", "package", "go", "import", "break",
	"chan", "continue", "defer", "else", "fallthrough", "for", "goto", "if", "select", "true", "any", "cap", "string8", "intx", "unsignedInt", "voids", "opaque_", "constant", "case1", "defaults",
	"a_rather_long_identifier_with_many_words_in_it_which_nobody_would_like_to_write_twice_but_which_is_as_good_as_any_other_identifier_of_the_language_0123456789"}

func goName(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// ident makes an identifier not in use, with a given prefix if any.
func (g *gen) ident(prefix string) string {
	for k := 0; ; k++ {
		n := prefix + words[g.r.Intn(len(words))]
		if k > 2 || g.r.Intn(2) == 0 {
			n += []string{"", "_t", "3", "_", "X"}[g.r.Intn(5)]
		}
		if k > 4 {
			n += strconv.Itoa(g.r.Intn(1000))
		}
		if gn := goName(n); !g.used[gn] && gn != "TRUE" && gn != "FALSE" {
			g.used[gn] = true
			return n
		}
	}
}

func (g *gen) upper(prefix string) string {
	for {
		n := prefix + strings.ToUpper(words[g.r.Intn(len(words))]) + []string{"", "_MAX", "2", "_"}[g.r.Intn(4)]
		if g.r.Intn(3) == 0 {
			n += strconv.Itoa(g.r.Intn(100))
		}
		if g.r.Intn(8) == 0 {
			n = n[:1] + strings.ToLower(n[1:])
		}
		if !g.used[n] && n != "TRUE" && n != "FALSE" {
			g.used[n] = true
			return n
		}
	}
}

// num writes a number in one of the notations of RFC 4506.
func (g *gen) num(v int64) string {
	switch g.r.Intn(6) {
	case 0:
		return fmt.Sprintf("0x%x", v)
	case 1:
		return fmt.Sprintf("0x%X", v)
	case 2:
		return fmt.Sprintf("0%o", v)
	}
	return strconv.FormatInt(v, 10)
}

// size gives a number in lo..hi, by name if there is one.
func (g *gen) size(lo, hi int64) (string, int64) {
	if g.r.Intn(2) == 0 {
		for k := 0; k < 6 && len(g.sizes) > 0; k++ {
			if s := g.sizes[g.r.Intn(len(g.sizes))]; s.v >= lo && s.v <= hi {
				return s.n, s.v
			}
		}
	}
	v := lo + g.r.Int63n(hi-lo+1)
	return g.num(v), v
}

func (g *gen) bound(hi int64) []string {
	switch g.r.Intn(6) {
	case 0, 1:
		return []string{"<", ">"}
	case 2:
		if g.r.Intn(6) == 0 {
			return []string{"<", []string{"0x0", "0x0", "00", "0x00", "000"}[g.r.Intn(5)], ">"}
		}
		if g.r.Intn(3) == 0 {
			return []string{"<", g.num([]int64{0, 0xffffffff, 0x7fffffff, 0x80000000, 65536, 65535, 65537, 32767, 32768, 100000, 255, 256, 257, 1000, 4096}[g.r.Intn(15)]), ">"}
		}
	}
	s, _ := g.size(0, hi)
	return []string{"<", s, ">"}
}

const maxSize = 1500

// many is how many parts a definition has: a few, sometimes very many.
func (g *gen) many(few int) (int, bool) {
	if g.r.Intn(16) == 0 {
		return 20 + g.r.Intn(110), true
	}
	return few, false
}

// spec makes a type specifier; any says whether types still to come may be
// named (behind a pointer or array).
func (g *gen) spec(depth int, any bool) ([]string, int) {
	if any && g.r.Intn(2) == 0 {
		return []string{g.names[g.r.Intn(len(g.names))]}, 16
	}
	switch k := g.r.Intn(16); {
	case k < 2:
		return []string{"int"}, 4
	case k < 4:
		return []string{"unsigned", "int"}, 4
	case k < 5:
		return []string{"hyper"}, 8
	case k < 6:
		return []string{"unsigned", "hyper"}, 8
	case k < 7:
		return []string{"bool"}, 4
	case k < 9 && depth > 0:
		b, n := g.structBody(depth - 1)
		return append([]string{"struct"}, b...), n
	case k < 10 && depth > 0:
		b, n := g.unionBody(depth - 1)
		return append([]string{"union"}, b...), n
	}
	for k := 0; k < 5 && len(g.types) > 0; k++ {
		if t := g.types[g.r.Intn(len(g.types))]; t.size < maxSize/3 {
			return []string{t.name}, t.size
		}
	}
	return []string{"int"}, 4
}

// decl declares name as something.
func (g *gen) decl(name string, depth int) ([]string, int) {
	switch k := g.r.Intn(20); {
	case k < 1:
		s, n := g.size(0, 40)
		return []string{"opaque", name, "[", s, "]"}, int(n) + 3
	case k < 3:
		return append([]string{"opaque", name}, g.bound(70)...), 16
	case k < 5:
		return append([]string{"string", name}, g.bound(70)...), 16
	case k < 7:
		sp, n := g.spec(depth, true)
		_ = n
		return append(append(sp, "*"), name), 12
	case k < 10:
		sp, _ := g.spec(depth, true)
		return append(append(sp, name), g.bound(12)...), 16
	case k < 12:
		sp, n := g.spec(depth, false)
		hi := int64(5)
		if n > 100 {
			hi = 3
		}
		s, v := g.size(0, hi)
		return append(sp, name, "[", s, "]"), n*int(v) + 1
	}
	sp, n := g.spec(depth, false)
	return append(sp, name), n
}

func (g *gen) field(used map[string]bool) string {
	for {
		n := words[g.r.Intn(len(words))]
		if g.r.Intn(4) == 0 {
			n += strconv.Itoa(g.r.Intn(30))
		}
		if gn := goName(n); !used[gn] && gn != "Xdr" {
			used[gn] = true
			return n
		}
	}
}

func (g *gen) structBody(depth int) ([]string, int) {
	out := []string{"{"}
	used := map[string]bool{}
	total := 0
	n, lots := g.many(1 + g.r.Intn(5))
	if lots {
		depth = 0
	}
	for ; n > 0; n-- {
		if g.r.Intn(25) == 0 {
			out = append(out, "void", ";")
		}
		d, s := g.decl(g.field(used), depth)
		if total+s > maxSize {
			continue
		}
		total += s
		out = append(append(out, d...), ";")
	}
	// never empty on the wire
	out = append(append(out, "int", g.field(used)), ";")
	return append(out, "}"), total + 4
}

func (g *gen) unionBody(depth int) ([]string, int) {
	used := map[string]bool{}
	dn := g.field(used)
	out := []string{"switch", "("}
	type label struct {
		tok string
		v   int64
	}
	var cand []label
	lit := func(vs ...int64) {
		for _, v := range vs {
			cand = append(cand, label{g.num(v), v})
		}
	}
	consts := func(hi int64) {
		for _, c := range g.labels {
			if c.v <= hi {
				cand = append(cand, label{c.n, c.v})
			}
		}
	}
	ints := []int64{0, 1, 2, 3, 4, 7, 8, 10, 100, 255, 256, 65535, 65536, 0x01020304, 0x7ffffffe, 0x7fffffff}
	lots, large := g.many(0)
	if large {
		depth = 0
		for v := int64(g.r.Intn(40)); lots > 0; lots-- {
			ints = append(ints, v)
			v += 1 + int64(g.r.Intn(2))
		}
	}
	uints := append(append([]int64{}, ints...), 0x80000000, 0xfffffffe, 0xffffffff)
	kind, tn, tv := "", "", typ{}
	if g.r.Intn(3) > 0 && len(g.types) > 0 {
		for k := 0; k < 12; k++ {
			tv = g.types[g.r.Intn(len(g.types))]
			if tv.kind != "other" && (tv.kind == "enum" || k > 6) {
				kind, tn = tv.kind, tv.name
				break
			}
		}
	}
	if kind == "" {
		kind = []string{"int", "uint", "bool"}[g.r.Intn(3)]
	}
	switch kind {
	case "int":
		if tn == "" {
			tn = "int"
		}
		lit(ints...)
		consts(0x7fffffff)
	case "uint":
		if tn == "" {
			out = append(out, "unsigned")
			tn = "int"
		}
		lit(uints...)
		consts(0xffffffff)
	case "bool":
		if tn == "" {
			tn = "bool"
		}
		cand = []label{{"TRUE", 1}, {"FALSE", 0}}
	case "enum":
		for i, n := range tv.lab {
			if g.r.Intn(4) == 0 {
				cand = append(cand, label{g.num(tv.val[i]), tv.val[i]})
			} else {
				cand = append(cand, label{n, tv.val[i]})
			}
		}
	}
	out = append(out, tn, dn, ")", "{")
	g.r.Shuffle(len(cand), func(i, j int) { cand[i], cand[j] = cand[j], cand[i] })
	if large {
	} else if kind != "enum" && kind != "bool" && len(cand) > 6 {
		cand = cand[:1+g.r.Intn(6)]
	} else if len(cand) > 1 && g.r.Intn(2) == 0 {
		cand = cand[:1+g.r.Intn(len(cand))]
	}
	seen := map[int64]bool{}
	total := 4
	arm := func() []string {
		if g.r.Intn(4) == 0 {
			return []string{"void", ";"}
		}
		d, s := g.decl(g.field(used), depth)
		if total+s > maxSize {
			return []string{"void", ";"}
		}
		total += s
		return append(d, ";")
	}
	open := false
	some := 3
	if g.r.Intn(3) == 0 {
		some = 30 // long lists of labels for one arm
	}
	for _, l := range cand {
		if seen[l.v] {
			continue
		}
		seen[l.v] = true
		out = append(out, "case", l.tok, ":")
		open = true
		if k := g.r.Intn(some); k == 0 || k == 1 && some == 3 {
			out = append(out, arm()...)
			open = false
		}
	}
	if open {
		out = append(out, arm()...)
	}
	if g.r.Intn(2) == 0 {
		out = append(append(out, "default", ":"), arm()...)
	}
	return append(out, "}"), total
}

func (g *gen) constDef() Def {
	v := []int64{0, 1, 2, 3, 4, 5, 8, 12, 16, 33, 64, 255, 1000, 65536, 0x7fffffff, 0xffffffff}[g.r.Intn(16)]
	if g.r.Intn(3) == 0 {
		v = g.r.Int63n(40)
	}
	n := ""
	if g.r.Intn(6) == 0 {
		n = fmt.Sprintf("k_lower%d", g.tag)
		g.tag++
		g.used[goName(n)] = true
		g.sizes = append(g.sizes, named{n, v})
	} else {
		n = g.upper("")
		g.sizes = append(g.sizes, named{n, v})
		if !g.o.TypedConsts {
			g.labels = append(g.labels, named{n, v})
		}
	}
	return Def{"const", n, "=", g.num(v), ";"}
}

func (g *gen) typeDef(name string) Def {
	switch k := g.r.Intn(20); {
	case k < 4: // enum
		t := typ{name: name, kind: "enum", size: 4}
		d := Def{"enum", name, "{"}
		v := int64(g.r.Intn(3))
		n, lots := g.many([]int{1, 1, 2, 3, 4, 5, 6, 6}[g.r.Intn(8)])
		for i := 0; i < n; i++ {
			in := ""
			if g.r.Intn(5) == 0 {
				in = fmt.Sprintf("item%d", g.tag)
				g.tag++
				g.used[goName(in)] = true
			} else {
				in = g.upper("")
			}
			if g.r.Intn(8) == 0 && !lots {
				v = []int64{100, 255, 70000, 0x7fffffff}[g.r.Intn(4)]
			}
			tok := g.num(v)
			if !g.o.TypedConsts && g.r.Intn(5) == 0 {
				for _, c := range g.labels {
					if c.v <= 0x7fffffff {
						tok, v = c.n, c.v
						if g.r.Intn(2) == 0 {
							break
						}
					}
				}
			}
			if i > 0 {
				d = append(d, ",")
			}
			dup := false
			for _, x := range t.val {
				dup = dup || x == v
			}
			d = append(d, in, "=", tok)
			if !dup { // of items with one value only the first is used as a label
				t.lab, t.val = append(t.lab, in), append(t.val, v)
			}
			if in[0] >= 'A' && in[0] <= 'Z' {
				g.sizes = append(g.sizes, named{in, v})
			}
			v++
			if v > 0x7fffffff {
				v = 17
			}
		}
		g.types = append(g.types, t)
		return append(d, "}", ";")
	case k < 11:
		b, s := g.structBody(2)
		g.types = append(g.types, typ{name: name, kind: "other", size: s})
		return append(append(Def{"struct", name}, b...), ";")
	case k < 15:
		b, s := g.unionBody(2)
		g.types = append(g.types, typ{name: name, kind: "other", size: s})
		return append(append(Def{"union", name}, b...), ";")
	case k < 16: // typedefs of discriminant types
		tok := [][]string{{"int"}, {"unsigned", "int"}, {"bool"}}
		i := g.r.Intn(3)
		g.types = append(g.types, typ{name: name, kind: []string{"int", "uint", "bool"}[i], size: 4})
		return append(append(append(Def{"typedef"}, tok[i]...), name), ";")
	}
	for {
		d, s := g.decl(name, 2)
		if s <= maxSize && !zeroSized(d) {
			g.types = append(g.types, typ{name: name, kind: "other", size: s})
			return append(append(Def{"typedef"}, d...), ";")
		}
	}
}

// zeroSized: fixed arrays might take nothing on the wire.
func zeroSized(d []string) bool {
	if d[len(d)-1] != "]" {
		return false
	}
	n, err := strconv.ParseInt(d[len(d)-2], 0, 64)
	return err != nil || n == 0
}

func (g *gen) typespecOpt() []string {
	switch g.r.Intn(8) {
	case 0, 1:
		return []string{"void"}
	case 2:
		return [][]string{{"int"}, {"unsigned", "int"}, {"hyper"}, {"unsigned", "hyper"}, {"bool"}}[g.r.Intn(5)]
	}
	return []string{g.names[g.r.Intn(len(g.names))]}
}

func (g *gen) uniq(seen map[int64]bool) int64 {
	for {
		v := []int64{0, 1, 2, 3, 4, 5, 6, 7, 100003, 0x20000000, 0x7fffffff, 0x80000000, 0xffffffff, g.r.Int63n(1 << 32), g.r.Int63n(300)}[g.r.Intn(15)]
		if !seen[v] {
			seen[v] = true
			return v
		}
	}
}

func (g *gen) progDef(progs map[int64]bool) Def {
	d := Def{"program", g.upper("PG_"), "{"}
	vers := map[int64]bool{}
	for n := 1 + g.r.Intn(3); n > 0; n-- {
		d = append(d, "version", g.upper("VS_"), "{")
		procs := map[int64]bool{}
		k, _ := g.many(1 + g.r.Intn(5))
		for ; k > 0; k-- {
			name := g.upper("PROC_")
			if g.r.Intn(4) == 0 {
				name = g.ident("do_")
			}
			d = append(append(d, g.typespecOpt()...), name, "(")
			d = append(append(d, g.typespecOpt()...), ")", "=", g.num(g.uniq(procs)), ";")
		}
		d = append(d, "}", "=", g.num(g.uniq(vers)), ";")
	}
	return append(d, "}", "=", g.num(g.uniq(progs)), ";")
}

// Make returns the definitions of a random specification in random order.
func Make(r *rand.Rand, o Opts) []Def {
	g := &gen{r: r, o: o, used: map[string]bool{}}
	for i := 0; i < o.Types; i++ {
		g.names = append(g.names, g.ident(""))
	}
	var out []Def
	for i := r.Intn(5); i > 0; i-- {
		out = append(out, g.constDef())
	}
	for i, n := range g.names {
		out = append(out, g.typeDef(n))
		if i%4 == 1 {
			out = append(out, g.constDef())
		}
	}
	if o.Progs {
		progs := map[int64]bool{}
		for i := 1 + r.Intn(2); i > 0; i-- {
			out = append(out, g.progDef(progs))
		}
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// Tokens concatenates definitions.
func Tokens(ds []Def) (out []string) {
	for _, d := range ds {
		out = append(out, d...)
	}
	return
}

// Text writes tokens with an ordinary layout.
func Text(ds []Def) string {
	var b strings.Builder
	for _, d := range ds {
		ind := 0
		for i, t := range d {
			if t == "}" && ind > 0 {
				ind--
			}
			if i > 0 {
				switch p := d[i-1]; {
				case p == "{" || p == ";" || p == "}" && t != ";" && t != "=":
					b.WriteString("\n" + strings.Repeat("\t", ind))
				case t == ";" || t == "," || t == ":" || p == "(" || t == ")" || t == "<" || p == "<" || t == ">" || t == "[" || p == "[" || t == "]" || t == "(":
				default:
					b.WriteString(" ")
				}
			}
			if t == "{" {
				ind++
			}
			b.WriteString(t)
		}
		b.WriteString("\n\n")
	}
	return b.String()
}

func isWord(t string) bool {
	c := t[0]
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

var comments = []string{"/* c */", "/**/", "/* struct x { int y; }; */", "/* multi\n   line\n*/", "// to the end\n", "//\n", "/* // */", "// /* not open\n", "/* \" ' ` @ # $ % */", "/* * / ** */"}

// LongComments are comments of more than 1000, 4000, ... bytes.
var LongComments = func() (l []string) {
	for _, n := range []int{1001, 4097, 20000, 70000, 1100000} {
		l = append(l, "/*"+strings.Repeat("x", n)+"*/", "//"+strings.Repeat(" /*x", n/4)+"\n", "/*"+strings.Repeat("*\n", n/2)+"*/")
	}
	return append(l, strings.Repeat(" ", 5000), strings.Repeat("\n", 70000), strings.Repeat("//\n", 3000), strings.Repeat("/**/", 3000))
}()

// Layout writes tokens with a random layout: any whitespace and comments
// between them, at least what is needed to keep words apart.
func Layout(toks []string, r *rand.Rand, style int) string {
	var b strings.Builder
	ws := func() string {
		switch style {
		case 0:
			return ""
		case 1:
			return "\n"
		case 2:
			return " \t  "[:1+r.Intn(4)]
		case 3:
			return "\r\n"
		case 4:
			return comments[r.Intn(len(comments))]
		case 5:
			return "\n\n\n/* x */\n"
		case 6:
			return " // c\n"
		}
		return []string{"", " ", "\n", "\t", "\r\n", " \n ", comments[r.Intn(len(comments))], "\n" + comments[r.Intn(len(comments))] + "\n"}[r.Intn(8)]
	}
	b.WriteString(ws())
	for i, t := range toks {
		if i > 0 {
			s := ws()
			if s == "" && isWord(toks[i-1]) && isWord(t) {
				s = []string{" ", "\n", "\t"}[r.Intn(3)]
			}
			b.WriteString(s)
		}
		b.WriteString(t)
	}
	b.WriteString(ws())
	return b.String()
}
