// Package ref is an independent reference implementation of XDR (RFC 4506):
// a specification parser and an interpretive codec over Go values. It shares
// no code with go-rpcgen and is the oracle of the monitors.
package ref

import (
	"fmt"
	"strconv"
	"strings"
)

type Kind int

const (
	KInt Kind = iota
	KUint
	KHyper
	KUhyper
	KBool
	KEnum
	KOpaque
	KVarOpaque
	KString
	KArray
	KVarArray
	KPtr
	KStruct
	KUnion
	KRef
	KVoid
)

func (k Kind) String() string {
	return [...]string{"int", "uint", "hyper", "uhyper", "bool", "enum", "opaque[]", "opaque<>", "string", "array", "vararray", "optional", "struct", "union", "ref", "void"}[k]
}

type Field struct {
	Name string
	T    *Type
}

type Arm struct {
	Labels   []int64
	labelTok []string
	F        Field
}

type EnumItem struct {
	Name string
	Val  int64
	tok  string
}

type Type struct {
	K      Kind
	Ref    string
	Elem   *Type
	N      uint64 // fixed size, or maximum
	Unb    bool   // no maximum
	nTok   string
	Fields []Field
	Disc   Field
	Arms   []Arm
	Def    *Field
	Items  []EnumItem
}

type Proc struct {
	Name     string
	Arg, Res *Type
	Num      uint32
}

type Version struct {
	Name  string
	Procs []Proc
	Num   uint32
}

type Program struct {
	Name string
	Vers []Version
	Num  uint32
}

type Spec struct {
	Types    map[string]*Type
	Order    []string
	Consts   map[string]int64
	EnumOf   map[string]string // enum item -> enum type
	ConstDef []string          // names defined by const
	Progs    []Program
}

type parser struct {
	toks []string
	pos  int
	s    *Spec
}

type parseErr struct{ msg string }

func tokenize(src string) []string {
	var out []string
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "/*"):
			e := strings.Index(src[i+2:], "*/")
			if e < 0 {
				panic(parseErr{"unterminated comment"})
			}
			i += e + 4
		case strings.HasPrefix(src[i:], "//"):
			e := strings.IndexByte(src[i:], '\n')
			if e < 0 {
				i = len(src)
			} else {
				i += e
			}
		case isIdent(c):
			j := i
			for j < len(src) && isIdent(src[j]) {
				j++
			}
			out = append(out, src[i:j])
			i = j
		case strings.IndexByte("=;<>[]{},:()*", c) >= 0:
			out = append(out, string(c))
			i++
		default:
			panic(parseErr{fmt.Sprintf("bad character %q", c)})
		}
	}
	return out
}

// Tokens splits a specification into its tokens.
func Tokens(src string) []string { return tokenize(src) }

func isIdent(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// Parse parses an XDR specification.
func Parse(src string) (s *Spec, err error) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseErr); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	p := &parser{toks: tokenize(src), s: &Spec{Types: map[string]*Type{}, Consts: map[string]int64{}, EnumOf: map[string]string{}}}
	consts := map[string]string{}
	for p.pos < len(p.toks) {
		switch t := p.next(); t {
		case "const":
			n := p.ident()
			p.want("=")
			consts[n] = p.next()
			p.s.ConstDef = append(p.s.ConstDef, n)
			p.want(";")
		case "typedef":
			f := p.decl()
			p.want(";")
			if f.T.K != KVoid {
				p.def(f.Name, f.T)
			}
		case "enum":
			n := p.ident()
			p.def(n, p.enumBody())
			p.want(";")
		case "struct":
			n := p.ident()
			p.def(n, p.structBody())
			p.want(";")
		case "union":
			n := p.ident()
			p.def(n, p.unionBody())
			p.want(";")
		case "program":
			p.program()
		default:
			p.fail("unexpected " + t)
		}
	}
	for n, v := range consts {
		x, e := strconv.ParseInt(v, 0, 64)
		if e != nil {
			p.fail("bad constant " + v)
		}
		p.s.Consts[n] = x
	}
	// enum items may refer to constants and to each other
	for round := 0; round < 20; round++ {
		for _, n := range p.s.Order {
			p.enums(n, p.s.Types[n])
		}
	}
	p.s.Consts["TRUE"], p.s.Consts["FALSE"] = 1, 0
	for _, n := range p.s.Order {
		p.resolve(p.s.Types[n])
	}
	return p.s, nil
}

func (p *parser) fail(m string) { panic(parseErr{fmt.Sprintf("token %d: %s", p.pos, m)}) }

func (p *parser) next() string {
	if p.pos >= len(p.toks) {
		p.fail("unexpected end")
	}
	p.pos++
	return p.toks[p.pos-1]
}

func (p *parser) peek() string {
	if p.pos >= len(p.toks) {
		return ""
	}
	return p.toks[p.pos]
}

func (p *parser) want(t string) {
	if g := p.next(); g != t {
		p.fail("want " + t + ", got " + g)
	}
}

func (p *parser) ident() string {
	t := p.next()
	if !isIdent(t[0]) || t[0] >= '0' && t[0] <= '9' {
		p.fail("want identifier, got " + t)
	}
	return t
}

func (p *parser) def(n string, t *Type) {
	if _, ok := p.s.Types[n]; ok {
		p.fail("duplicate " + n)
	}
	p.s.Types[n] = t
	p.s.Order = append(p.s.Order, n)
}

func (p *parser) typespec() *Type {
	switch t := p.next(); t {
	case "unsigned":
		switch p.next() {
		case "int":
			return &Type{K: KUint}
		case "hyper":
			return &Type{K: KUhyper}
		}
		p.fail("bad unsigned")
	case "int":
		return &Type{K: KInt}
	case "hyper":
		return &Type{K: KHyper}
	case "bool":
		return &Type{K: KBool}
	case "enum":
		return p.enumBody()
	case "struct":
		return p.structBody()
	case "union":
		return p.unionBody()
	case "float", "double", "quadruple":
		p.fail("unsupported " + t)
	default:
		p.pos--
		return &Type{K: KRef, Ref: p.ident()}
	}
	return nil
}

func (p *parser) bound(t *Type) {
	p.want("<")
	if p.peek() == ">" {
		t.Unb = true
	} else {
		t.nTok = p.next()
	}
	p.want(">")
}

func (p *parser) decl() Field {
	switch p.peek() {
	case "void":
		p.next()
		return Field{T: &Type{K: KVoid}}
	case "opaque":
		p.next()
		n := p.ident()
		if p.peek() == "[" {
			p.next()
			t := &Type{K: KOpaque, nTok: p.next()}
			p.want("]")
			return Field{n, t}
		}
		t := &Type{K: KVarOpaque}
		p.bound(t)
		return Field{n, t}
	case "string":
		p.next()
		n := p.ident()
		t := &Type{K: KString}
		p.bound(t)
		return Field{n, t}
	}
	ts := p.typespec()
	if p.peek() == "*" {
		p.next()
		return Field{p.ident(), &Type{K: KPtr, Elem: ts}}
	}
	n := p.ident()
	switch p.peek() {
	case "[":
		p.next()
		t := &Type{K: KArray, Elem: ts, nTok: p.next()}
		p.want("]")
		return Field{n, t}
	case "<":
		t := &Type{K: KVarArray, Elem: ts}
		p.bound(t)
		return Field{n, t}
	}
	return Field{n, ts}
}

func (p *parser) enumBody() *Type {
	t := &Type{K: KEnum}
	p.want("{")
	for {
		n := p.ident()
		p.want("=")
		t.Items = append(t.Items, EnumItem{Name: n, tok: p.next()})
		if x := p.next(); x == "}" {
			return t
		} else if x != "," {
			p.fail("bad enum")
		}
	}
}

func (p *parser) structBody() *Type {
	t := &Type{K: KStruct}
	p.want("{")
	for p.peek() != "}" {
		f := p.decl()
		p.want(";")
		if f.T.K != KVoid {
			t.Fields = append(t.Fields, f)
		}
	}
	p.next()
	return t
}

func (p *parser) unionBody() *Type {
	t := &Type{K: KUnion}
	p.want("switch")
	p.want("(")
	t.Disc = p.decl()
	p.want(")")
	p.want("{")
	for p.peek() == "case" {
		var a Arm
		for p.peek() == "case" {
			p.next()
			a.labelTok = append(a.labelTok, p.next())
			p.want(":")
		}
		a.F = p.decl()
		p.want(";")
		t.Arms = append(t.Arms, a)
	}
	if p.peek() == "default" {
		p.next()
		p.want(":")
		f := p.decl()
		p.want(";")
		t.Def = &f
	}
	p.want("}")
	return t
}

func (p *parser) num(tok string) int64 {
	if tok[0] >= '0' && tok[0] <= '9' {
		v, err := strconv.ParseInt(tok, 0, 64)
		if err != nil {
			p.fail("bad number " + tok)
		}
		return v
	}
	v, ok := p.s.Consts[tok]
	if !ok {
		p.fail("undefined " + tok)
	}
	return v
}

func (p *parser) typespecOpt() *Type {
	if p.peek() == "void" {
		p.next()
		return &Type{K: KVoid}
	}
	return p.typespec()
}

func (p *parser) program() {
	pr := Program{Name: p.ident()}
	p.want("{")
	for p.peek() == "version" {
		p.next()
		v := Version{Name: p.ident()}
		p.want("{")
		for p.peek() != "}" {
			c := Proc{Res: p.typespecOpt()}
			c.Name = p.ident()
			p.want("(")
			c.Arg = p.typespecOpt()
			p.want(")")
			p.want("=")
			c.Num = uint32(p.num(p.next()))
			p.want(";")
			v.Procs = append(v.Procs, c)
		}
		p.next()
		p.want("=")
		v.Num = uint32(p.num(p.next()))
		p.want(";")
		pr.Vers = append(pr.Vers, v)
	}
	p.want("}")
	p.want("=")
	pr.Num = uint32(p.num(p.next()))
	p.want(";")
	p.s.Progs = append(p.s.Progs, pr)
}

func (p *parser) enums(name string, t *Type) {
	if t == nil || t.K != KEnum {
		return
	}
	for i := range t.Items {
		it := &t.Items[i]
		tok := it.tok
		if tok[0] >= '0' && tok[0] <= '9' {
			it.Val = p.num(tok)
		} else if v, ok := p.s.Consts[tok]; ok {
			it.Val = v
		} else {
			continue
		}
		p.s.Consts[it.Name] = it.Val
		p.s.EnumOf[it.Name] = name
	}
}

func (p *parser) resolve(t *Type) {
	if t == nil {
		return
	}
	if t.nTok != "" {
		t.N = uint64(p.num(t.nTok))
	}
	p.resolve(t.Elem)
	for _, f := range t.Fields {
		p.resolve(f.T)
	}
	if t.K == KUnion {
		p.resolve(t.Disc.T)
		for i := range t.Arms {
			a := &t.Arms[i]
			for _, l := range a.labelTok {
				a.Labels = append(a.Labels, p.num(l))
			}
			p.resolve(a.F.T)
		}
		if t.Def != nil {
			p.resolve(t.Def.T)
		}
	}
	if t.K == KRef {
		if _, ok := p.s.Types[t.Ref]; !ok {
			p.fail("undefined type " + t.Ref)
		}
	}
}

// GoName is the Go identifier for an XDR identifier.
func GoName(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// Deref follows named types to a structural one.
func (s *Spec) Deref(t *Type) *Type {
	for t.K == KRef {
		t = s.Types[t.Ref]
	}
	return t
}
