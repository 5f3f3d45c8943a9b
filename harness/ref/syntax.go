package ref

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"
)

// Syntax judges source text. Verdicts are deliberately one-sided: Reject only
// for text that no reading of RFC 4506/5531 as this generator supports it
// allows, Accept only says that it is not that.

// Def is one top-level definition of accepted text.
type Def struct {
	Kind  string // const, type, enum, program
	Name  string
	Items []string // enum items, and items of nested definitions
	Names []string // names of fields and arms, at any depth
	Vers  []DefVers
}

type DefVers struct {
	Name  string
	Procs []string
}

type syntaxErr struct {
	why string
	may bool
}

var (
	numGood = regexp.MustCompile(`^(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)$`)
	numMay  = regexp.MustCompile(`^(0[bB][01_]+|0[oO][0-7_]+|0[xX][0-9a-fA-F_]+|[0-9][0-9_]*)$`)
)

var keywords = map[string]bool{"const": true, "typedef": true, "enum": true, "struct": true, "union": true, "switch": true, "case": true, "default": true, "void": true,
	"string": true, "opaque": true, "unsigned": true, "int": true, "hyper": true, "float": true, "double": true, "quadruple": true, "bool": true, "program": true, "version": true}

func lexStrict(src string) (toks []string) {
	i := 0
	word := func(c byte) bool { return isIdent(c) || c >= 0x80 }
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "/*"), strings.HasPrefix(src[i:], "//"):
			var text string
			if src[i+1] == '*' {
				e := strings.Index(src[i+2:], "*/")
				if e < 0 {
					panic(syntaxErr{why: "unterminated comment"})
				}
				text = src[i : i+e+4]
			} else if e := strings.IndexByte(src[i:], '\n'); e >= 0 {
				text = src[i : i+e]
			} else {
				text = src[i:]
			}
			if !utf8.ValidString(text) || strings.ContainsAny(text, "\x00\ufeff") || strings.HasPrefix(text[2:], "line ") {
				panic(syntaxErr{why: "unusual comment", may: true})
			}
			i += len(text)
		case word(c):
			j := i
			for j < len(src) && word(src[j]) {
				j++
			}
			w := src[i:j]
			i = j
			if w[0] >= '0' && w[0] <= '9' {
				if !numGood.MatchString(w) {
					if numMay.MatchString(w) && !regexp.MustCompile(`^0[0-9]*$`).MatchString(w) {
						panic(syntaxErr{why: "unusual number " + w, may: true})
					}
					panic(syntaxErr{why: "malformed number " + w})
				}
			} else {
				for _, b := range []byte(w) {
					if b >= 0x80 {
						panic(syntaxErr{why: "unusual identifier", may: true})
					}
				}
			}
			toks = append(toks, w)
		case strings.IndexByte("=;<>[]{},:()*", c) >= 0:
			toks = append(toks, string(c))
			i++
		case c == '\f' || c == '\v':
			panic(syntaxErr{why: "unusual white space", may: true})
		case c == '-' && i+1 < len(src) && src[i+1] >= '0' && src[i+1] <= '9':
			// negative constants are XDR, but not supported
			panic(syntaxErr{why: "negative number", may: true})
		default:
			panic(syntaxErr{why: fmt.Sprintf("character %q", c)})
		}
	}
	return
}

type strict struct {
	t    []string
	p    int
	may  string
	defs []Def
	d    *Def
	typ  bool // in the type position of a procedure
}

func (s *strict) fail(f string, a ...any) {
	panic(syntaxErr{why: fmt.Sprintf("token %d: ", s.p) + fmt.Sprintf(f, a...)})
}

func (s *strict) peek() string {
	if s.p < len(s.t) {
		return s.t[s.p]
	}
	return ""
}

func (s *strict) next() string {
	t := s.peek()
	if t == "" {
		s.fail("text ends")
	}
	s.p++
	return t
}

func (s *strict) want(ts ...string) {
	for _, t := range ts {
		if g := s.next(); g != t {
			s.fail("%q where %q must be", g, t)
		}
	}
}

func isNum(t string) bool { return t[0] >= '0' && t[0] <= '9' }

func (s *strict) ident() string {
	t := s.next()
	if !isIdent(t[0]) || isNum(t) {
		s.fail("%q where an identifier must be", t)
	}
	if keywords[t] {
		if t != "program" && t != "version" {
			s.fail("keyword %s where an identifier must be", t)
		}
		s.may = "program or version as identifier"
	}
	if t == "TRUE" || t == "FALSE" {
		s.may = "TRUE or FALSE defined anew"
	}
	return t
}

func (s *strict) number() {
	if t := s.next(); !isNum(t) {
		s.fail("%q where a number must be", t)
	}
}

func (s *strict) val() {
	if p := s.peek(); p != "" && isNum(p) || p == "TRUE" || p == "FALSE" {
		s.p++
		return
	}
	s.ident()
}

func (s *strict) spec(where string) {
	switch t := s.next(); t {
	case "unsigned":
		if n := s.next(); n != "int" && n != "hyper" {
			s.fail("unsigned %s", n)
		}
	case "int", "hyper", "bool":
	case "float", "double", "quadruple":
		s.fail("%s is not supported", t)
	case "enum":
		s.fail("an enum inside another definition is not supported")
	case "struct":
		if where == "proc" {
			s.fail("a struct inside a procedure is not supported")
		}
		s.structBody()
	case "union":
		if where == "proc" {
			s.fail("a union inside a procedure is not supported")
		}
		s.unionBody()
	default:
		s.p--
		s.ident()
	}
}

func (s *strict) sized(fixed bool) bool {
	switch s.peek() {
	case "[":
		if !fixed {
			s.fail("a string of fixed length")
		}
		s.p++
		s.val()
		s.want("]")
	case "<":
		s.p++
		if s.peek() != ">" {
			s.val()
		}
		s.want(">")
	default:
		return false
	}
	return true
}

func (s *strict) decl() (name string) {
	switch s.peek() {
	case "void":
		s.p++
		return ""
	case "opaque", "string":
		k := s.next()
		name = s.ident()
		if !s.sized(k == "opaque") {
			s.fail("%s without a size", k)
		}
		return
	}
	s.spec("decl")
	if s.peek() == "*" {
		s.p++
		return s.ident()
	}
	name = s.ident()
	s.sized(true)
	return
}

func (s *strict) field() {
	if n := s.decl(); n != "" {
		s.d.Names = append(s.d.Names, n)
	}
}

func (s *strict) enumBody() {
	s.want("{")
	for {
		s.d.Items = append(s.d.Items, s.ident())
		s.want("=")
		s.val()
		if t := s.next(); t == "}" {
			return
		} else if t != "," {
			s.fail("%q in an enum", t)
		}
	}
}

func (s *strict) structBody() {
	s.want("{")
	for s.peek() != "}" {
		s.field()
		s.want(";")
	}
	s.p++
}

func (s *strict) unionBody() {
	s.want("switch", "(")
	s.field()
	s.want(")", "{")
	for s.peek() == "case" {
		for s.peek() == "case" {
			s.p++
			s.val()
			s.want(":")
		}
		s.field()
		s.want(";")
	}
	if s.peek() == "default" {
		s.p++
		s.want(":")
		s.field()
		s.want(";")
	}
	s.want("}")
}

func (s *strict) procType() {
	if s.peek() == "void" {
		s.p++
		return
	}
	s.spec("proc")
}

func (s *strict) all() {
	for s.p < len(s.t) {
		d := Def{}
		s.d = &d
		switch t := s.next(); t {
		case "const":
			d.Kind, d.Name = "const", s.ident()
			s.want("=")
			s.number()
			s.want(";")
		case "typedef":
			d.Kind, d.Name = "type", s.decl()
			s.want(";")
			if d.Name == "" {
				continue
			}
		case "enum":
			d.Kind, d.Name = "type", s.ident()
			s.enumBody()
			s.want(";")
		case "struct":
			d.Kind, d.Name = "type", s.ident()
			s.structBody()
			s.want(";")
		case "union":
			d.Kind, d.Name = "type", s.ident()
			s.unionBody()
			s.want(";")
		case "program":
			d.Kind, d.Name = "program", s.ident()
			s.want("{")
			for s.peek() == "version" {
				s.p++
				v := DefVers{Name: s.ident()}
				s.want("{")
				for s.peek() != "}" {
					s.procType()
					v.Procs = append(v.Procs, s.ident())
					s.want("(")
					s.procType()
					s.want(")", "=")
					s.number()
					s.want(";")
				}
				s.want("}", "=")
				s.number()
				s.want(";")
				d.Vers = append(d.Vers, v)
			}
			s.want("}", "=")
			s.number()
			s.want(";")
		default:
			s.fail("%q where a definition must begin", t)
		}
		s.defs = append(s.defs, d)
	}
}

// Syntax judges source text: must is set if it must be rejected, and why says
// for what; otherwise defs are its definitions, or nil if it is too unusual.
func Syntax(src string) (must bool, why string, defs []Def) {
	s := &strict{}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(syntaxErr)
			if !ok {
				panic(r)
			}
			must, why, defs = !e.may && s.may == "", e.why, nil
		}
	}()
	src = strings.TrimPrefix(src, "\ufeff")
	s.t = lexStrict(src)
	s.all()
	if s.may != "" {
		return false, s.may, nil
	}
	return false, "", s.defs
}
