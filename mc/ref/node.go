// Package ref is a reference model of the expression and template language: an
// abstract syntax, a printer with several layouts, a canonical form of the
// structure and a direct evaluator. It shares no code with the implementation
// except the value library, which is a trusted dependency.
package ref

import (
	"fmt"
	"strconv"
	"strings"
)

// Node is one node of an expression or template.
//
//	num S | bool S | null | str S | var S | item
//	paren X0 | un S X0 | bin S X0 X1 | cond X0 X1 X2
//	tuple X... | obj X(key,value)... with N the separators | key S
//	idx X0 X1 | attr X0 S | lidx X0 S
//	asplat X0 X1 | fsplat X0 X1   (X1 is over item)
//	for N(key,val) X(coll, key or nil, value, cond or nil), B object, S grouping
//	call S X..., B expand
//	tmpl X(parts)   parts: lit S | interp X0 | if X0 X1 [X2] | tfor N X0 X1
//	body X(parts)   sub-template of if and tfor; N holds strip markers
type Node struct {
	K string   `json:"k"`
	S string   `json:"s,omitempty"`
	X []*Node  `json:"x,omitempty"`
	N []string `json:"n,omitempty"`
	B bool     `json:"b,omitempty"`
}

func mk(k, s string, x ...*Node) *Node { return &Node{K: k, S: s, X: x} }

func Num(s string) *Node              { return mk("num", s) }
func Bool(b bool) *Node               { return mk("bool", strconv.FormatBool(b)) }
func Null() *Node                     { return mk("null", "") }
func Str(s string) *Node              { return mk("str", s) }
func Var(s string) *Node              { return mk("var", s) }
func Item() *Node                     { return mk("item", "") }
func Paren(x *Node) *Node             { return mk("paren", "", x) }
func Un(op string, x *Node) *Node     { return mk("un", op, x) }
func Bin(op string, a, b *Node) *Node { return mk("bin", op, a, b) }
func Cond(c, a, b *Node) *Node        { return mk("cond", "", c, a, b) }
func Tuple(x ...*Node) *Node          { return mk("tuple", "", x...) }
func Key(s string) *Node              { return mk("key", s) }
func Idx(a, b *Node) *Node            { return mk("idx", "", a, b) }
func Attr(a *Node, s string) *Node    { return mk("attr", s, a) }
func LIdx(a *Node, s string) *Node    { return mk("lidx", s, a) }
func ASplat(a, each *Node) *Node      { return mk("asplat", "", a, each) }
func FSplat(a, each *Node) *Node      { return mk("fsplat", "", a, each) }
func Call(f string, x ...*Node) *Node { return mk("call", f, x...) }
func CallX(f string, x ...*Node) *Node {
	n := mk("call", f, x...)
	n.B = true
	return n
}

// Obj takes alternating keys and values, all with "=" as separator.
func Obj(x ...*Node) *Node {
	n := mk("obj", "", x...)
	for i := 0; i < len(x); i += 2 {
		n.N = append(n.N, "=")
	}
	return n
}

// ForT is a for expression producing a tuple; key may be "" and cond nil.
func ForT(key, val string, coll, value, cond *Node) *Node {
	return &Node{K: "for", N: []string{key, val}, X: []*Node{coll, nil, value, cond}}
}

// ForO is a for expression producing an object.
func ForO(key, val string, coll, k, value *Node, group bool, cond *Node) *Node {
	n := &Node{K: "for", B: true, N: []string{key, val}, X: []*Node{coll, k, value, cond}}
	if group {
		n.S = "..."
	}
	return n
}

func Tmpl(parts ...*Node) *Node { return mk("tmpl", "", parts...) }
func Lit(s string) *Node        { return mk("lit", s) }
func Interp(x *Node) *Node      { return mk("interp", "", x) }
func Body(parts ...*Node) *Node { return mk("body", "", parts...) }
func If(c, then, els *Node) *Node {
	if els == nil {
		return mk("if", "", c, then)
	}
	return mk("if", "", c, then, els)
}
func TFor(key, val string, coll, body *Node) *Node {
	return &Node{K: "tfor", N: []string{key, val}, X: []*Node{coll, body}}
}

// Prec gives the precedence level of each binary operator.
var Prec = map[string]int{
	"||": 1, "&&": 2, "==": 3, "!=": 3,
	"<": 4, "<=": 4, ">": 4, ">=": 4,
	"+": 5, "-": 5, "*": 6, "/": 6, "%": 6,
}

const (
	lvlAny    = 0
	lvlUnary  = 7
	lvlSuffix = 8
	lvlTerm   = 9
)

func (n *Node) level() int {
	switch n.K {
	case "cond":
		return lvlAny
	case "bin":
		return Prec[n.S]
	case "un":
		return lvlUnary
	case "idx", "attr", "lidx", "asplat", "fsplat":
		return lvlSuffix
	}
	return lvlTerm
}

// Layout selects how a tree is written.
type Layout int

const (
	Spaced   Layout = iota // one space between tokens
	Compact                // no space that can be left out
	Comments               // a comment between every two tokens
	Lines                  // a newline between tokens wherever brackets allow it
	Parens                 // redundant parentheses around every sub-expression
	NumLayouts
)

// tok is a token with what is known about the place before it.
type tok struct {
	s  string
	nl bool // newlines are insignificant before this token
	// glued tokens follow the previous one without any space (parts of a
	// template)
	glued bool
}

type printer struct {
	toks   []tok
	stack  []bool // for each open bracket: newlines are insignificant inside
	parens bool
	top    bool // newlines are insignificant outside of all brackets
}

func (p *printer) nl() bool {
	if len(p.stack) == 0 {
		return p.top
	}
	return p.stack[len(p.stack)-1]
}

func (p *printer) t(s string)           { p.toks = append(p.toks, tok{s: s, nl: p.nl()}) }
func (p *printer) tnl(s string, b bool) { p.toks = append(p.toks, tok{s: s, nl: b}) }
func (p *printer) g(s string)           { p.toks = append(p.toks, tok{s: s, glued: true}) }
func (p *printer) push(nl bool)         { p.stack = append(p.stack, nl) }
func (p *printer) pop()                 { p.stack = p.stack[:len(p.stack)-1] }

// expr writes n where an expression of at least the given level is expected.
func (p *printer) expr(n *Node, min int) {
	if n.level() < min || (p.parens && n.K != "item" && n.K != "paren") {
		p.t("(")
		p.push(true)
		p.raw(n)
		p.t(")")
		p.pop()
		return
	}
	p.raw(n)
}

// base writes the operand of a suffix operator.
func (p *printer) base(n *Node, dotted, digit bool) {
	needs := false
	switch n.K {
	case "num":
		needs = dotted
	case "fsplat":
		needs = true
	case "asplat":
		needs = dotted
	case "lidx":
		needs = digit // a.0.1 would read as a number
	}
	if n.K == "item" {
		return
	}
	if needs && !p.parens {
		p.t("(")
		p.push(true)
		p.raw(n)
		p.t(")")
		p.pop()
		return
	}
	p.suffixOperand(n)
}

func (p *printer) suffixOperand(n *Node) {
	if p.parens && overItem(n) {
		// steps of a splat cannot be parenthesised
		p.raw(n)
		return
	}
	p.expr(n, lvlSuffix)
}

func overItem(n *Node) bool {
	switch n.K {
	case "item":
		return true
	case "idx", "attr", "lidx", "asplat", "fsplat":
		return overItem(n.X[0])
	}
	return false
}

func (p *printer) raw(n *Node) {
	switch n.K {
	case "num", "bool", "var", "key":
		p.t(n.S)
	case "null":
		p.t("null")
	case "str":
		p.t(`"` + Escape(n.S) + `"`)
	case "item":
	case "paren":
		p.t("(")
		p.push(true)
		p.expr(n.X[0], lvlAny)
		p.t(")")
		p.pop()
	case "un":
		p.t(n.S)
		p.expr(n.X[0], lvlUnary)
	case "bin":
		l := Prec[n.S]
		p.expr(n.X[0], l)
		p.t(n.S)
		p.expr(n.X[1], l+1)
	case "cond":
		p.expr(n.X[0], 1)
		p.t("?")
		p.expr(n.X[1], lvlAny)
		p.t(":")
		p.expr(n.X[2], lvlAny)
	case "tuple":
		p.t("[")
		p.push(true)
		for i, x := range n.X {
			if i > 0 {
				p.t(",")
			}
			p.expr(x, lvlAny)
		}
		if n.B {
			p.t(",")
		}
		p.t("]")
		p.pop()
	case "obj":
		p.t("{")
		p.push(false)
		for i := 0; i < len(n.X); i += 2 {
			if i > 0 {
				if n.B {
					// items separated by newlines alone
					p.tnl("\n", false)
				} else {
					p.t(",")
				}
			}
			at := len(p.toks)
			if n.X[i].K == "key" {
				p.t(n.X[i].S)
			} else {
				p.expr(n.X[i], lvlAny)
			}
			if at < len(p.toks) {
				p.toks[at].nl = true // after "{" or ","
			}
			p.t(n.N[i/2])
			p.expr(n.X[i+1], lvlAny)
		}
		p.tnl("}", true)
		p.pop()
	case "idx":
		p.base(n.X[0], false, false)
		p.t("[")
		p.push(true)
		p.expr(n.X[1], lvlAny)
		p.t("]")
		p.pop()
	case "attr":
		p.base(n.X[0], true, false)
		p.t(".")
		p.t(n.S)
	case "lidx":
		p.base(n.X[0], true, true)
		p.t(".")
		p.t(n.S)
	case "asplat":
		p.base(n.X[0], true, false)
		p.t(".")
		p.t("*")
		p.raw(n.X[1])
	case "fsplat":
		p.base(n.X[0], false, false)
		p.t("[")
		p.t("*")
		p.t("]")
		p.raw(n.X[1])
	case "for":
		if n.B {
			p.t("{")
		} else {
			p.t("[")
		}
		p.push(true)
		p.t("for")
		if n.N[0] != "" {
			p.t(n.N[0])
			p.t(",")
		}
		p.t(n.N[1])
		p.t("in")
		p.expr(n.X[0], lvlAny)
		p.t(":")
		if n.B {
			p.expr(n.X[1], lvlAny)
			p.t("=>")
		}
		p.expr(n.X[2], lvlAny)
		if n.S != "" {
			p.t("...")
		}
		if n.X[3] != nil {
			p.t("if")
			p.expr(n.X[3], lvlAny)
		}
		if n.B {
			p.t("}")
		} else {
			p.t("]")
		}
		p.pop()
	case "call":
		p.t(n.S)
		p.t("(")
		p.push(true)
		for i, x := range n.X {
			if i > 0 {
				p.t(",")
			}
			p.expr(x, lvlAny)
		}
		if n.B {
			p.t("...")
		}
		p.t(")")
		p.pop()
	case "tmpl":
		p.t(`"`)
		p.parts(n.X, Escape)
		p.g(`"`)
	default:
		panic("print " + n.K)
	}
}

// marker gives the strip marker at index i of n.N counted from base.
func marker(n *Node, i int) string {
	if i < len(n.N) {
		return n.N[i]
	}
	return ""
}

func (p *printer) parts(parts []*Node, esc func(string) string) {
	open := func(s string) { p.g(s); p.push(true) }
	end := func(s string) { p.t(s); p.pop() }
	for _, x := range parts {
		switch x.K {
		case "lit":
			p.g(esc(x.S))
		case "interp":
			open("${" + marker(x, 0))
			p.expr(x.X[0], lvlAny)
			end(marker(x, 1) + "}")
		case "if":
			// N: open, close of if; open, close of else; open, close of endif
			open("%{" + marker(x, 0))
			p.t("if")
			p.expr(x.X[0], lvlAny)
			end(marker(x, 1) + "}")
			p.parts(x.X[1].X, esc)
			if len(x.X) > 2 {
				open("%{" + marker(x, 2))
				p.t("else")
				end(marker(x, 3) + "}")
				p.parts(x.X[2].X, esc)
			}
			open("%{" + marker(x, 4))
			p.t("endif")
			end(marker(x, 5) + "}")
		case "tfor":
			// N: key, value, open, close of for, open, close of endfor
			open("%{" + marker(x, 2))
			p.t("for")
			if x.N[0] != "" {
				p.t(x.N[0])
				p.t(",")
			}
			p.t(x.N[1])
			p.t("in")
			p.expr(x.X[0], lvlAny)
			end(marker(x, 3) + "}")
			p.parts(x.X[1].X, esc)
			open("%{" + marker(x, 4))
			p.t("endfor")
			end(marker(x, 5) + "}")
		default:
			panic("part " + x.K)
		}
	}
}

func wordy(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func needSpace(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	x, y := a[len(a)-1], b[0]
	if a[0] == '"' || strings.HasPrefix(a, "${") || strings.HasPrefix(a, "%{") {
		return false
	}
	if wordy(x) && (wordy(y) || y == '-') {
		return true
	}
	if a[0] >= '0' && a[0] <= '9' && y == '.' {
		return true
	}
	switch a + b {
	case "//", "/*", "==", "!=", "<=", ">=", "=>", "<<", "!==", "====", "&&&", "~}":
		return true
	}
	return false
}

// Print writes an expression. Newlines count as insignificant outside of
// brackets if top is set, which is the case for stand-alone expressions but
// not for attribute values.
func (n *Node) Print(l Layout, top bool) string {
	p := &printer{parens: l == Parens, top: top}
	p.expr(n, lvlAny)
	return p.join(l)
}

// PrintTokens gives the tokens of the spaced layout and, for each, whether
// newlines are insignificant before it.
func (n *Node) PrintTokens() (toks []string, nl []bool, glued []bool) {
	p := &printer{}
	p.expr(n, lvlAny)
	for _, t := range p.toks {
		toks = append(toks, t.s)
		nl = append(nl, t.nl)
		glued = append(glued, t.glued)
	}
	return
}

// PrintTemplate writes the parts of a template as a stand-alone template.
func (n *Node) PrintTemplate(l Layout) string {
	p := &printer{parens: l == Parens, top: true}
	p.parts(n.X, EscapeBare)
	return p.join(l)
}

func (p *printer) join(l Layout) string {
	var b strings.Builder
	for i, t := range p.toks {
		if i > 0 && !t.glued {
			prev := p.toks[i-1]
			switch l {
			case Compact:
				if needSpace(prev.s, t.s) {
					b.WriteByte(' ')
				}
			case Comments:
				if prev.s == "/" || strings.HasPrefix(prev.s, "${") || strings.HasPrefix(prev.s, "%{") || t.s == "\n" {
					b.WriteString(" ")
				}
				b.WriteString("/*c*/")
				if t.s == "\n" {
					break
				}
				if needSpace(prev.s, t.s) {
					b.WriteByte('\t')
				}
			case Lines:
				if t.nl {
					b.WriteString("\n ")
				} else {
					b.WriteByte(' ')
				}
			default:
				b.WriteByte(' ')
			}
		}
		b.WriteString(t.s)
	}
	return b.String()
}

// Escape writes s as the content of a quoted string.
func Escape(s string) string {
	var b strings.Builder
	rs := []rune(s)
	for i, r := range rs {
		switch r {
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			b.WriteString(`\t`)
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '$', '%':
			b.WriteRune(r)
			if i+1 < len(rs) && rs[i+1] == '{' {
				b.WriteRune(r)
			}
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// EscapeBare writes s as literal text of a stand-alone or heredoc template.
func EscapeBare(s string) string {
	s = strings.Replace(s, "${", "$${", -1)
	return strings.Replace(s, "%{", "%%{", -1)
}

// String gives the canonical form of the structure.
func (n *Node) String() string {
	switch n.K {
	case "paren":
		return n.X[0].String()
	case "num":
		return "(num " + n.S + ")"
	case "bool":
		return n.S
	case "null":
		return "null"
	case "str":
		return fmt.Sprintf("(str %q)", n.S)
	case "var":
		return n.S
	case "key":
		return fmt.Sprintf("(key %s)", n.S)
	case "item":
		return "item"
	case "un", "bin", "cond", "tuple":
		op := n.S
		if op == "" {
			op = n.K
		}
		if n.K == "un" {
			op = "un" + op
		}
		return List(op, n.X)
	case "obj":
		return List("obj", n.X)
	case "idx":
		return List("idx", n.X)
	case "attr":
		return "(attr " + n.X[0].String() + " " + n.S + ")"
	case "lidx":
		return "(idx " + n.X[0].String() + " (num " + n.S + "))"
	case "asplat", "fsplat":
		return List("splat", n.X)
	case "for":
		op := "for"
		if n.B {
			op = "forobj"
		}
		op += n.S + " " + n.N[0] + "," + n.N[1]
		return List(op, n.X)
	case "call":
		op := "call " + n.S
		if n.B {
			op += "..."
		}
		return List(op, n.X)
	case "tmpl":
		if len(n.X) == 1 && n.X[0].K == "interp" {
			return "(wrap " + n.X[0].X[0].String() + ")"
		}
		return TmplString(n.X)
	}
	panic("string " + n.K)
}

func List(op string, xs []*Node) string {
	var b strings.Builder
	b.WriteString("(" + op)
	for _, x := range xs {
		if x == nil {
			continue
		}
		b.WriteString(" " + x.String())
	}
	b.WriteString(")")
	return b.String()
}

// TmplString is the canonical form of a sequence of template parts without
// strip markers: adjacent literals are joined.
func TmplString(parts []*Node) string {
	var out []string
	lit := ""
	flush := func() {
		if lit != "" {
			out = append(out, fmt.Sprintf("%q", lit))
			lit = ""
		}
	}
	for _, x := range parts {
		switch x.K {
		case "lit":
			lit += x.S
		case "interp":
			flush()
			out = append(out, x.X[0].String())
		case "if":
			flush()
			els := TmplString(nil)
			if len(x.X) > 2 {
				els = TmplString(x.X[2].X)
			}
			out = append(out, "(cond "+x.X[0].String()+" "+TmplString(x.X[1].X)+" "+els+")")
		case "tfor":
			flush()
			out = append(out, "(join (for "+x.N[0]+","+x.N[1]+" "+x.X[0].String()+" "+TmplString(x.X[1].X)+"))")
		}
	}
	flush()
	return JoinTmpl(out)
}

// JoinTmpl forms the canonical template of already formatted parts.
func JoinTmpl(out []string) string {
	if len(out) == 0 {
		return `(str "")`
	}
	if len(out) == 1 && out[0][0] == '"' {
		return "(str " + out[0] + ")"
	}
	return "(tmpl " + strings.Join(out, " ") + ")"
}
