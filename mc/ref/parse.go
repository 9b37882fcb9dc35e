package ref

import "strings"

// ParseTokens reads a whole sequence of tokens as an expression, following the
// grammar of the language one rule at a time. The tokens are given as text and
// are taken to be separated by spaces; "\n" is a newline,
// "#..." and "//..." are comments to the end of a line, with its newline, and
// "/*...*/" are comments.
//
// When the sequence is not an expression, at is the position of the first
// token that cannot be part of one: len(toks) when the sequence is only the
// beginning of an expression. newlines tells whether newlines outside of all
// brackets count. judged is false when the sequence depends on a point of
// layout that the grammar leaves open.
func ParseTokens(toks []string, newlines bool) (n *Node, at int, judged bool) {
	p := &reader{toks: toks, nls: []bool{newlines}, judged: true}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(notExpr); !ok {
				panic(e)
			}
			n, at, judged = nil, p.i, p.judged
		}
	}()
	n = p.expr()
	if p.peek() != "" {
		p.fail()
	}
	return n, p.i, p.judged
}

type notExpr struct{}

type reader struct {
	toks   []string
	i      int
	nls    []bool
	judged bool
}

func (p *reader) peek() string {
	for p.i < len(p.toks) {
		t := p.toks[p.i]
		newline := t == "\n" || t == "\r\n" || t[0] == '#' || strings.HasPrefix(t, "//")
		switch {
		case strings.HasPrefix(t, "/*"), newline && !p.nls[len(p.nls)-1]:
			p.i++
		case newline:
			return "\n"
		default:
			return t
		}
	}
	return ""
}

func (p *reader) fail() {
	p.peek()
	panic(notExpr{})
}

func (p *reader) accept(t string) bool {
	if p.peek() == t {
		p.i++
		return true
	}
	return false
}

func (p *reader) expect(t string) {
	if !p.accept(t) {
		p.fail()
	}
}

func (p *reader) push(nl bool) { p.nls = append(p.nls, nl) }
func (p *reader) pop()         { p.nls = p.nls[:len(p.nls)-1] }

func isName(t string) bool {
	return t != "" && (t[0] == '_' || 'a' <= t[0] && t[0] <= 'z')
}

func isNumber(t string) bool { return t != "" && '0' <= t[0] && t[0] <= '9' }

func (p *reader) name() string {
	t := p.peek()
	if !isName(t) {
		p.fail()
	}
	p.i++
	return t
}

func (p *reader) expr() *Node {
	c := p.binary(0)
	if !p.accept("?") {
		return c
	}
	a := p.expr()
	p.expect(":")
	return Cond(c, a, p.expr())
}

var levels = [][]string{
	{"||"}, {"&&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"+", "-"}, {"*", "/", "%"},
}

func (p *reader) binary(level int) *Node {
	if level == len(levels) {
		return p.operand()
	}
	x := p.binary(level + 1)
next:
	for {
		for _, op := range levels[level] {
			if p.accept(op) {
				x = Bin(op, x, p.binary(level+1))
				continue next
			}
		}
		return x
	}
}

func (p *reader) operand() *Node {
	for _, op := range []string{"-", "!"} {
		if p.accept(op) {
			return Un(op, p.operand())
		}
	}
	return p.suffixes(p.term())
}

func (p *reader) term() *Node {
	t := p.peek()
	switch {
	case isNumber(t):
		p.i++
		return Num(t)
	case t != "" && t[0] == '"':
		p.i++
		if i := strings.Index(t, "${"); i > 0 {
			return Tmpl(Lit(t[1:i]), Interp(Var(t[i+2:len(t)-2])))
		}
		return Str(t[1 : len(t)-1])
	case isName(t):
		p.i++
		if p.peek() == "(" {
			return p.call(t)
		}
		return Var(t)
	case t == "(":
		p.i++
		p.push(false)
		x := p.expr()
		p.expect(")")
		p.pop()
		return Paren(x)
	case t == "[":
		p.i++
		p.push(false)
		defer p.pop()
		if p.accept("for") {
			return p.loop(false)
		}
		var xs []*Node
		for !p.accept("]") {
			xs = append(xs, p.expr())
			if !p.accept(",") && p.peek() != "]" {
				p.fail()
			}
		}
		return Tuple(xs...)
	case t == "{":
		p.i++
		p.push(false)
		isFor := p.accept2("for")
		p.pop()
		if isFor {
			p.push(false)
			defer p.pop()
			return p.loop(true)
		}
		p.push(true)
		defer p.pop()
		return p.object()
	}
	p.fail()
	return nil
}

// accept2 is accept, but leaves newlines unread when the token is another.
func (p *reader) accept2(t string) bool {
	i := p.i
	if p.accept(t) {
		return true
	}
	p.i = i
	return false
}

func (p *reader) object() *Node {
	var xs []*Node
	for {
		for p.accept("\n") {
		}
		if p.accept("}") {
			break
		}
		k := p.expr()
		if k.K == "var" {
			k = Key(k.S)
		}
		if !p.accept("=") && !p.accept(":") {
			p.fail()
		}
		xs = append(xs, k, p.expr())
		if !p.accept(",") && !p.accept("\n") && p.peek() != "}" {
			p.fail()
		}
	}
	return mk("obj", "", xs...)
}

func (p *reader) call(f string) *Node {
	p.expect("(")
	p.push(false)
	defer p.pop()
	var xs []*Node
	for !p.accept(")") {
		xs = append(xs, p.expr())
		if p.accept("...") {
			p.expect(")")
			return CallX(f, xs...)
		}
		if !p.accept(",") && p.peek() != ")" {
			p.fail()
		}
	}
	return Call(f, xs...)
}

func (p *reader) loop(object bool) *Node {
	key, val := "", p.name()
	if p.accept(",") {
		key, val = val, p.name()
	}
	p.expect("in")
	coll := p.expr()
	p.expect(":")
	var k *Node
	v := p.expr()
	group := false
	if object {
		p.expect("=>")
		k, v = v, p.expr()
		group = p.accept("...")
	}
	var cond *Node
	if p.accept("if") {
		cond = p.expr()
	}
	if object {
		p.expect("}")
		return ForO(key, val, coll, k, v, group, cond)
	}
	p.expect("]")
	return ForT(key, val, coll, v, cond)
}

func (p *reader) suffixes(x *Node) *Node {
	for {
		switch {
		case p.accept("."):
			t := p.peek()
			switch {
			case isName(t):
				p.i++
				x = Attr(x, t)
			case isNumber(t):
				p.i++
				x = LIdx(x, t)
			case t == "*":
				p.i++
				each := Item()
				for p.accept(".") {
					t := p.peek()
					switch {
					case isName(t):
						each = Attr(each, t)
					case isNumber(t):
						each = LIdx(each, t)
					default:
						p.fail()
					}
					p.i++
				}
				x = ASplat(x, each)
			default:
				p.fail()
			}
		case p.accept("["):
			open := p.i - 1
			p.push(false)
			if p.accept("*") {
				p.expect("]")
				p.pop()
				if p.i-open != 3 {
					p.judged = false
				}
				return FSplat(x, p.suffixes(Item()))
			}
			k := p.expr()
			p.expect("]")
			p.pop()
			x = Idx(x, k)
		default:
			return x
		}
	}
}

// An Entry is an attribute or a block of a body.
type Entry struct {
	Name   string
	Value  *Node // of an attribute
	Labels []string
	Body   []Entry
}

// ParseBodyTokens reads a sequence of tokens as a body, in the manner of
// ParseTokens.
func ParseBodyTokens(toks []string) (body []Entry, ok bool, at int, judged bool) {
	p := &reader{toks: toks, nls: []bool{true}, judged: true}
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(notExpr); !is {
				panic(e)
			}
			body, ok, at, judged = nil, false, p.i, p.judged
		}
	}()
	body = p.body("")
	return body, true, p.i, p.judged
}

func (p *reader) body(end string) []Entry {
	var items []Entry
	set := map[string]bool{}
	for {
		for p.accept("\n") {
		}
		if p.peek() == end {
			if end != "" {
				p.i++
			}
			return items
		}
		start := p.i
		name := p.name()
		var e Entry
		if p.accept("=") {
			if set[name] {
				p.i = start
				p.fail()
			}
			set[name] = true
			e = Entry{Name: name, Value: p.expr()}
		} else {
			e = p.block(name)
		}
		items = append(items, e)
		if p.peek() != "" {
			p.expect("\n")
		}
	}
}

func (p *reader) block(name string) Entry {
	e := Entry{Name: name}
	for !p.accept("{") {
		t := p.peek()
		switch {
		case t != "" && t[0] == '"' && !strings.Contains(t, "${"):
			e.Labels = append(e.Labels, t[1:len(t)-1])
		case isName(t):
			e.Labels = append(e.Labels, t)
		default:
			p.fail()
		}
		p.i++
	}
	switch p.peek() {
	case "\n", "}", "":
		e.Body = p.body("}")
	default:
		name := p.name()
		p.expect("=")
		e.Body = []Entry{{Name: name, Value: p.expr()}}
		p.expect("}")
	}
	return e
}

// ParseTemplateTokens reads a sequence of tokens as a template, in the manner
// of ParseTokens. Outside of interpolations and directives, every token but
// the ones that begin these is literal text.
func ParseTemplateTokens(toks []string) (n *Node, at int, judged bool) {
	p := &reader{toks: toks, nls: []bool{false}, judged: true}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(notExpr); !ok {
				panic(e)
			}
			n, at, judged = nil, p.i, p.judged
		}
	}()
	parts, end := p.template()
	if end != "" {
		p.i--
		p.fail()
	}
	return Tmpl(parts...), p.i, p.judged
}

// template reads the parts up to the end or to a directive that ends them,
// whose keyword is returned.
func (p *reader) template() ([]*Node, string) {
	var parts []*Node
	for p.i < len(p.toks) {
		t := p.toks[p.i]
		p.i++
		switch t {
		case "${":
			parts = append(parts, Interp(p.expr()))
			p.expect("}")
		case "%{":
			kw := p.name()
			switch kw {
			case "if":
				c := p.expr()
				p.expect("}")
				a, end := p.template()
				var b []*Node
				if end == "else" {
					b, end = p.template()
				}
				if end != "endif" {
					p.wrongEnd(end)
				}
				parts = append(parts, If(c, Body(a...), Body(b...)))
			case "for":
				key, val := "", p.name()
				if p.accept(",") {
					key, val = val, p.name()
				}
				p.expect("in")
				coll := p.expr()
				p.expect("}")
				x, end := p.template()
				if end != "endfor" {
					p.wrongEnd(end)
				}
				parts = append(parts, TFor(key, val, coll, Body(x...)))
			case "else", "endif", "endfor":
				p.expect("}")
				return parts, kw
			default:
				p.i--
				p.fail()
			}
		default:
			parts = append(parts, Lit(t))
		}
	}
	return parts, ""
}

func (p *reader) wrongEnd(kw string) {
	if kw != "" {
		p.i--
	}
	panic(notExpr{})
}
