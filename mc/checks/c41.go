package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"verif/mc/fw"
)

// laidTok is a token with the number of spaces before it, on its line.
type laidTok struct {
	hclsyntax.Token
	gap   int
	first bool // of its line
}

func laidToks(src []byte) []laidTok {
	toks, _ := hclsyntax.LexConfig(src, "t", hcl.InitialPos)
	var ret []laidTok
	end, first := 0, true
	for _, t := range toks {
		ret = append(ret, laidTok{t, t.Range.Start.Byte - end, first})
		end = t.Range.End.Byte
		first = endsLine(t)
	}
	return ret
}

func endsLine(t hclsyntax.Token) bool {
	return t.Type == hclsyntax.TokenNewline || t.Type == hclsyntax.TokenComment && bytes.HasSuffix(t.Bytes, []byte("\n"))
}

// freeGap tells whether spaces between two tokens mean nothing.
func freeGap(a, b hclsyntax.TokenType) bool {
	switch a {
	case hclsyntax.TokenOQuote, hclsyntax.TokenQuotedLit, hclsyntax.TokenStringLit, hclsyntax.TokenOHeredoc, hclsyntax.TokenTemplateSeqEnd:
		return false
	}
	switch b {
	case hclsyntax.TokenCQuote, hclsyntax.TokenQuotedLit, hclsyntax.TokenStringLit, hclsyntax.TokenCHeredoc:
		return false
	}
	return true
}

// respace writes the tokens with other spaces between them.
func respace(toks []laidTok, f func(i int, a, b laidTok) string) []byte {
	var buf bytes.Buffer
	for i, t := range toks {
		prev := laidTok{}
		if i > 0 {
			prev = toks[i-1]
		}
		if t.Type != hclsyntax.TokenEOF && (i == 0 || freeGap(prev.Type, t.Type)) {
			buf.WriteString(f(i, prev, t))
		} else {
			buf.WriteString(strings.Repeat(" ", t.gap))
		}
		buf.Write(t.Bytes)
	}
	return buf.Bytes()
}

var respacings = []func(i int, a, b laidTok) string{
	func(i int, a, b laidTok) string { return " " },
	func(i int, a, b laidTok) string { return "\t  " },
	func(i int, a, b laidTok) string {
		if b.first {
			return "     "
		}
		return strings.Repeat(" ", b.gap)
	},
	func(i int, a, b laidTok) string {
		if b.first {
			return ""
		}
		return strings.Repeat(" ", 1+i%3)
	},
	func(i int, a, b laidTok) string {
		switch a.Type {
		case hclsyntax.TokenIdent, hclsyntax.TokenNumberLit, hclsyntax.TokenDot:
			switch b.Type {
			case hclsyntax.TokenIdent, hclsyntax.TokenNumberLit, hclsyntax.TokenDot, hclsyntax.TokenMinus:
				return strings.Repeat(" ", b.gap)
			}
		}
		return ""
	},
}

var isOperator = map[hclsyntax.TokenType]bool{
	hclsyntax.TokenPlus: true, hclsyntax.TokenSlash: true, hclsyntax.TokenPercent: true, hclsyntax.TokenEqualOp: true, hclsyntax.TokenNotEqual: true, hclsyntax.TokenLessThan: true, hclsyntax.TokenLessThanEq: true, hclsyntax.TokenGreaterThan: true, hclsyntax.TokenGreaterThanEq: true,
	hclsyntax.TokenAnd: true, hclsyntax.TokenOr: true, hclsyntax.TokenQuestion: true, hclsyntax.TokenColon: true, hclsyntax.TokenFatArrow: true, hclsyntax.TokenStar: true, hclsyntax.TokenMinus: true,
}

var opens = map[hclsyntax.TokenType]int{
	hclsyntax.TokenOBrace: 1, hclsyntax.TokenOBrack: 1, hclsyntax.TokenOParen: 1, hclsyntax.TokenTemplateControl: 1, hclsyntax.TokenTemplateInterp: 1,
	hclsyntax.TokenCBrace: -1, hclsyntax.TokenCBrack: -1, hclsyntax.TokenCParen: -1, hclsyntax.TokenTemplateSeqEnd: -1,
}

// badGap says how many spaces there ought to be before a token.
func badGap(pp, a, b laidTok) string {
	T := func(t hclsyntax.TokenType) bool { return b.Type == t }
	A := func(t hclsyntax.TokenType) bool { return a.Type == t }
	want := -1
	word := string(a.Bytes)
	keyword := A(hclsyntax.TokenIdent) && (word == "in" || word == "if" || word == "for" || word == "else")
	// a minus or star after the end of an operand is an operator
	operand := func(t laidTok) bool {
		switch t.Type {
		case hclsyntax.TokenIdent:
			w := string(t.Bytes)
			return w != "in" && w != "if" && w != "else" && w != "for"
		case hclsyntax.TokenNumberLit, hclsyntax.TokenCQuote, hclsyntax.TokenCParen, hclsyntax.TokenCBrack, hclsyntax.TokenCBrace:
			return true
		}
		return false
	}
	negation := func(before laidTok) bool {
		if isOperator[before.Type] && before.Type != hclsyntax.TokenFatArrow {
			return true
		}
		switch before.Type {
		case hclsyntax.TokenOParen, hclsyntax.TokenOBrack, hclsyntax.TokenOBrace, hclsyntax.TokenEqual, hclsyntax.TokenComma:
			return true
		}
		return false
	}
	switch {
	case T(hclsyntax.TokenNewline):
		want = 0
	case T(hclsyntax.TokenEOF), T(hclsyntax.TokenComment), A(hclsyntax.TokenComment):
	case !freeGap(a.Type, b.Type), A(hclsyntax.TokenTemplateInterp), A(hclsyntax.TokenTemplateControl), T(hclsyntax.TokenTemplateSeqEnd), T(hclsyntax.TokenTemplateInterp), T(hclsyntax.TokenTemplateControl):
	case A(hclsyntax.TokenBang):
	case T(hclsyntax.TokenComma), T(hclsyntax.TokenEllipsis):
		want = 0
	case A(hclsyntax.TokenComma):
		want = 1
	case A(hclsyntax.TokenDot) && T(hclsyntax.TokenNumberLit):
	case A(hclsyntax.TokenDot), T(hclsyntax.TokenDot):
		want = 0
	case keyword && (T(hclsyntax.TokenOParen) || T(hclsyntax.TokenOBrack)):
	case A(hclsyntax.TokenIdent) && (T(hclsyntax.TokenOParen) || T(hclsyntax.TokenOBrack)):
		want = 0
	case A(hclsyntax.TokenOBrace) && T(hclsyntax.TokenCBrace):
		want = 0
	case A(hclsyntax.TokenOBrace), T(hclsyntax.TokenCBrace):
		want = 1
	case A(hclsyntax.TokenOParen), A(hclsyntax.TokenOBrack), T(hclsyntax.TokenCParen), T(hclsyntax.TokenCBrack):
		want = 0
	case (A(hclsyntax.TokenCParen) || A(hclsyntax.TokenCBrack) || A(hclsyntax.TokenNumberLit)) && T(hclsyntax.TokenOBrack):
		want = 0
	case A(hclsyntax.TokenMinus):
		if operand(pp) {
			want = 1
		} else if negation(pp) && !a.first {
			want = 0
		}
	case A(hclsyntax.TokenStar) && !operand(pp):
	case A(hclsyntax.TokenEqual), isOperator[a.Type]:
		want = 1
	case T(hclsyntax.TokenEqual):
		if b.gap == 0 {
			return "no space"
		}
	case isOperator[b.Type]:
		want = 1
	case A(hclsyntax.TokenIdent), A(hclsyntax.TokenCQuote):
		if T(hclsyntax.TokenIdent) || T(hclsyntax.TokenOQuote) || T(hclsyntax.TokenOBrace) || T(hclsyntax.TokenNumberLit) {
			want = 1
		}
	}
	if want >= 0 && b.gap != want {
		return fmt.Sprintf("%d spaces instead of %d", b.gap, want)
	}
	return ""
}

// badLayout says what is wrong with the layout of formatted source.
func badLayout(out []byte) string {
	toks := laidToks(out)
	where := func(t laidTok) string { return fmt.Sprintf("before %q at %s", t.Bytes, t.Range) }
	if bytes.ContainsRune(out, '\t') {
		for i, t := range toks {
			s := t.Range.Start.Byte
			if i > 0 && bytes.ContainsRune(out[toks[i-1].Range.End.Byte:s], '\t') {
				return "a tab " + where(t)
			}
		}
	}
	for i, t := range toks {
		if t.first || i == 0 {
			continue
		}
		pp := laidTok{}
		if i > 1 && !toks[i-1].first {
			pp = toks[i-2]
		}
		if m := badGap(pp, toks[i-1], t); m != "" {
			return m + " " + where(t)
		}
	}

	// indentation, while at most one bracket is opened or closed per line
	depth := 0
	for i := 0; i < len(toks); {
		j, d := i, depth
		for ; j < len(toks); j++ {
			d += opens[toks[j].Type]
			if endsLine(toks[j].Token) {
				j++
				break
			}
		}
		if d > depth+1 || d < depth-1 {
			break
		}
		if t := toks[i]; t.Type != hclsyntax.TokenNewline && t.Type != hclsyntax.TokenEOF {
			if want := 2 * min(d, depth); t.gap != want {
				return fmt.Sprintf("%d spaces instead of %d %s", t.gap, want, where(t))
			}
		}
		depth = d
		i = j
	}

	f, diags := hclsyntax.ParseConfig(out, "t", hcl.InitialPos)
	if diags.HasErrors() {
		return diagsStr(diags)
	}
	body := f.Body.(*hclsyntax.Body)
	lineStart := map[int]bool{}
	before := map[int]int{}
	for i, t := range toks {
		if t.Type == hclsyntax.TokenEqual && i > 0 {
			before[t.Range.Start.Byte] = toks[i-1].Range.End.Column
		}
		if t.first {
			lineStart[t.Range.Start.Byte] = true
		}
	}
	if m := badIndent(body, 0, lineStart); m != "" {
		return m
	}
	heredoc := bytes.Contains(out, []byte("<<"))

	// alignment of the equals signs of attributes in consecutive lines
	if m := badAlign(body, before, heredoc); m != "" {
		return m
	}

	// alignment of comments at the ends of consecutive lines
	type lineEnd struct{ line, end, col int }
	var run []lineEnd
	flush := func() string {
		max := 0
		for _, l := range run {
			if l.end > max {
				max = l.end
			}
		}
		for _, l := range run {
			if l.col != max+1 {
				return fmt.Sprintf("the comment at the end of line %d starts in column %d instead of %d", l.line, l.col, max+1)
			}
		}
		run = nil
		return ""
	}
	multi := false
	for i, t := range toks {
		if t.Range.Start.Line != t.Range.End.Line && !endsLine(t.Token) {
			multi = true // a token of several lines
		}
		last := i+1 == len(toks) || toks[i+1].Type == hclsyntax.TokenEOF
		if !endsLine(t.Token) && !last || t.Type != hclsyntax.TokenComment || t.first {
			continue
		}
		l := lineEnd{t.Range.Start.Line, toks[i-1].Range.End.Column, t.Range.Start.Column}
		if len(run) > 0 && run[len(run)-1].line != l.line-1 {
			if m := flush(); m != "" {
				return m
			}
		}
		run = append(run, l)
	}
	if multi {
		return ""
	}
	return flush()
}

// badIndent looks at the items of a body that start a line.
func badIndent(b *hclsyntax.Body, depth int, lineStart map[int]bool) string {
	at := func(what string, r hcl.Range) string {
		if lineStart[r.Start.Byte] && r.Start.Column != 1+2*depth {
			return fmt.Sprintf("%s in %d blocks starts in column %d", what, depth, r.Start.Column)
		}
		return ""
	}
	for _, a := range b.Attributes {
		if m := at("attribute "+a.Name, a.NameRange); m != "" {
			return m
		}
	}
	for _, bl := range b.Blocks {
		if m := at("block "+bl.Type, bl.TypeRange); m != "" {
			return m
		}
		if m := at("closing brace of "+bl.Type, bl.CloseBraceRange); m != "" {
			return m
		}
		if m := badIndent(bl.Body, depth+1, lineStart); m != "" {
			return m
		}
	}
	return ""
}

// badAlign looks at the equals signs of the attributes of a body. The ends of
// the tokens before them are given.
func badAlign(b *hclsyntax.Body, before map[int]int, heredoc bool) string {
	byLine := map[int]*hclsyntax.Attribute{}
	for _, a := range b.Attributes {
		if a.SrcRange.Start.Line == a.SrcRange.End.Line {
			byLine[a.SrcRange.Start.Line] = a
		}
	}
	for l, a := range byLine {
		if byLine[l-1] != nil {
			continue
		}
		max := 0
		for k := l; byLine[k] != nil; k++ {
			if c := before[byLine[k].EqualsRange.Start.Byte]; c > max {
				max = c
			}
		}
		for k := l; byLine[k] != nil; k++ {
			col := byLine[k].EqualsRange.Start.Column
			if col != a.EqualsRange.Start.Column || !heredoc && col != max+1 {
				return fmt.Sprintf("the equals sign in line %d is in column %d", k, col)
			}
		}
	}
	for _, bl := range b.Blocks {
		if bl.OpenBraceRange.Start.Line != bl.CloseBraceRange.Start.Line {
			if m := badAlign(bl.Body, before, heredoc); m != "" {
				return m
			}
		}
	}
	return ""
}

// layoutLines are lines, in which @ stands for a name.
var layoutLines = []string{
	"@ = 1\n", "@ = x # c\n", "@ = [\n", "@ = f({\n", "@ = {\n", "]\n", "]]\n", "}) // c\n", "}\n", "b {\n", "b \"l\" { # c\n", "[\n", "1, # c\n", "\"k\" = [2],\n", "# c\n", "\n", "@ = <<E\n${\n", "x\n", "}\nE\n", "@ = [[ # c\n", "b { @ = -1 }\n",
}

func checkLayout(r *fw.Rec, s string) {
	src := []byte(s)
	if _, diags := hclsyntax.ParseConfig(src, "t", hcl.InitialPos); diags.HasErrors() {
		return
	}
	r.State(s)
	out := hclwrite.Format(src)
	r.Op(1)
	if m := badLayout(out); m != "" {
		r.Failf("", "%q is formatted as %q: %s", s, out, m)
		return
	}
	toks := laidToks(src)
	want := lexToks(src)
	for _, f := range respacings {
		v := respace(toks, f)
		if !eqStrs(lexToks(v), want) {
			r.Count("other tokens", 1)
			continue
		}
		r.Op(1)
		if got := hclwrite.Format(v); !bytes.Equal(got, out) {
			r.Failf("", "%q is formatted as %q, but with other spaces, %q, as %q", s, out, v, got)
			return
		}
	}
	r.Trace()
}

func init() {
	suites := append(wSuites(checkLayout), fw.S("lines", fmt.Sprintf("every sequence of up to 5 (thorough 6) lines out of %d that open, close or separate, and of one line less in nested blocks", len(layoutLines)),
		func(t fw.Tier, yield func(fw.StrCase)) {
			eachSeq(len(layoutLines), 1, fw.Pick(t, 5, 6), func(seq []int) {
				depth := 0
				var b strings.Builder
				for i, k := range seq {
					l := layoutLines[k]
					depth += strings.Count(l, "{") + strings.Count(l, "[") + strings.Count(l, "(") - strings.Count(l, "}") - strings.Count(l, "]") - strings.Count(l, ")")
					if depth < 0 {
						return
					}
					b.WriteString(strings.Replace(l, "@", strings.Repeat("n", 1+(i*3)%5)+fmt.Sprint(i), -1))
				}
				if depth == 0 {
					yield(fw.StrCase(b.String()))
					if len(seq) < fw.Pick(t, 5, 6) {
						yield(fw.StrCase("p {\nq {\n" + b.String() + "}\nz = 1\n}\n"))
					}
				}
			})
		}, func(r *fw.Rec, c fw.StrCase) { checkLayout(r, string(c)) }))
	fw.Register(&fw.Check{
		ID:          "C41",
		Assumptions: []string{"spaces at the very end of the source are not judged", "the columns of characters are those of the segmentation library"},
		Suites:      suites,
	})
}
