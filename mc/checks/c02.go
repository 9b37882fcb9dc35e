package checks

import (
	"bytes"
	"fmt"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"verif/mc/fw"
)

// lexBytes are lexically significant characters and character sequences.
var lexBytes = []string{
	"a", "1", ".", "\"", "$", "{", "}", "%", "~", "\\", "\n", "\r", " ", "\t", "<", "-", "E", "#", "/", "*", "=",
	"é", "́", "\U0001F600", "\xff", "\xc3", "\x00", "(", "[", "&",
}

var lexHeredoc = []string{"<<E\n", "<<-E\r\n", "E", "\n", "\r\n", " ", "x", "${", "}", "%{", "~}", "\"", "$", "é", "\t"}

var lexTokens = []string{
	"a", "1", "1.5e-3", "\"", "${", "%{~", "}", "~}", "{", "\n", "\r\n", " ", "\t", "# c\n", "// é\n", "/* x\n */", "#", "==", "&&", "...", "=>", "<=", "<<E\n", "E\n", "\\\"", "$${", "é", "x-y", "\U0001F600́", "'", ";", "!",
}

type lexCase struct {
	Src   fw.StrCase
	Mode  int // 0 config, 1 expression, 2 template
	Start hcl.Pos
}

func (c lexCase) String() string {
	return fmt.Sprintf("%q mode=%d start=%v", []byte(c.Src), c.Mode, c.Start)
}

var lexStarts = []hcl.Pos{{Byte: 0, Line: 1, Column: 1}, {Byte: 23, Line: 4, Column: 7}}

func eachLexCase(alphabet []string, min, max int, yield func(lexCase)) {
	eachString(alphabet, min, max, func(s string) {
		src := fw.StrCase(s)
		yield(lexCase{src, 0, lexStarts[0]})
		yield(lexCase{src, 2, lexStarts[1]})
		if len(src) < 6 {
			yield(lexCase{src, 0, lexStarts[1]})
			yield(lexCase{src, 1, lexStarts[1]})
			yield(lexCase{src, 2, lexStarts[0]})
		}
	})
}

func init() {
	fw.Register(&fw.Check{
		ID:          "C02",
		Assumptions: []string{"grapheme clusters are segmented by the go-textseg library", "columns are not judged after a token boundary that falls inside a grapheme cluster, where the count is not defined"},
		Suites: []fw.Suite{
			fw.S("characters", "all strings of up to 4 (thorough 5) of 30 characters and bytes, config and template mode, two start positions (all three modes for short ones)",
				func(t fw.Tier, yield func(lexCase)) {
					eachLexCase(lexBytes, 0, fw.Pick(t, 4, 5), yield)
				}, runLex),
			fw.S("heredocs", "all strings of up to 5 (thorough 6) of 15 heredoc and template pieces",
				func(t fw.Tier, yield func(lexCase)) {
					eachLexCase(lexHeredoc, 0, fw.Pick(t, 5, 6), yield)
				}, runLex),
			fw.S("tokens", "all strings of up to 4 (thorough 5) of 32 tokens",
				func(t fw.Tier, yield func(lexCase)) {
					eachLexCase(lexTokens, 0, fw.Pick(t, 4, 5), yield)
				}, runLex),
			fw.S("bom", "a byte order mark before all strings of up to 2 of 30 characters, and in the middle",
				func(t fw.Tier, yield func(lexCase)) {
					eachString(lexBytes, 0, fw.Pick(t, 2, 3), func(s string) {
						for m := 0; m < 3; m++ {
							for _, st := range lexStarts {
								yield(lexCase{fw.StrCase("\xef\xbb\xbf" + s), m, st})
								yield(lexCase{fw.StrCase(s + "\xef\xbb\xbf" + s), m, st})
							}
						}
					})
				}, runLex),
		},
	})
}

func lexIn(mode int, src []byte, start hcl.Pos) (hclsyntax.Tokens, hcl.Diagnostics) {
	switch mode {
	case 0:
		return hclsyntax.LexConfig(src, "f", start)
	case 1:
		return hclsyntax.LexExpression(src, "f", start)
	default:
		return hclsyntax.LexTemplate(src, "f", start)
	}
}

func runLex(r *fw.Rec, c lexCase) {
	src := []byte(c.Src)
	r.StateB(fmt.Sprint(c.Mode, c.Start), src)
	toks, diags := lexIn(c.Mode, src, c.Start)
	r.Op(1)
	if m := checkTokens(src, toks, c.Start, c.Mode == 2); m != "" {
		r.Failf("", "%s\nsource %q, tokens %s", m, src, tokStr(toks))
	}
	for _, d := range diags {
		if m := badDiag(d, c.Start.Byte, c.Start.Byte+len(src)); m != "" {
			r.Failf("", "%s", m)
		}
	}
	r.Trace()
}

func tokStr(toks hclsyntax.Tokens) string {
	var b bytes.Buffer
	for _, t := range toks {
		fmt.Fprintf(&b, "%s(%q %d:%d@%d-%d:%d@%d) ", t.Type, t.Bytes, t.Range.Start.Line, t.Range.Start.Column, t.Range.Start.Byte, t.Range.End.Line, t.Range.End.Column, t.Range.End.Byte)
	}
	return b.String()
}

// checkTokens describes how toks fail to tile src, or is empty.
func checkTokens(src []byte, toks hclsyntax.Tokens, start hcl.Pos, template bool) string {
	pos := start
	at := 0
	if bytes.HasPrefix(src, []byte{0xef, 0xbb, 0xbf}) {
		at = 3
		pos.Byte += 3
	}
	bound := clusterStarts(src[at:])
	base := at
	colOK := true
	if len(toks) == 0 {
		return "no tokens"
	}
	for i, t := range toks {
		if t.Range.Filename != "f" {
			return fmt.Sprintf("token %d has filename %q", i, t.Range.Filename)
		}
		s, e := t.Range.Start.Byte-start.Byte, t.Range.End.Byte-start.Byte
		if s < at || e < s || e > len(src) {
			return fmt.Sprintf("token %d at %d-%d overlaps or is out of order", i, s, e)
		}
		for _, b := range src[at:s] {
			if b != ' ' && b != '\t' {
				return fmt.Sprintf("bytes %q before token %d are in no token", src[at:s], i)
			}
		}
		if s > at && template && i == 0 {
			return "literal spaces dropped from a template"
		}
		if !bytes.Equal(t.Bytes, src[s:e]) {
			return fmt.Sprintf("token %d has bytes %q but covers %q", i, t.Bytes, src[s:e])
		}
		if !bound[s-base] {
			colOK = false
		}
		pos = advance(pos, src[at:s])
		if colOK && t.Range.Start != pos {
			return fmt.Sprintf("token %d starts at %v, want %v", i, t.Range.Start, pos)
		}
		if t.Range.Start.Line != pos.Line {
			return fmt.Sprintf("token %d starts at line %d, want %d", i, t.Range.Start.Line, pos.Line)
		}
		if !bound[e-base] {
			colOK = false
		}
		pos = advance(pos, src[s:e])
		if colOK && t.Range.End != pos {
			return fmt.Sprintf("token %d ends at %v, want %v", i, t.Range.End, pos)
		}
		if t.Range.End.Line != pos.Line {
			return fmt.Sprintf("token %d ends at line %d, want %d", i, t.Range.End.Line, pos.Line)
		}
		at = e
		if (t.Type == hclsyntax.TokenEOF) != (i == len(toks)-1) {
			return fmt.Sprintf("token %d of %d has type %s", i, len(toks), t.Type)
		}
		if t.Type == hclsyntax.TokenEOF && len(t.Bytes) != 0 {
			return "end-of-file token has bytes"
		}
		if t.Type != hclsyntax.TokenEOF && s == e && t.Type != hclsyntax.TokenStringLit && t.Type != hclsyntax.TokenQuotedLit {
			return fmt.Sprintf("token %d of type %s is empty", i, t.Type)
		}
	}
	if at != len(src) {
		return fmt.Sprintf("bytes %q after the last token are in no token", src[at:])
	}
	return ""
}
