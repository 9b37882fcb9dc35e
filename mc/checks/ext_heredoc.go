package checks

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
)

// hereLine is a line of a heredoc: its source, the text it stands for, and
// whether it is all literal. M stands for the end marker.
type hereLine struct {
	src, text string
	lit       bool
}

func hereLines() (ret []hereLine) {
	lits := []string{"", "M", " M", "\tM", "M ", "M\t", "  M  ", "MM", "m", "xM", "M.", "N", "-M", "M M", "<<M", "MN", "Mx", "x"}
	for _, l := range lits {
		ret = append(ret, hereLine{l, l, true})
	}
	seqs := [][2]string{{"${1}", "1"}, {`${"M"}`, "M"}, {"${\n1\n}", "1"}, {"${<<N\nM\nN\n}", "M\n"}, {"${<<M\nx\nM\n}", "x\n"}, {"${<<N\nx${<<M\ny\nM\n}\nN\n}", "xy\n\n"}, {"%{ if true }M%{ endif }", "M"}, {`${""}`, ""}, {`${"${"M"}"}`, "M"}}
	for _, s := range seqs {
		for _, before := range []string{"", "M", " ", "x"} {
			for _, after := range []string{"", "M", " M", "x"} {
				ret = append(ret, hereLine{before + s[0] + after, before + s[1] + after, false})
			}
		}
	}
	return ret
}

type hereCase struct {
	Lines  []int
	Marker string
	End    string // the last line
	Flush  bool
	CRLF   bool
}

func runHere(r *fw.Rec, c hereCase) {
	all := hereLines()
	other := "N"
	fill := strings.NewReplacer("M", c.Marker, "m", strings.ToLower(c.Marker), "N", other).Replace
	ends := func(l string) bool { return strings.Trim(l, " \t") == c.Marker }
	open := "a = <<"
	if c.Flush {
		open += "-"
	}
	src := open + c.Marker + "\n"
	want := ""
	valid, flat := ends(c.End), !c.Flush
	for _, i := range c.Lines {
		l := all[i]
		s := fill(l.src)
		src += s + "\n"
		want += fill(l.text) + "\n"
		if l.lit && ends(s) {
			valid = false
		}
		if s != "" && s[0] != ' ' && s[0] != '\t' {
			flat = true
		}
	}
	src += c.End + "\nb = 1\n"
	if c.CRLF {
		src = strings.ReplaceAll(src, "\n", "\r\n")
		want = strings.ReplaceAll(want, "\n", "\r\n")
	}
	r.State(src)
	r.Op(1)
	r.Trace()
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.InitialPos)
	if diags.HasErrors() == valid {
		r.Failf("", "%q is %s: %s", src, map[bool]string{true: "rejected", false: "accepted"}[valid], diagsStr(diags))
		return
	}
	if !valid {
		return
	}
	attrs := f.Body.(*hclsyntax.Body).Attributes
	if len(attrs) != 2 || attrs["a"] == nil || attrs["b"] == nil {
		r.Failf("", "%q gives %d attributes", src, len(attrs))
		return
	}
	v, vdiags := attrs["a"].Expr.Value(nil)
	r.Op(1)
	if !flat && !vdiags.HasErrors() {
		return
	}
	if vdiags.HasErrors() || !v.RawEquals(cty.StringVal(want)) {
		r.Failf("", "%q gives %#v, want %q: %s", src, v, want, diagsStr(vdiags))
	}
}

// The sources of braces and quotes, read by a recognizer of their own.
var braceToks = []string{`"`, "${", "}", "~}", "{", "a=", "1"}

var braceWraps = [][2]string{{"", ""}, {`"`, `"`}, {`"${`, `}"`}, {`"${"${`, `}"}"`}, {"<<E\n${", "}\nE\n"}, {"<<E\n", "\nE\n"}, {`"${{a=`, `}}"`}, {`{a="`, `"}`}, {"\"${<<E\n${", "}\nE\n}\""}}

type braceReader struct {
	s  string
	at int
}

func (b *braceReader) eat(p string) bool {
	if strings.HasPrefix(b.s[b.at:], p) {
		b.at += len(p)
		return true
	}
	return false
}

func (b *braceReader) space() {
	for b.eat("\n") {
	}
}

// expr reads an expression; newlines count for nothing inside a template
// sequence, which is the only place where these sources have some.
func (b *braceReader) expr() bool {
	b.space()
	switch {
	case b.eat("1"):
		for b.eat("1") {
		}
		return true
	case b.eat(`"`):
		return b.text(`"`)
	case b.eat("<<E\n"):
		return b.text("\nE\n")
	case b.eat("{"):
		if b.eat("}") {
			return true
		}
		return b.eat("a=") && b.expr() && b.eat("}")
	}
	return false
}

func (b *braceReader) text(end string) bool {
	for b.at < len(b.s) {
		switch {
		case b.eat(end):
			return true
		case end == "\nE\n" && strings.HasSuffix(b.s[:b.at], "<<E\n") && b.eat("E\n"):
			return true
		case b.eat("${"):
			if !b.expr() {
				return false
			}
			b.space()
			if !b.eat("}") && !b.eat("~}") {
				return false
			}
		case end == `"` && b.s[b.at] == '\n':
			return false
		default:
			b.at++
		}
	}
	return false
}

func runBraces(r *fw.Rec, c fw.StrCase) {
	src := string(c)
	b := &braceReader{s: src}
	valid := b.expr()
	b.space()
	valid = valid && b.at == len(src)
	r.State(src)
	r.Op(1)
	r.Trace()
	_, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.InitialPos)
	if diags.HasErrors() == valid {
		r.Failf("", "%q is %s: %s", src, map[bool]string{true: "rejected", false: "accepted"}[valid], diagsStr(diags))
	}
}

func init() {
	fw.Extend("C06", fw.S("markers", fmt.Sprintf("heredocs of up to 2 lines out of %d with texts like the end marker, interpolations over several lines and heredocs inside heredocs; 3 markers, 11 last lines, plain and flush, with line endings LF and CRLF", len(hereLines())),
		func(t fw.Tier, yield func(hereCase)) {
			n := len(hereLines())
			for _, m := range []string{"M", "EOT", "é"} {
				for _, end := range []string{m, " " + m, "\t" + m, m + " ", m + "\t", " \t" + m + " \t", m + m, m + ".", "x" + m, m + "x", m + " " + m} {
					for _, flush := range []bool{false, true} {
						for _, crlf := range []bool{false, true} {
							eachSeq(n, 0, 2, func(ix []int) {
								if t == fw.Quick && len(ix) == 2 && ((m != "EOT" || flush || crlf) && end != " "+m || end != m && end != m+" " && end != " "+m && end != m+m) {
									return
								}
								yield(hereCase{append([]int{}, ix...), m, end, flush, crlf})
							})
						}
					}
				}
			}
		}, runHere))
	fw.Extend("C47", fw.S("braces", fmt.Sprintf("up to 6 (thorough 7) of the %d marks %q inside %d nestings of quotes, interpolations, heredocs and objects", len(braceToks), braceToks, len(braceWraps)),
		func(t fw.Tier, yield func(fw.StrCase)) {
			eachSeq(len(braceToks), 0, fw.Pick(t, 6, 7), func(ix []int) {
				s := ""
				for _, i := range ix {
					s += braceToks[i]
				}
				for _, w := range braceWraps {
					yield(fw.StrCase(w[0] + s + w[1]))
				}
			})
		}, runBraces))
}
