package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"verif/mc/fw"
)

// wToks gives the tokens of the writer.
func wToks(ts hclwrite.Tokens) []string {
	var ret []string
	for _, t := range ts {
		if t.Type == hclsyntax.TokenEOF {
			continue
		}
		ret = append(ret, string(rune(t.Type))+string(t.Bytes))
	}
	return ret
}

// wBare writes tokens without any whitespace between them.
func wBare(ts hclwrite.Tokens) string {
	var b strings.Builder
	for _, t := range ts {
		b.Write(t.Bytes)
	}
	return b.String()
}

// nativeBare gives the tokens of a source that start in a range, without
// whitespace.
func nativeBare(toks hclsyntax.Tokens, start, end int) string {
	var b strings.Builder
	for _, t := range toks {
		if t.Range.Start.Byte >= start && t.Range.Start.Byte < end {
			b.Write(t.Bytes)
		}
	}
	return b.String()
}

// matchWrite compares a body of the writer with the one of the parser.
func matchWrite(r *fw.Rec, toks hclsyntax.Tokens, wb *hclwrite.Body, nb *hclsyntax.Body) string {
	r.Op(1)
	attrs := wb.Attributes()
	if len(attrs) != len(nb.Attributes) {
		return fmt.Sprintf("%d attributes instead of %d", len(attrs), len(nb.Attributes))
	}
	for name, na := range nb.Attributes {
		wa := attrs[name]
		if wa == nil || wb.GetAttribute(name) != wa {
			return fmt.Sprintf("attribute %s is missing or different", name)
		}
		r.Op(1)
		// The expression is everything between the equals sign and the end of
		// the attribute, without comments before it.
		start := na.EqualsRange.End.Byte
		for _, t := range toks {
			if t.Range.Start.Byte >= start && t.Type == hclsyntax.TokenComment {
				start = t.Range.End.Byte
			} else if t.Range.Start.Byte >= start {
				break
			}
		}
		// The attribute ends with the line, or with the block it is in.
		depth, end := 0, 0
		for _, t := range toks {
			if t.Range.Start.Byte < start {
				continue
			}
			switch t.Type {
			case hclsyntax.TokenOBrace, hclsyntax.TokenOBrack, hclsyntax.TokenOParen, hclsyntax.TokenOQuote, hclsyntax.TokenOHeredoc, hclsyntax.TokenTemplateInterp, hclsyntax.TokenTemplateControl:
				depth++
			case hclsyntax.TokenCBrace, hclsyntax.TokenCBrack, hclsyntax.TokenCParen, hclsyntax.TokenCQuote, hclsyntax.TokenCHeredoc, hclsyntax.TokenTemplateSeqEnd:
				depth--
			}
			if depth < 0 || depth == 0 && (t.Type == hclsyntax.TokenNewline || t.Type == hclsyntax.TokenEOF) {
				break
			}
			if depth == 0 && t.Type == hclsyntax.TokenComment && bytes.HasSuffix(t.Bytes, []byte("\n")) {
				break
			}
			if t.Type != hclsyntax.TokenComment {
				end = t.Range.End.Byte
			}
		}
		want := nativeBare(toks, start, end)
		if got := wBare(wa.Expr().BuildTokens(nil)); got != want {
			return fmt.Sprintf("expression of %s is %q instead of %q", name, got, want)
		}
		nameStart := nativeBare(toks, na.NameRange.Start.Byte, end)
		if got := wBare(wa.BuildTokens(nil)); !strings.Contains(got, nameStart) {
			return fmt.Sprintf("attribute %s is %q instead of %q", name, got, nameStart)
		}
		nv := na.Expr.Variables()
		sort.SliceStable(nv, func(i, j int) bool { return nv[i].SourceRange().Start.Byte < nv[j].SourceRange().Start.Byte })
		wv := wa.Expr().Variables()
		if len(wv) != len(nv) {
			return fmt.Sprintf("%d variables in %s instead of %d", len(wv), name, len(nv))
		}
		for i, v := range nv {
			rng := v.SourceRange()
			want := nativeBare(toks, rng.Start.Byte, rng.End.Byte)
			if got := wBare(wv[i].BuildTokens(nil)); got != want {
				return fmt.Sprintf("variable %d in %s is %q instead of %q", i, name, got, want)
			}
		}
	}
	blocks := wb.Blocks()
	if len(blocks) != len(nb.Blocks) {
		return fmt.Sprintf("%d blocks instead of %d", len(blocks), len(nb.Blocks))
	}
	for i, nbl := range nb.Blocks {
		r.Op(1)
		want := nativeBare(toks, nbl.TypeRange.Start.Byte, nbl.CloseBraceRange.End.Byte)
		got := wBare(blocks[i].BuildTokens(nil))
		if !strings.Contains(got, want) {
			return fmt.Sprintf("block %d is %q instead of %q", i, got, want)
		}
		if m := matchWrite(r, toks, blocks[i].Body(), nbl.Body); m != "" {
			return fmt.Sprintf("in block %d: %s", i, m)
		}
	}
	return ""
}

func checkLoad(r *fw.Rec, s string) {
	src := []byte(s)
	nf, nd := hclsyntax.ParseConfig(src, "t", hcl.InitialPos)
	f, diags := hclwrite.ParseConfig([]byte(s), "t", hcl.InitialPos)
	r.Op(1)
	if nd.HasErrors() != diags.HasErrors() {
		r.Failf("", "%q: errors %s, the parser reports %s", s, diagsStr(diags), diagsStr(nd))
		return
	}
	if nd.HasErrors() {
		return
	}
	r.State(s)
	if f == nil {
		r.Failf("", "%q: no file", s)
		return
	}
	toks, _ := hclsyntax.LexConfig(src, "t", hcl.InitialPos)
	want := lexToks(src)
	fail := func(m string) { r.Failf("", "%q: %s", s, m) }
	if got := wToks(f.BuildTokens(nil)); !eqStrs(got, want) {
		fail(fmt.Sprintf("tokens are %q instead of %q", got, want))
		return
	}
	if !strings.ContainsAny(s, "\t\ufeff") {
		if got := f.BuildTokens(nil).Bytes(); !bytes.Equal(got, src) {
			fail(fmt.Sprintf("unformatted tokens are %q", got))
			return
		}
	}
	if m := matchWrite(r, toks, f.Body(), nf.Body.(*hclsyntax.Body)); m != "" {
		fail(m)
		return
	}
	out := f.Bytes()
	if got := lexToks(out); !eqStrs(got, want) {
		fail(fmt.Sprintf("written as %q, with the tokens %q instead of %q", out, got, want))
		return
	}
	if again := f.Bytes(); !bytes.Equal(out, again) {
		fail(fmt.Sprintf("written as %q and then as %q", out, again))
		return
	}
	// The tree still describes the same after it was written.
	if m := matchWrite(r, toks, f.Body(), nf.Body.(*hclsyntax.Body)); m != "" {
		fail("after writing: " + m)
		return
	}
	r.Trace()
}

func init() {
	fw.Register(&fw.Check{ID: "C17", Suites: wSuites(checkLoad)})
}
