package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"verif/mc/fw"
)

// bareWS removes spaces and tabs, and byte order marks.
func bareWS(b []byte) []byte {
	var ret []byte
	for _, c := range bytes.Replace(b, []byte("\xef\xbb\xbf"), nil, -1) {
		if c != ' ' && c != '\t' {
			ret = append(ret, c)
		}
	}
	return ret
}

func checkFormat(r *fw.Rec, s string) {
	src := []byte(s)
	out := hclwrite.Format(src)
	r.Op(1)
	r.State(s)
	fail := func(m string) { r.Failf("", "%q is formatted as %q: %s", s, out, m) }
	if string(src) != s {
		fail("the source is modified")
		return
	}
	if !bytes.Equal(bareWS(out), bareWS(src)) {
		fail("more than spaces and tabs are changed")
		return
	}
	f1, diags := hclsyntax.ParseConfig(src, "t", hcl.InitialPos)
	if diags.HasErrors() {
		return
	}
	want := lexToks(src)
	if got := lexToks(out); !eqStrs(got, want) {
		fail(fmt.Sprintf("the tokens are %q instead of %q", got, want))
		return
	}
	again := hclwrite.Format(out)
	r.Op(1)
	if !bytes.Equal(again, out) {
		fail(fmt.Sprintf("formatted again it is %q", again))
		return
	}
	f2, diags := hclsyntax.ParseConfig(out, "t", hcl.InitialPos)
	if diags.HasErrors() {
		fail(diagsStr(diags))
		return
	}
	if a, b := dumpBody(f1.Body.(*hclsyntax.Body)), dumpBody(f2.Body.(*hclsyntax.Body)); a != b {
		fail(fmt.Sprintf("it means %s instead of %s", b, a))
		return
	}
	r.Trace()
}

func init() {
	fw.Register(&fw.Check{ID: "C18", Suites: wSuites(checkFormat)})
}

// dumpBody describes a body without positions.
func dumpBody(b *hclsyntax.Body) string {
	var items []string
	for name, a := range b.Attributes {
		items = append(items, name+"="+dumpExpr(a.Expr))
	}
	sort.Strings(items)
	for _, bl := range b.Blocks {
		items = append(items, fmt.Sprintf("%s%q%s", bl.Type, bl.Labels, dumpBody(bl.Body)))
	}
	return "{" + strings.Join(items, ";") + "}"
}
