// Command race uses shared parsed configuration from several goroutines. It is
// built with the race detector and exits with an error if any result differs
// from the one obtained alone.
package main

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"sync"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/typeexpr"
	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/hclparse"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"github.com/zclconf/go-cty/cty/function/stdlib"
)

const src = `
v = [xs[*].a, xs[*].l[*].b, {for k, x in xs : k => x.a}, "p${xs[0].a}%{for x in xs}${x.a}%{endfor}", f(xs), upper("q")]
b "one" {
  w = xs[*].l[0].b
}
b "two" {
  w = <<-EOT
    heredoc ${xs[0].a}
      more
    EOT
}
dynamic "b" {
  for_each = xs[*].a
  labels   = [b.value]
  content {
    w = b.key
  }
}
`

const jsonSrc = `{"v": ["${xs[*].a}", {"${xs[0].a}": 1}], "b": {"one": {"w": "${f(xs)}"}, "two": [{"w": 1}, {"w": "${nope}"}]}}`

const fnSrc = "function \"f\" {\n params = [a]\n result = [a[*].a, base, a[*].l[*].b]\n}\n"

var spec = hcldec.ObjectSpec{
	"v": &hcldec.AttrSpec{Name: "v", Type: cty.DynamicPseudoType},
	"b": &hcldec.BlockTupleSpec{TypeName: "b", Nested: hcldec.ObjectSpec{
		"w": &hcldec.AttrSpec{Name: "w", Type: cty.DynamicPseudoType},
		"l": &hcldec.BlockLabelSpec{Index: 0, Name: "l"},
	}},
}

type target struct {
	V cty.Value `hcl:"v,optional"`
	B []*struct {
		L string    `hcl:"l,label"`
		W cty.Value `hcl:"w,optional"`
	} `hcl:"b,block"`
	Rest hcl.Body `hcl:",remain"`
}

func must(diags hcl.Diagnostics) {
	if diags.HasErrors() {
		fmt.Println("setup:", diags)
		os.Exit(3)
	}
}

func data(t int) map[string]cty.Value {
	elem := func(i int) cty.Value {
		n := cty.StringVal(fmt.Sprintf("t%de%d", t, i))
		return cty.ObjectVal(map[string]cty.Value{"a": n, "l": cty.TupleVal([]cty.Value{cty.ObjectVal(map[string]cty.Value{"b": n})})})
	}
	return map[string]cty.Value{"xs": cty.TupleVal([]cty.Value{elem(0), elem(1), elem(2)})}
}

func main() {
	n, _ := strconv.Atoi(os.Args[1])
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.InitialPos)
	must(diags)
	jf, diags := json.Parse([]byte(jsonSrc), "t.json")
	must(diags)
	ff, diags := hclsyntax.ParseConfig([]byte(fnSrc), "f.hcl", hcl.InitialPos)
	must(diags)
	base := &hcl.EvalContext{Variables: map[string]cty.Value{"base": cty.StringVal("B")}}
	funcs, _, diags := userfunc.DecodeUserFunctions(ff.Body, "function", func() *hcl.EvalContext { return base })
	must(diags)
	// functions cache their context when first called
	if _, err := funcs["f"].Call([]cty.Value{data(0)["xs"]}); err != nil {
		fmt.Println("setup:", err)
		os.Exit(3)
	}
	funcs["upper"] = stdlib.UpperFunc
	packed, diags := hclpack.PackNativeFile([]byte(src), "t.hcl", hcl.InitialPos)
	must(diags)
	merged := hcl.MergeFiles([]*hcl.File{f, ff})
	expr, diags := hclsyntax.ParseExpression([]byte("[xs[*].a, xs[*].l[*].b, [for x in xs : x.l[*].b]]"), "e.hcl", hcl.InitialPos)
	must(diags)
	ty, diags := hclsyntax.ParseExpression([]byte("object({a = list(string), b = map(any)})"), "e.hcl", hcl.InitialPos)
	must(diags)
	parent := &hcl.EvalContext{Functions: map[string]function.Function(funcs)}

	jobs := []func(t int) string{
		func(t int) string {
			v, d := expr.Value(child(parent, t))
			return show(v, d)
		},
		func(t int) string {
			ctx := child(parent, t)
			v, d := hcldec.Decode(dynblock.Expand(f.Body, ctx), spec, ctx)
			return show(v, d)
		},
		func(t int) string {
			v, d := hcldec.Decode(jf.Body, spec, child(parent, t))
			return show(v, d)
		},
		func(t int) string {
			v, d := hcldec.Decode(packed, spec, child(parent, t))
			return show(v, d)
		},
		func(t int) string {
			var x target
			d := gohcl.DecodeBody(f.Body, child(parent, t), &x)
			return fmt.Sprintf("%#v %d %s", x.V, len(x.B), d)
		},
		func(t int) string {
			c, _, d := merged.PartialContent(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "v"}}, Blocks: []hcl.BlockHeaderSchema{{Type: "b", LabelNames: []string{"l"}}, {Type: "function", LabelNames: []string{"l"}}}})
			return fmt.Sprint(len(c.Attributes), len(c.Blocks), d)
		},
		func(t int) string {
			return string(hclwrite.Format([]byte("a=1\nbb   =  [1,2 ,\n3]\nc{\nd=1 # x\n}\n")))
		},
		func(t int) string {
			wf, d := hclwrite.ParseConfig([]byte(src), "t.hcl", hcl.InitialPos)
			if d.HasErrors() {
				return d.Error()
			}
			wf.Body().SetAttributeValue("v", cty.NumberIntVal(int64(t)))
			b := wf.Body().AppendNewBlock("n", []string{"x"})
			b.Body().SetAttributeValue("q", cty.StringVal("${"))
			return string(wf.Bytes())
		},
		func(t int) string {
			p := hclparse.NewParser()
			a, d := p.ParseHCL([]byte(src), "x.hcl")
			_, d2 := p.ParseJSON([]byte(jsonSrc), "x.json")
			_, d3 := p.ParseHCL([]byte("a = [1 2]\nb {"), "bad.hcl")
			var buf bytes.Buffer
			w := hcl.NewDiagnosticTextWriter(&buf, p.Files(), 60, false)
			w.WriteDiagnostics(d3)
			return fmt.Sprint(len(a.Bytes), d, d2, d3, buf.String())
		},
		func(t int) string {
			pb, d := hclpack.PackNativeFile([]byte(src), "t.hcl", hcl.InitialPos)
			js, err := pb.MarshalJSON()
			return fmt.Sprint(d, err, len(js))
		},
		func(t int) string {
			x, d := typeexpr.TypeConstraint(ty)
			return typeexpr.TypeString(x) + d.Error()
		},
		func(t int) string {
			var s string
			for _, tr := range expr.Variables() {
				s += tr.RootName()
			}
			for _, tr := range hcldec.Variables(f.Body, spec) {
				s += tr.RootName()
			}
			l, d := hcl.ExprList(expr)
			return fmt.Sprint(s, len(l), d)
		},
	}
	const threads = 8
	want := make([][]string, len(jobs))
	for j, job := range jobs {
		for t := 0; t < threads; t++ {
			want[j] = append(want[j], job(t))
		}
	}
	for i := 0; i < n; i++ {
		for j, job := range jobs {
			j, job := j, job
			var wg sync.WaitGroup
			start := make(chan bool)
			for t := 0; t < threads; t++ {
				t := t
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					if got := job(t); got != want[j][t] {
						fmt.Printf("job %d thread %d gives %s, alone %s\n", j, t, got, want[j][t])
						os.Exit(4)
					}
				}()
			}
			close(start)
			wg.Wait()
		}
	}
}

func child(parent *hcl.EvalContext, t int) *hcl.EvalContext {
	ctx := parent.NewChild()
	ctx.Variables = data(t)
	return ctx
}

func show(v cty.Value, d hcl.Diagnostics) string { return fmt.Sprintf("%#v %s", v, d) }
