package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/ref"
)

// dumpExpr gives the canonical form (see ref.Node.String) of a parsed
// expression. Kinds of node that only wrap another expression are transparent.
func dumpExpr(e hcl.Expression) string {
	switch e := e.(type) {
	case nil:
		return "<nil>"
	case *hclsyntax.LiteralValueExpr:
		return dumpVal(e.Val)
	case *hclsyntax.ScopeTraversalExpr:
		return dumpTraversal("", e.Traversal)
	case *hclsyntax.RelativeTraversalExpr:
		return dumpTraversal(dumpExpr(e.Source), e.Traversal)
	case *hclsyntax.FunctionCallExpr:
		op := "call " + e.Name
		if e.ExpandFinal {
			op += "..."
		}
		return dumpList(op, e.Args...)
	case *hclsyntax.ConditionalExpr:
		return dumpList("cond", e.Condition, e.TrueResult, e.FalseResult)
	case *hclsyntax.IndexExpr:
		return dumpList("idx", e.Collection, e.Key)
	case *hclsyntax.TupleConsExpr:
		return dumpList("tuple", e.Exprs...)
	case *hclsyntax.ObjectConsExpr:
		var xs []hclsyntax.Expression
		for _, it := range e.Items {
			xs = append(xs, it.KeyExpr, it.ValueExpr)
		}
		return dumpList("obj", xs...)
	case *hclsyntax.ObjectConsKeyExpr:
		if t, ok := e.Wrapped.(*hclsyntax.ScopeTraversalExpr); ok && len(t.Traversal) == 1 {
			if v, diags := e.Value(nil); !diags.HasErrors() && v.Type() == cty.String {
				return "(key " + v.AsString() + ")"
			}
		}
		return dumpExpr(e.Wrapped)
	case *hclsyntax.ForExpr:
		op := "for"
		if e.KeyExpr != nil {
			op = "forobj"
		}
		if e.Group {
			op += "..."
		}
		op += " " + e.KeyVar + "," + e.ValVar
		xs := []hclsyntax.Expression{e.CollExpr}
		if e.KeyExpr != nil {
			xs = append(xs, e.KeyExpr)
		}
		xs = append(xs, e.ValExpr)
		if e.CondExpr != nil {
			xs = append(xs, e.CondExpr)
		}
		return dumpList(op, xs...)
	case *hclsyntax.SplatExpr:
		return dumpList("splat", e.Source, e.Each)
	case *hclsyntax.AnonSymbolExpr:
		return "item"
	case *hclsyntax.BinaryOpExpr:
		return dumpList(opName(e.Op), e.LHS, e.RHS)
	case *hclsyntax.UnaryOpExpr:
		return dumpList("un"+opName(e.Op), e.Val)
	case *hclsyntax.TemplateWrapExpr:
		return "(wrap " + dumpExpr(e.Wrapped) + ")"
	case *hclsyntax.TemplateJoinExpr:
		return "(join " + dumpExpr(e.Tuple) + ")"
	case *hclsyntax.TemplateExpr:
		return dumpTemplate(e.Parts)
	}
	// an unfamiliar wrapper with a single expression inside
	v := reflect.Indirect(reflect.ValueOf(e))
	if v.Kind() == reflect.Struct {
		var found hcl.Expression
		n := 0
		for i := 0; i < v.NumField(); i++ {
			if !v.Field(i).CanInterface() {
				continue
			}
			if x, ok := v.Field(i).Interface().(hcl.Expression); ok {
				found = x
				n++
			}
		}
		if n == 1 {
			return dumpExpr(found)
		}
	}
	return fmt.Sprintf("(%T)", e)
}

func opName(op *hclsyntax.Operation) string {
	switch op {
	case hclsyntax.OpLogicalOr:
		return "||"
	case hclsyntax.OpLogicalAnd:
		return "&&"
	case hclsyntax.OpLogicalNot:
		return "!"
	case hclsyntax.OpEqual:
		return "=="
	case hclsyntax.OpNotEqual:
		return "!="
	case hclsyntax.OpGreaterThan:
		return ">"
	case hclsyntax.OpGreaterThanOrEqual:
		return ">="
	case hclsyntax.OpLessThan:
		return "<"
	case hclsyntax.OpLessThanOrEqual:
		return "<="
	case hclsyntax.OpAdd:
		return "+"
	case hclsyntax.OpSubtract:
		return "-"
	case hclsyntax.OpMultiply:
		return "*"
	case hclsyntax.OpDivide:
		return "/"
	case hclsyntax.OpModulo:
		return "%"
	case hclsyntax.OpNegate:
		return "-"
	}
	return "?op"
}

func dumpList(op string, xs ...hclsyntax.Expression) string {
	var b strings.Builder
	b.WriteString("(" + op)
	for _, x := range xs {
		b.WriteString(" " + dumpExpr(x))
	}
	b.WriteString(")")
	return b.String()
}

func dumpVal(v cty.Value) string {
	switch {
	case v.IsNull():
		return "null"
	case !v.IsKnown():
		return "unknown"
	case v.Type() == cty.Number:
		return "(num " + v.AsBigFloat().Text('g', -1) + ")"
	case v.Type() == cty.Bool:
		return fmt.Sprint(v.True())
	case v.Type() == cty.String:
		return fmt.Sprintf("(str %q)", v.AsString())
	}
	return fmt.Sprintf("%#v", v)
}

func dumpTraversal(src string, trav hcl.Traversal) string {
	for _, st := range trav {
		switch st := st.(type) {
		case hcl.TraverseRoot:
			src += st.Name
		case hcl.TraverseAttr:
			src = "(attr " + src + " " + st.Name + ")"
		case hcl.TraverseIndex:
			src = "(idx " + src + " " + dumpVal(st.Key) + ")"
		default:
			src = fmt.Sprintf("(%T %s)", st, src)
		}
	}
	return src
}

func dumpTemplate(parts []hclsyntax.Expression) string {
	var out []string
	lit := ""
	flush := func() {
		if lit != "" {
			out = append(out, fmt.Sprintf("%q", lit))
			lit = ""
		}
	}
	for _, p := range parts {
		if l, ok := p.(*hclsyntax.LiteralValueExpr); ok && l.Val.Type() == cty.String && l.Val.IsKnown() && !l.Val.IsNull() {
			lit += l.Val.AsString()
			continue
		}
		flush()
		out = append(out, dumpExpr(p))
	}
	flush()
	return ref.JoinTmpl(out)
}
