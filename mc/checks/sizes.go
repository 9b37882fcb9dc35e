package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
	"verif/mc/ref"
)

// The suites of this file go through families of large inputs, each of which
// has one member for every size. The other suites go through all small inputs;
// these look for what happens only from a certain length, number or depth on.

// sizes are the sizes of a tier.
func sizes(t fw.Tier) []int {
	var ret []int
	if t == fw.Thorough {
		for n := 1; n <= 300; n++ {
			ret = append(ret, n)
		}
		return append(ret, 511, 512, 513, 1000, 1023, 1024, 1025)
	}
	for n := 1; n <= 20; n++ {
		ret = append(ret, n)
	}
	return append(ret, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257)
}

const sizesText = "every size up to 20 and 14 up to 257 (thorough: up to 300 and 7 up to 1025)"

// sizeCase is a member of a family.
type sizeCase struct {
	Fam string
	N   int
}

func sizeGen(fams []string, limit map[string]int) func(t fw.Tier, yield func(sizeCase)) {
	return func(t fw.Tier, yield func(sizeCase)) {
		for _, n := range sizes(t) {
			for _, f := range fams {
				if m, ok := limit[f]; ok && n > m {
					continue
				}
				yield(sizeCase{f, n})
			}
		}
	}
}

func chain(n int, first *ref.Node, f func(i int, x *ref.Node) *ref.Node) *ref.Node {
	for i := 1; i < n; i++ {
		first = f(i, first)
	}
	return first
}

func nodes(n int, f func(i int) *ref.Node) []*ref.Node {
	var ret []*ref.Node
	for i := 0; i < n; i++ {
		ret = append(ret, f(i))
	}
	return ret
}

func numI(i int) *ref.Node { return ref.Num(fmt.Sprint(i)) }

// sizeExprs are families of expressions; see sizeEnv for what they refer to.
var sizeExprs = map[string]func(n int) *ref.Node{
	"sum": func(n int) *ref.Node {
		return chain(n, ref.Num("0"), func(i int, x *ref.Node) *ref.Node { return ref.Bin("+", x, numI(i)) })
	},
	"minus": func(n int) *ref.Node {
		return chain(n, ref.Num("0"), func(i int, x *ref.Node) *ref.Node { return ref.Bin("-", x, numI(i)) })
	},
	"minus-right": func(n int) *ref.Node {
		return chain(n, ref.Num("0"), func(i int, x *ref.Node) *ref.Node { return ref.Bin("-", numI(i), x) })
	},
	"product": func(n int) *ref.Node {
		return chain(n, ref.Num("1"), func(i int, x *ref.Node) *ref.Node { return ref.Bin("*", x, ref.Num("2")) })
	},
	"mixed": func(n int) *ref.Node {
		return chain(n, ref.Num("3"), func(i int, x *ref.Node) *ref.Node {
			return ref.Bin([]string{"+", "-"}[i%2], x, ref.Bin([]string{"*", "-", "%"}[i%3], numI(i), ref.Num("2")))
		})
	},
	"or": func(n int) *ref.Node {
		return chain(n, ref.Var("f"), func(i int, x *ref.Node) *ref.Node { return ref.Bin("||", x, ref.Var("f")) })
	},
	"or-last": func(n int) *ref.Node {
		return ref.Bin("||", chain(n, ref.Var("f"), func(i int, x *ref.Node) *ref.Node { return ref.Bin("||", x, ref.Var("f")) }), ref.Var("t"))
	},
	"and": func(n int) *ref.Node {
		return ref.Bin("&&", chain(n, ref.Var("t"), func(i int, x *ref.Node) *ref.Node { return ref.Bin("&&", x, ref.Var("t")) }), ref.Var("f"))
	},
	"equal": func(n int) *ref.Node {
		return chain(n, ref.Var("t"), func(i int, x *ref.Node) *ref.Node { return ref.Bin([]string{"==", "!="}[i%2], x, ref.Var("f")) })
	},
	"not": func(n int) *ref.Node {
		return chain(n+1, ref.Var("t"), func(i int, x *ref.Node) *ref.Node { return ref.Un("!", x) })
	},
	"negative": func(n int) *ref.Node {
		return chain(n+1, ref.Num("5"), func(i int, x *ref.Node) *ref.Node { return ref.Un("-", x) })
	},
	"parens": func(n int) *ref.Node {
		return chain(n+1, ref.Var("x"), func(i int, x *ref.Node) *ref.Node { return ref.Paren(x) })
	},
	"cond-else": func(n int) *ref.Node {
		return chain(n, ref.Str("end"), func(i int, x *ref.Node) *ref.Node { return ref.Cond(ref.Var("f"), ref.Str(fmt.Sprint(i)), x) })
	},
	"cond-then": func(n int) *ref.Node {
		return chain(n, ref.Str("end"), func(i int, x *ref.Node) *ref.Node { return ref.Cond(ref.Var("t"), x, ref.Str(fmt.Sprint(i))) })
	},
	"digits":   func(n int) *ref.Node { return ref.Num("1" + strings.Repeat("0", (n-1)%150) + "7") },
	"fraction": func(n int) *ref.Node { return ref.Num("0." + strings.Repeat("0", (n-1)%150) + "5") },
	"string":   func(n int) *ref.Node { return ref.Str(strings.Repeat("abcdefg ", n)[:n]) },
	"escaped":  func(n int) *ref.Node { return ref.Str(strings.Repeat("\n\t\"\\${%{é\U0001F600", n)) },
	"name": func(n int) *ref.Node {
		return ref.Attr(ref.Obj(ref.Key(strings.Repeat("k", n)), ref.Num("1")), strings.Repeat("k", n))
	},

	"tuple": func(n int) *ref.Node { return ref.Tuple(nodes(n, numI)...) },
	"tuple-deep": func(n int) *ref.Node {
		return chain(n, ref.Tuple(), func(i int, x *ref.Node) *ref.Node { return ref.Tuple(x) })
	},
	"object": func(n int) *ref.Node { return sizeObj(n) },
	"object-deep": func(n int) *ref.Node {
		return chain(n, ref.Obj(), func(i int, x *ref.Node) *ref.Node { return ref.Obj(ref.Key("a"), x, ref.Key("b"), numI(i)) })
	},
	"index-first":     func(n int) *ref.Node { return ref.Idx(ref.Tuple(nodes(n, numI)...), ref.Num("0")) },
	"index-last":      func(n int) *ref.Node { return ref.Idx(ref.Tuple(nodes(n, numI)...), numI(n-1)) },
	"index-over":      func(n int) *ref.Node { return ref.Idx(ref.Tuple(nodes(n, numI)...), numI(n)) },
	"index-list":      func(n int) *ref.Node { return ref.Idx(ref.Var("ln"), numI(n-1)) },
	"index-list-over": func(n int) *ref.Node { return ref.Idx(ref.Var("ln"), numI(n)) },
	"legacy-index":    func(n int) *ref.Node { return ref.LIdx(ref.Var("ln"), fmt.Sprint(n-1)) },
	"index-map":       func(n int) *ref.Node { return ref.Idx(ref.Var("mn"), ref.Str(fmt.Sprint("k", n-1))) },
	"attr-object":     func(n int) *ref.Node { return ref.Attr(ref.Var("on"), fmt.Sprint("k", n-1)) },
	"attr-literal":    func(n int) *ref.Node { return ref.Attr(sizeObj(n), fmt.Sprint("k", n-1)) },
	"attr-deep": func(n int) *ref.Node {
		return chain(n+1, ref.Var("deep"), func(i int, x *ref.Node) *ref.Node { return ref.Attr(x, "a") })
	},
	"index-deep": func(n int) *ref.Node {
		return chain(n+1, ref.Var("deept"), func(i int, x *ref.Node) *ref.Node { return ref.Idx(x, ref.Num("0")) })
	},
	"index-computed": func(n int) *ref.Node {
		return chain(n+1, ref.Var("deept"), func(i int, x *ref.Node) *ref.Node { return ref.Idx(x, ref.Bin("-", ref.Var("x"), ref.Num("1"))) })
	},
	"splat-list":  func(n int) *ref.Node { return ref.FSplat(ref.Var("lo"), ref.Attr(ref.Item(), "a")) },
	"splat-attr":  func(n int) *ref.Node { return ref.ASplat(ref.Var("to"), ref.Attr(ref.Item(), "a")) },
	"splat-tuple": func(n int) *ref.Node { return ref.FSplat(ref.Tuple(nodes(n, numI)...), ref.Item()) },
	"splat-deep": func(n int) *ref.Node {
		return ref.FSplat(ref.Tuple(ref.Var("deep"), ref.Var("deep")), chain(n+1, ref.Item(), func(i int, x *ref.Node) *ref.Node { return ref.Attr(x, "a") }))
	},
	"for-list": func(n int) *ref.Node { return ref.ForT("", "v", ref.Var("ln"), ref.Var("v"), nil) },
	"for-index": func(n int) *ref.Node {
		return ref.ForT("i", "v", ref.Var("tn"), ref.Tuple(ref.Var("i"), ref.Var("v")), nil)
	},
	"for-map": func(n int) *ref.Node {
		return ref.ForT("i", "v", ref.Var("mn"), ref.Tuple(ref.Var("i"), ref.Var("v")), nil)
	},
	"for-object": func(n int) *ref.Node {
		return ref.ForT("i", "v", ref.Var("on"), ref.Tuple(ref.Var("i"), ref.Var("v")), nil)
	},
	"for-set": func(n int) *ref.Node { return ref.ForT("", "v", ref.Var("sn"), ref.Var("v"), nil) },
	"for-cond": func(n int) *ref.Node {
		return ref.ForT("", "v", ref.Var("ln"), ref.Var("v"), ref.Bin("!=", ref.Bin("%", ref.Var("v"), ref.Num("3")), ref.Num("1")))
	},
	"for-obj": func(n int) *ref.Node {
		return ref.ForO("k", "v", ref.Var("mn"), ref.Var("v"), ref.Var("k"), false, nil)
	},
	"for-group": func(n int) *ref.Node {
		return ref.ForO("", "v", ref.Var("ln"), ref.Bin("%", ref.Var("v"), ref.Num("7")), ref.Var("v"), true, nil)
	},
	"for-one": func(n int) *ref.Node { return ref.ForO("", "v", ref.Var("ln"), ref.Str("k"), ref.Var("v"), true, nil) },
	"for-deep": func(n int) *ref.Node {
		return chain(n+1, ref.Tuple(ref.Var("v"), ref.Var("x")), func(i int, x *ref.Node) *ref.Node { return ref.ForT("", "v", ref.Tuple(ref.Var("v"), numI(i)), x, nil) })
	},
	"for-coll": func(n int) *ref.Node {
		return chain(n+1, ref.Tuple(ref.Num("1"), ref.Num("2")), func(i int, x *ref.Node) *ref.Node {
			return ref.ForT("", "v", x, ref.Bin("+", ref.Var("v"), numI(i)), nil)
		})
	},

	"call":        func(n int) *ref.Node { return ref.Call("all", nodes(n, numI)...) },
	"call-expand": func(n int) *ref.Node { return ref.CallX("all", ref.Str("p"), ref.Var("ln")) },
	"call-expand-tuple": func(n int) *ref.Node {
		return ref.CallX("all", append(nodes(n, numI), ref.Var("tn"))...)
	},
	"call-exact": func(n int) *ref.Node { return ref.Call("many", nodes(n, numI)...) },
	"call-short": func(n int) *ref.Node { return ref.Call("many", nodes(n-1, numI)...) },
	"call-long":  func(n int) *ref.Node { return ref.Call("many", nodes(n+1, numI)...) },
	"call-deep": func(n int) *ref.Node {
		return chain(n+1, ref.Var("x"), func(i int, x *ref.Node) *ref.Node { return ref.Call("id", x) })
	},
	"vars": func(n int) *ref.Node {
		return ref.Tuple(nodes(n, func(i int) *ref.Node { return ref.Var(fmt.Sprint("v", i)) })...)
	},
	"vars-sum": func(n int) *ref.Node {
		return chain(n, ref.Var("v0"), func(i int, x *ref.Node) *ref.Node { return ref.Bin("+", x, ref.Var(fmt.Sprint("v", i))) })
	},
	"vars-object": func(n int) *ref.Node {
		var x []*ref.Node
		for i := 0; i < n; i++ {
			x = append(x, ref.Paren(ref.Tmpl(ref.Lit("k"), ref.Interp(ref.Var(fmt.Sprint("v", i))))), ref.Var(fmt.Sprint("v", n-1-i)))
		}
		return ref.Obj(x...)
	},
	"vars-call": func(n int) *ref.Node {
		return ref.Call("all", nodes(n, func(i int) *ref.Node { return ref.Var(fmt.Sprint("v", i)) })...)
	},
	"vars-last": func(n int) *ref.Node { return ref.Tuple(append(nodes(n, numI), ref.Var("v0"))...) },

	"template": func(n int) *ref.Node {
		return ref.Tmpl(nodes(2*n, func(i int) *ref.Node {
			if i%2 == 0 {
				return ref.Lit(fmt.Sprint("p", i))
			}
			return ref.Interp(numI(i))
		})...)
	},
	"template-vars": func(n int) *ref.Node {
		return ref.Tmpl(append([]*ref.Node{ref.Lit("-")}, nodes(n, func(i int) *ref.Node { return ref.Interp(ref.Var(fmt.Sprint("v", i))) })...)...)
	},
	"template-deep": func(n int) *ref.Node {
		return chain(n+1, ref.Var("x"), func(i int, x *ref.Node) *ref.Node { return ref.Tmpl(ref.Lit("<"), ref.Interp(x), ref.Lit(">")) })
	},
	"template-wrap": func(n int) *ref.Node {
		return chain(n+1, ref.Tuple(ref.Var("x")), func(i int, x *ref.Node) *ref.Node { return ref.Tmpl(ref.Interp(x)) })
	},
	"template-if": func(n int) *ref.Node {
		return ref.Tmpl(ref.Lit("a"), chain(n+1, ref.Lit("in"), func(i int, x *ref.Node) *ref.Node {
			return ref.If(ref.Var([]string{"t", "f"}[i/7%2]), ref.Body(ref.Lit("("), x, ref.Lit(")")), ref.Body(ref.Lit("no")))
		}))
	},
	"template-for": func(n int) *ref.Node {
		return ref.Tmpl(ref.TFor("i", "v", ref.Var("ln"), ref.Body(ref.Interp(ref.Var("i")), ref.Lit("="), ref.Interp(ref.Var("v")), ref.Lit(";"))))
	},
	"template-for-deep": func(n int) *ref.Node {
		return ref.Tmpl(ref.Lit("x"), chain(n+1, ref.Interp(ref.Var("v")), func(i int, x *ref.Node) *ref.Node {
			return ref.TFor("", "v", ref.Tuple(numI(i)), ref.Body(x, ref.Lit(".")))
		}))
	},
	"template-lines": func(n int) *ref.Node {
		return ref.Tmpl(nodes(n, func(i int) *ref.Node { return ref.Lit(fmt.Sprint("line ", i, "\n")) })...)
	},
	"template-strip": func(n int) *ref.Node {
		return ref.Tmpl(ref.Lit("a"+strings.Repeat(" ", n)), withMarkers(ref.Interp(ref.Var("x")), "~", "~"), ref.Lit(strings.Repeat(" ", n)+"\n"+strings.Repeat(" ", n)+"b"))
	},
	"template-dollars": func(n int) *ref.Node {
		return ref.Tmpl(ref.Lit(strings.Repeat("$", n)+"a"+strings.Repeat("%", n)+"{ "), ref.Interp(ref.Var("x")))
	},
}

func sizeObj(n int) *ref.Node {
	var x []*ref.Node
	for i := 0; i < n; i++ {
		x = append(x, ref.Key(fmt.Sprint("k", i)), numI(i))
	}
	return ref.Obj(x...)
}

// sizeEnv has collections of n elements, and values nested n deep.
func sizeEnv(n int) *ref.Env {
	var l, os []cty.Value
	m := map[string]cty.Value{}
	vars := map[string]cty.Value{"t": cty.True, "f": cty.False, "x": num("1"), "v": num("0")}
	deep, deept := str("bottom"), str("bottom")
	many := &ref.Fn{Impl: func(a []cty.Value) (cty.Value, bool) { return cty.TupleVal(append([]cty.Value{}, a...)), true }}
	for i := 0; i < n; i++ {
		v := num(fmt.Sprint((i*7 + 3) % 1031))
		l = append(l, v)
		m[fmt.Sprint("k", i)] = v
		os = append(os, obj("a", v))
		deep = obj("a", deep)
		deept = tup(deept)
		vars[fmt.Sprint("v", i)] = num(fmt.Sprint(i * 3))
		many.Params = append(many.Params, ref.Param{Type: cty.Number})
	}
	vars["ln"], vars["tn"], vars["sn"] = cty.ListVal(l), cty.TupleVal(l), cty.SetVal(l)
	vars["mn"], vars["on"] = cty.MapVal(m), cty.ObjectVal(m)
	vars["lo"], vars["to"] = cty.ListVal(os), cty.TupleVal(os)
	vars["deep"], vars["deept"] = deep, deept
	any := ref.Param{Type: cty.DynamicPseudoType, AllowNull: true}
	return &ref.Env{Vars: vars, Funcs: map[string]*ref.Fn{
		"all": {Variadic: &any, Impl: many.Impl}, "many": many,
		"id": {Params: []ref.Param{any}, Impl: func(a []cty.Value) (cty.Value, bool) { return a[0], true }},
	}}
}

// sizeLimits are the largest sizes of some families.
var sizeLimits = map[string]int{"for-deep": 7, "for-coll": 65, "template-for-deep": 33, "template-deep": 129, "cond-then": 65, "cond-else": 65, "template-if": 129, "negative": 257}

func families(names string) []string { return strings.Fields(names) }

// sizeEval evaluates a member of a family of expressions.
func sizeEval(r *fw.Rec, c sizeCase) {
	t := sizeExprs[c.Fam](c.N)
	env := sizeEnv(c.N)
	r.State(c.Fam, fmt.Sprint(c.N))
	checkEval(r, t.Print(ref.Spaced, true), t, env, toCtx(env, nil))
	r.Trace()
}

// lines repeats a text that may contain the number of its repetition.
func lines(n int, f string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(strings.Replace(f, "#", fmt.Sprint(i), -1))
	}
	return b.String()
}

func around(n int, open, mid, end string) string {
	return strings.Repeat(open, n) + mid + strings.Repeat(end, n)
}

// sizeSources are families of source texts.
var sizeSources = map[string]func(n int) string{
	"attributes":   func(n int) string { return lines(n, "a# = #\n") },
	"wide names":   func(n int) string { return "a = 1\n" + strings.Repeat("b", n) + " = 2\nc = 3 // x\n" },
	"wide values":  func(n int) string { return "a = " + strings.Repeat("1", n) + " # x\nb = 2 # y\n" },
	"blocks":       func(n int) string { return lines(n, "b \"l#\" {\n  x = #\n}\n") },
	"empty blocks": func(n int) string { return lines(n, "b {\n}\n") },
	"one-line":     func(n int) string { return lines(n, "b { a = # }\n") },
	"labels":       func(n int) string { return "b" + lines(n, " \"l#\"") + " {\n}\nc" + lines(n, " m#") + " {\n}\n" },
	"nested":       func(n int) string { return around(n, "b {\n", "a = 1\n", "}\n") },
	"indented": func(n int) string {
		return "b {\n" + strings.Repeat(" ", n) + "a = 1\n" + strings.Repeat("\t", n) + "b = 2\n}\n"
	},
	"gap": func(n int) string {
		return "a" + strings.Repeat(" ", n) + "=" + strings.Repeat(" ", n) + "1" + strings.Repeat(" ", n) + "\nb=2\n"
	},
	"blank lines": func(n int) string { return "a = 1\n" + strings.Repeat("\n", n) + "b = 2\n" + strings.Repeat("\n", n) },
	"comments":    func(n int) string { return lines(n, "# c#\n// d#\n") + "a = 1\n" },
	"trailing":    func(n int) string { return lines(n, "a# = 1 # c#\n") },
	"long comment": func(n int) string {
		return "# " + strings.Repeat("x", n) + "\na = 1 /*" + strings.Repeat("\n", n) + "*/\n"
	},
	"tuple":        func(n int) string { return "a = [" + lines(n, "#, ") + "]\n" },
	"tuple lines":  func(n int) string { return "a = [\n" + lines(n, "#,\n") + "]\n" },
	"object":       func(n int) string { return "a = {" + lines(n, "k# = #, ") + "}\n" },
	"object lines": func(n int) string { return "a = {\n" + lines(n, "k# = #\n") + "}\n" },
	"tuples":       func(n int) string { return "a = " + around(n, "[", "", "]") + "\n" },
	"tuples lines": func(n int) string { return "a = " + around(n, "[\n", "1", "\n]") + "\n" },
	"objects":      func(n int) string { return "a = " + around(n, "{ a = ", "1", "}") + "\n" },
	"parens":       func(n int) string { return "a = " + around(n, "(", "b", ")") + "\n" },
	"parens lines": func(n int) string { return "a = " + around(n, "(\n", "b", "\n)") + "\n" },
	"indices":      func(n int) string { return "a = b" + lines(n, "[#]") + "\n" },
	"steps":        func(n int) string { return "a = b" + lines(n, ".c#") + lines(n, "[#].d") + "\n" },
	"splats":       func(n int) string { return "a = b" + lines(n, "[*].c#") + "\n" },
	"sum":          func(n int) string { return "a = 0" + lines(n, " + #") + "\n" },
	"unary": func(n int) string {
		return "a = " + strings.Repeat("-", n) + "1\nb = " + strings.Repeat("!", n) + "c\n"
	},
	"conditionals": func(n int) string { return "a = " + lines(n, "b ? # : ") + "c\n" },
	"arguments":    func(n int) string { return "a = f(" + lines(n, "#, ") + "b...)\n" },
	"calls":        func(n int) string { return "a = " + around(n, "f(", "", ")") + "\n" },
	"fors":         func(n int) string { return "a = " + around(n, "[for x in y: ", "x", "]") + "\n" },
	"string":       func(n int) string { return "a = \"" + strings.Repeat("s", n) + "\"\n" },
	"wide string": func(n int) string {
		return "a = \"" + strings.Repeat("é\u0301\U0001F468\u200d\U0001F469", n) + "\" // c\n"
	},
	"escapes":       func(n int) string { return "a = \"" + strings.Repeat(`\n\"\\$${`, n) + "\"\n" },
	"parts":         func(n int) string { return "a = \"" + lines(n, "x${b#}") + "\"\n" },
	"templates":     func(n int) string { return "a = " + around(n, `"x${`, "b", `}y"`) + "\n" },
	"directives":    func(n int) string { return "a = \"" + around(n, "%{if b}", "c", "%{endif}") + "\"\n" },
	"heredoc":       func(n int) string { return "a = <<EOT\n" + lines(n, "line # ${b}\n") + "EOT\nb = 1\n" },
	"flush heredoc": func(n int) string { return "a = <<-EOT\n" + lines(n, "   line #\n") + "  EOT\n" },
	"heredocs":      func(n int) string { return lines(n, "a# = <<A#\n  x\nA#\n") },
	"inner heredoc": func(n int) string { return "a = " + around(n, "\"${<<A\n${", "b", "}\nA\n}\"") + "\n" },
	"long marker":   func(n int) string { return "a = <<" + strings.Repeat("M", n) + "\nx\n" + strings.Repeat("M", n) + "\n" },
	"near marker":   func(n int) string { return "a = <<MM\n" + lines(n, " MMM\nM\nMMx\n") + "MM\n" },
	"identifier": func(n int) string {
		return strings.Repeat("i", n) + " = " + strings.Repeat("j-", n) + "\n" + strings.Repeat("é", n) + " \"l\" {\n}\n"
	},
	"number":       func(n int) string { return "a = " + strings.Repeat("9", n) + "." + strings.Repeat("1", n) + "e1\n" },
	"crlf":         func(n int) string { return lines(n, "a# = 1\r\n") + strings.Repeat("\r\n", n) },
	"no end":       func(n int) string { return lines(n, "a# = 1\n") + "b = 2" },
	"spaces end":   func(n int) string { return "a = 1" + strings.Repeat(" ", n) },
	"bad nested":   func(n int) string { return strings.Repeat("b {\n", n) + "a = 1\n" },
	"bad brackets": func(n int) string { return "a = " + strings.Repeat("[{(", n) + "\n" },
	"bad template": func(n int) string { return "a = " + strings.Repeat("\"${", n) + "\n" },
	"bad closing":  func(n int) string { return "a = 1\n" + strings.Repeat("}\n", n) + strings.Repeat("]", n) },
	"bad bytes":    func(n int) string { return "a = \"" + strings.Repeat("\xff", n) + "\"\n" + strings.Repeat("'", n) },
	"repeated":     func(n int) string { return strings.Repeat("a = 1\n", n) },
}

func sizeSrcGen(t fw.Tier, yield func(sizeCase)) {
	sizeGen(sortedKeys(sizeSources), map[string]int{"inner heredoc": 33, "fors": 129})(t, yield)
}

const sizeSrcText = "families of source texts, with "

// sizeJSON are families of JSON values.
var sizeJSON = map[string]func(n int) string{
	"array":      func(n int) string { return "[" + lines(n, "#, ") + "null]" },
	"object":     func(n int) string { return "{" + lines(n, `"k#": #, `) + `"z": 1}` },
	"arrays":     func(n int) string { return around(n, "[", "1", "]") },
	"objects":    func(n int) string { return around(n, `{"a": `, "1", "}") },
	"both":       func(n int) string { return around(n, `[{"a": `, "true", "}]") },
	"string":     func(n int) string { return `"` + strings.Repeat("s", n) + `"` },
	"escapes":    func(n int) string { return `"` + strings.Repeat(`\n\u00e9\"\\\ud83d\ude00`, n) + `"` },
	"wide":       func(n int) string { return `"` + strings.Repeat("é\U0001F600", n) + `"` },
	"name":       func(n int) string { return `{"` + strings.Repeat("n", n) + `": 1}` },
	"integer":    func(n int) string { return "1" + strings.Repeat("0", (n-1)%150) + "7" },
	"fraction":   func(n int) string { return "0." + strings.Repeat("0", (n-1)%150) + "5" },
	"exponent":   func(n int) string { return fmt.Sprint("1e", n) },
	"spaces":     func(n int) string { return "[" + strings.Repeat(" ", n) + "1" + strings.Repeat("\t\n", n) + ",2]" },
	"lines":      func(n int) string { return "[\n" + lines(n, "#,\r\n") + "0]" },
	"parts":      func(n int) string { return `"` + strings.Repeat("x${n}", n) + `"` },
	"dollars":    func(n int) string { return `"` + strings.Repeat("$", n) + "a" + strings.Repeat("%", n) + `"` },
	"templates":  func(n int) string { return "[" + strings.Repeat(`"x${n}", "${n}", `, n) + `"y"]` },
	"properties": func(n int) string { return "{" + lines(n, `"k${n}#": "${n}#", `) + `"z": 1}` },
}

// sizeBodies are families of bodies.
var sizeBodies = map[string]func(n int) []*bItem{
	"attributes": func(n int) []*bItem { return bItems(n, func(i int) *bItem { return bAttr(fmt.Sprint("n", i), "#") }) },
	"blocks": func(n int) []*bItem {
		return bItems(n, func(i int) *bItem { return bBlock("x", []string{fmt.Sprint("l", i)}, bAttr("a", "#")) })
	},
	"types": func(n int) []*bItem {
		return bItems(n, func(i int) *bItem {
			if i%3 == 0 {
				return bBlock("y", nil, bAttr("b", "#"))
			}
			return bBlock("x", []string{fmt.Sprint("l", i%5)}, bAttr("a", "#"))
		})
	},
	"others": func(n int) []*bItem {
		return append(bItems(n, func(i int) *bItem { return bBlock(fmt.Sprint("t", i), nil) }), bBlock("x", []string{"l"}), bAttr("a", "#"))
	},
	"mixed": func(n int) []*bItem {
		return bItems(n, func(i int) *bItem {
			if i%2 == 0 {
				return bAttr(fmt.Sprint("n", i), "#")
			}
			return bBlock("y", nil)
		})
	},
	"inner": func(n int) []*bItem {
		return []*bItem{bBlock("x", []string{"l"}, bItems(n, func(i int) *bItem { return bAttr(fmt.Sprint("n", i), "#") })...), bBlock("y", nil, bItems(n, func(i int) *bItem { return bBlock("y", nil, bAttr("a", "#")) })...)}
	},
}

func bItems(n int, f func(i int) *bItem) []*bItem {
	var ret []*bItem
	for i := 0; i < n; i++ {
		ret = append(ret, f(i))
	}
	return ret
}

// sizeSeqs are the extractions for a family of bodies.
func sizeSeqs(n int) [][]bOp {
	var all, half bSchema
	for i := 0; i < n; i++ {
		a := hcl.AttributeSchema{Name: fmt.Sprint("n", i), Required: i%2 == 1}
		all.Attrs = append(all.Attrs, a)
		if i >= n/2 {
			half.Attrs = append(half.Attrs, a)
		}
		all.Blocks = append(all.Blocks, hcl.BlockHeaderSchema{Type: fmt.Sprint("t", i)})
	}
	x := hcl.BlockHeaderSchema{Type: "x", LabelNames: []string{"first"}}
	y := hcl.BlockHeaderSchema{Type: "y"}
	all.Attrs = append(all.Attrs, hcl.AttributeSchema{Name: "a"}, hcl.AttributeSchema{Name: "b"})
	all.Blocks = append(all.Blocks, x, y)
	half.Blocks = append(half.Blocks, y)
	xs := bSchema{Blocks: []hcl.BlockHeaderSchema{x}}
	return [][]bOp{{{'c', all}}, {{'c', half}}, {{'p', half}, {'c', all}}, {{'p', half}, {'p', xs}, {'c', all}}, {{'p', xs}, {'j', bSchema{}}}, {{'p', all}, {'c', bSchema{}}}, {{'c', bSchema{}}}, {{'j', bSchema{}}}}
}

func init() {
	sizeExtend()
}

func sizeExtend() {
	exprText := func(s string) string {
		return fmt.Sprintf("%d families of expressions, with %s", len(families(s)), sizesText)
	}
	srcText := fmt.Sprintf("%d families of source texts, with %s", len(sizeSources), sizesText)
	ops := "sum minus minus-right product mixed or or-last and equal not negative parens cond-else cond-then digits fraction"
	colls := "tuple tuple-deep object object-deep index-first index-last index-over index-list index-list-over legacy-index index-map attr-object attr-literal attr-deep index-deep index-computed splat-list splat-attr splat-tuple splat-deep for-list for-index for-map for-object for-set for-cond for-obj for-group for-one for-deep for-coll name"
	tmpls := "string escaped template template-vars template-deep template-wrap template-if template-for template-for-deep template-lines template-strip template-dollars"
	calls := "call call-expand call-expand-tuple call-exact call-short call-long call-deep vars vars-sum vars-object vars-call vars-last"
	all := strings.Join([]string{ops, colls, tmpls, calls}, " ")

	fw.Extend("C01", fw.S("sizes", srcText, sizeSrcGen, func(r *fw.Rec, c sizeCase) {
		runTotalSrc(r, []byte(sizeSources[c.Fam](c.N)), false)
	}))
	fw.Extend("C02", fw.S("sizes", srcText, sizeSrcGen, func(r *fw.Rec, c sizeCase) {
		src := sizeSources[c.Fam](c.N)
		for m := 0; m < 3; m++ {
			runLex(r, lexCase{fw.StrCase(src), m, lexStarts[m%2]})
		}
	}))
	fw.Extend("C03", fw.S("sizes", exprText(all), sizeGen(families(strings.NewReplacer("template-strip ", "", "digits fraction", "").Replace(all)), sizeLimits), func(r *fw.Rec, c sizeCase) {
		runTree(r, treeCase{sizeExprs[c.Fam](c.N)})
	}))
	fw.Extend("C04", fw.S("sizes", exprText(ops), sizeGen(families(ops), sizeLimits), sizeEval))
	fw.Extend("C05", fw.S("sizes", exprText(colls), sizeGen(families(colls), sizeLimits), sizeEval))
	fw.Extend("C06", fw.S("sizes", exprText(tmpls), sizeGen(families(tmpls), sizeLimits), func(r *fw.Rec, c sizeCase) {
		t := sizeExprs[c.Fam](c.N)
		sizeEval(r, c)
		if t.K != "tmpl" {
			return
		}
		env := sizeEnv(c.N)
		ctx := toCtx(env, nil)
		for _, end := range []string{"", "\n"} {
			parts := t.X
			src := t.PrintTemplate(ref.Compact)
			if end != "" {
				parts = ref.Merge(append(append([]*ref.Node{}, t.X...), ref.Lit(end)))
				src = "<<EOT_\n" + ref.Tmpl(parts...).PrintTemplate(ref.Spaced) + "EOT_\n"
			}
			if ambiguous(parts, end != "") {
				continue
			}
			var e hcl.Expression
			var diags hcl.Diagnostics
			if end == "" {
				e, diags = hclsyntax.ParseTemplate([]byte(src), "t.tmpl", hcl.InitialPos)
			} else {
				e, diags = hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.InitialPos)
			}
			r.Op(1)
			if diags.HasErrors() {
				r.Failf("", "valid template %q is rejected: %s", src, diagsStr(diags))
				return
			}
			ev := &ref.Eval{}
			compareOut(r, src, e, ev.BareTemplate(parts, env), ctx, "")
		}
	}))
	fw.Extend("C07", fw.S("sizes", exprText(calls), sizeGen(families(calls), sizeLimits), sizeEval),
		fw.S("chains", "chains of contexts, each variable and function in one of them, with "+sizesText, sizeGen([]string{"outer", "inner", "spread", "gaps"}, nil), sizeScopes))
	fw.Extend("C09", fw.S("sizes", exprText(all), sizeGen(families(all), sizeLimits), func(r *fw.Rec, c sizeCase) {
		t := sizeExprs[c.Fam](c.N)
		src := t.Print(ref.Spaced, true)
		r.State(c.Fam, fmt.Sprint(c.N))
		want := map[string]bool{}
		freeVars(t, map[string]bool{}, want)
		e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", hcl.InitialPos)
		r.Op(1)
		if diags.HasErrors() {
			r.Failf("", "valid expression %s is rejected: %s", src, diagsStr(diags))
			return
		}
		env := sizeEnv(c.N)
		got := roots(e.Variables())
		if nameSet(got) != nameSet(want) {
			r.Failf("", "%s reports the variables {%s}, want {%s}", src, nameSet(got), nameSet(want))
			return
		}
		some := &ref.Env{Vars: map[string]cty.Value{}, Funcs: env.Funcs}
		for k := range got {
			if v, ok := env.Vars[k]; ok {
				some.Vars[k] = v
			}
		}
		checkEval(r, src, t, some, toCtx(some, nil))
		r.Trace()
	}))
	bodyText := fmt.Sprintf("%d families of bodies, with %s", len(sizeBodies), sizesText)
	bodyLimit := map[string]int{}
	for f := range sizeBodies {
		bodyLimit[f] = 300
	}
	fw.Extend("C11", fw.S("sizes", bodyText, sizeGen(sortedKeys(sizeBodies), bodyLimit), func(r *fw.Rec, c sizeCase) {
		runNative(r, nativeCase{sizeBodies[c.Fam](c.N), c.N % len(bLayouts)}, sizeSeqs(c.N))
	}), fw.S("labels", "a block with labels, with "+sizesText, sizeGen([]string{"labels"}, nil), sizeLabels))
	fw.Extend("C12", fw.S("sizes", bodyText, sizeGen(sortedKeys(sizeBodies), bodyLimit), func(r *fw.Rec, c sizeCase) {
		for k := range bodyKinds {
			if c.N > 64 && (k+c.N)%3 != 0 {
				continue
			}
			runKind(r, kindCase{Kind: k, Items: sizeBodies[c.Fam](c.N)}, sizeSeqs(c.N), nil)
		}
	}))
	fw.Extend("C13", fw.S("sizes", "files with blocks only, empty ones and ones that define the same, with "+sizesText, sizeGen([]string{"blocks", "empty", "same", "mixed"}, bodyLimitFor("blocks empty same mixed", 129)), func(r *fw.Rec, c sizeCase) {
		var parts []int
		for i := 0; i < c.N; i++ {
			switch c.Fam {
			case "blocks":
				parts = append(parts, []int{5, 7}[i%2])
			case "empty":
				parts = append(parts, 0)
			case "same":
				parts = append(parts, []int{1, 5}[i%2])
			case "mixed":
				parts = append(parts, []int{5, 0, 7}[i%3])
			}
		}
		all := bSchemas([]string{"a", "b"}, map[string][]int{"x": {1}, "y": {0}})
		for _, p := range [][]int{parts, append([]int{1}, parts...), append(append([]int{}, parts...), 1)} {
			runMerge(r, mergeCase{p, "njpem"[c.N%5:]}, [][]bOp{{{'c', all[len(all)-1]}}, {{'p', all[4]}, {'c', all[21]}}, {{'p', all[11]}, {'p', all[35]}, {'c', all[0]}}, {{'p', all[8]}, {'j', bSchema{}}}})
		}
	}))
	fw.Extend("C14", fw.S("sizes", fmt.Sprintf("%d families of JSON values, complete and cut off, with %s", len(sizeJSON), sizesText), sizeGen(sortedKeys(sizeJSON), bodyLimitFor("arrays objects both", 300)), func(r *fw.Rec, c sizeCase) {
		v := sizeJSON[c.Fam](c.N)
		for _, s := range []string{`{"a": ` + v + "}", `{"a": ` + v + "}\n\n", `[{"a": 1, "b": ` + v + `}]`, `{"a": ` + v, `{"a": ` + v[:len(v)-1] + "}", `{"a": ` + v + v + "}"} {
			checkJSON(r, s)
		}
	}))
	fw.Extend("C16", fw.S("sizes", fmt.Sprintf("%d families of JSON values, with %s", len(sizeJSON), sizesText), sizeGen(sortedKeys(sizeJSON), map[string]int{"exponent": 150}), func(r *fw.Rec, c sizeCase) {
		checkJSONValue(r, sizeJSON[c.Fam](c.N))
	}))
	fw.Extend("C17", fw.S("sizes", srcText, sizeSrcGen, func(r *fw.Rec, c sizeCase) { checkLoad(r, sizeSources[c.Fam](c.N)) }))
	fw.Extend("C18", fw.S("sizes", srcText, sizeSrcGen, func(r *fw.Rec, c sizeCase) { checkFormat(r, sizeSources[c.Fam](c.N)) }))
	fw.Extend("C21", fw.S("sizes", srcText, sizeSrcGen, func(r *fw.Rec, c sizeCase) { checkPacked(r, sizeSources[c.Fam](c.N)) }))
}

func bodyLimitFor(names string, n int) map[string]int {
	ret := map[string]int{}
	for _, f := range families(names) {
		ret[f] = n
	}
	return ret
}

func init() {
	fw.Extend("C19", fw.S("cycles", "every pair of 18 edits repeated 12 times (thorough: every triple), in each starting document", func(t fw.Tier, yield func(wEditCase)) {
		var some []wEdit
		for op := 0; op < 9; op++ {
			some = append(some, wEdit{op, ""}, wEdit{op, "$"})
		}
		n := fw.Pick(t, 2, 3)
		for d := range wDocs() {
			eachSeq(len(some), n, n, func(ix []int) {
				c := wEditCase{Doc: d, Silent: ix[0]%2 == 0}
				for i := 0; i < 12; i++ {
					for _, k := range ix {
						c.Edits = append(c.Edits, some[k])
					}
				}
				yield(c)
			})
		}
	}, runEdits))
	fw.Extend("C20", fw.S("sizes", "9 families of values and two of traversals, with "+sizesText, sizeGen(families("string wide list tuple map object nested keys negative steps indices"), bodyLimitFor("negative", 150)), sizeGenValue))
	fw.Extend("C22", fw.S("sizes", "families of specifications with as many blocks, attributes or levels, with "+sizesText, sizeSpecs, checkSpec))
	fw.Extend("C23", fw.S("sizes", "families of specifications with as many blocks, attributes or levels, with "+sizesText, sizeSpecs, checkConforms))
	fw.Extend("C24", fw.S("sizes", "slices of as many blocks, and as many fields, with "+sizesText, func(t fw.Tier, yield func(goCase)) {
		for _, n := range sizes(t) {
			for _, ty := range []string{"[]", "[]*"} {
				f := gB(ty, "x", gL("l"), gA("a", "int"))
				yield(goCase{S: []gField{f}, More: sizeBlocks(n, 1)})
				yield(goCase{S: []gField{f, gR("body")}, More: append(sizeBlocks(n, 1), bAttr("zz", "1"))})
				yield(goCase{S: []gField{gB(ty, "y", f)}, More: []*bItem{bBlock("y", nil, sizeBlocks(n, 1)...), bBlock("y", nil)}})
			}
			if n > 129 {
				continue
			}
			var fs []gField
			var items []*bItem
			for i := 0; i < n; i++ {
				name := fmt.Sprint("f", i)
				fs = append(fs, []gField{gA(name, "int"), gO(name, "*string"), gA(name, "value")}[i%3])
				items = append(items, bAttr(name, fmt.Sprint(i)))
			}
			yield(goCase{S: fs, More: items})
			yield(goCase{S: fs, More: items[:n-1]})
		}
	}, checkGo))
	fw.Extend("C25", fw.S("sizes", "slices of as many blocks, lists and strings as long, with "+sizesText, sizeGen([]string{"[]", "[]*"}, nil), func(r *fw.Rec, c sizeCase) {
		fs := []gField{gA("s", "string"), gB(c.Fam, "x", gL("l"), gA("a", "int"), gO("b", "*string")), gA("z", "[]string")}
		v := reflect.New(gStruct(fs)).Elem()
		v.Field(0).SetString(strings.Repeat("a$", c.N))
		blocks := v.Field(1)
		var z []string
		for i := 0; i < c.N; i++ {
			e := reflect.New(gStruct(fs[1].X))
			e.Elem().Field(0).SetString(fmt.Sprint("l", i))
			e.Elem().Field(1).SetInt(int64(i))
			if i%2 == 0 {
				t := fmt.Sprint("t", i)
				e.Elem().Field(2).Set(reflect.ValueOf(&t))
			}
			if c.Fam == "[]" {
				e = e.Elem()
			}
			blocks.Set(reflect.Append(blocks, e))
			z = append(z, fmt.Sprint(i))
		}
		v.Field(2).Set(reflect.ValueOf(z))
		r.State(c.Fam, fmt.Sprint(c.N))
		checkEncode(r, fs, v, encStarts[c.N%len(encStarts)])
	}))
	fw.Extend("C27", fw.S("sizes", "types nested as deep, and with as many attributes or elements, with "+sizesText, sizeGen(families("list set map tuple object mixed attributes elements"), bodyLimitFor("list set map tuple object mixed", 129)), sizeTypes))
	fw.Extend("C28", fw.S("sizes", "functions with as many parameters and arguments, with "+sizesText, sizeGen(families("params variadic both many"), bodyLimitFor("many", 129)), sizeFuncs))
	fw.Extend("C29", fw.S("sizes", "as many include blocks, and as many other blocks, with "+sizesText, func(t fw.Tier, yield func(xCase)) {
		for _, n := range sizes(t) {
			if n > 129 {
				continue
			}
			var incs, mixed []*xItem
			for i := 0; i < n; i++ {
				incs = append(incs, &xItem{K: "i", Name: []string{"p2", "nil", "nilwarn"}[i%3]})
				mixed = append(mixed, &xItem{K: "b", Name: []string{"x", "y"}[i%2], Body: []*xItem{{K: "a", Name: "a", Val: i}}})
			}
			for _, j := range []bool{false, true} {
				yield(xCase{Items: incs, JSON: j, Modes: []int{n % 2, 0}})
				yield(xCase{Items: incs, JSON: j, Deep: true, Modes: []int{n % 3, 1}})
				yield(xCase{Items: append(append([]*xItem{}, mixed...), incs[0]), JSON: j, Deep: true, Modes: []int{n % 2, 2}})
			}
		}
	}, runInclude))
	fw.Extend("C33", fw.S("sizes", "as many attributes and blocks, and blocks nested as deep, with "+sizesText, func(t fw.Tier, yield func([]*lItem)) {
		for _, n := range sizes(t) {
			if n > 129 {
				continue
			}
			var attrs, blocks []*lItem
			deep := []*lItem{{Name: "a", Expr: "1"}}
			for i := 0; i < n; i++ {
				attrs = append(attrs, &lItem{Name: fmt.Sprint("n", i), Expr: fmt.Sprint(i)})
				blocks = append(blocks, &lItem{Name: "b", Block: true, Flat: i%4 == 0, Labels: []string{fmt.Sprintf("%q", fmt.Sprint("l", i))}, Body: []*lItem{{Name: "a", Expr: "1"}}})
				deep = []*lItem{{Name: fmt.Sprint("b", i), Block: true, Body: deep}}
			}
			yield(attrs)
			yield(blocks)
			yield(deep)
		}
	}, runAtPos))
	fw.Extend("C34", fw.S("sizes", "lists, maps, calls and traversals of as many parts, with "+sizesText, func(t fw.Tier, yield func(aCase)) {
		for _, n := range sizes(t) {
			trav := "a"
			for i := 0; i < n; i++ {
				trav += ".k"
			}
			for _, w := range aWrappers {
				yield(aCase{aExpr{Src: trav, Kind: "trav", Trav: trav}, w})
				if n > 33 && w != "plain" {
					continue
				}
				yield(aCase{aExpr{Src: "[" + lines(n, "#, ") + "a]", Kind: "list"}, w})
				yield(aCase{aExpr{Src: "{" + lines(n, "k# = #, ") + "z = a}", Kind: "map"}, w})
				yield(aCase{aExpr{Src: "id(" + lines(n, "#, ") + "a)", Kind: "call"}, w})
			}
		}
	}, runStatic))
	fw.Extend("C36", fw.S("sizes", "values nested as deep, with every prefix of the steps to the innermost value and with one wrong step at the end, with "+sizesText, func(t fw.Tier, yield func(tCase)) {
		for _, n := range sizes(t) {
			if n > 129 {
				continue
			}
			_, steps := tDeep(n)
			for _, k := range []int{1, n / 2, n - 1, n} {
				yield(tCase{Deep: n, Steps: steps[:k]})
				yield(tCase{Deep: n, Steps: append(append([]int{}, steps[:k]...), 2)})
				yield(tCase{Deep: n, Steps: append(append([]int{}, steps[:k]...), 7)})
			}
		}
	}, runTraverse))
}

// sizeBlocks are blocks of type x with labels.
func sizeBlocks(n, labels int) []*bItem {
	return bItems(n, func(i int) *bItem {
		var ls []string
		if labels > 0 {
			ls = append(ls, fmt.Sprint("l", i))
		}
		if labels > 1 {
			ls = append(ls, fmt.Sprint("m", i%3))
		}
		return bBlock("x", ls, bAttr("a", fmt.Sprint(i)))
	})
}

func sizeSpecs(t fw.Tier, yield func(specCase)) {
	out := func(s *sNode, items []*bItem) { yield(specCase{Spec: s, More: items}) }
	in := sAttr("a", "number", true)
	for _, n := range sizes(t) {
		for _, k := range []string{"list", "tuple", "set"} {
			blocks := sizeBlocks(n, 0)
			for _, mm := range [][2]int{{0, 0}, {n, 0}, {n + 1, 0}, {0, n}, {0, n - 1}, {n, n}, {n - 1, n + 1}} {
				out(&sNode{K: k, Name: "x", Min: mm[0], Max: mm[1], X: []*sNode{in}}, blocks)
				if n < 40 {
					out(&sNode{K: k, Name: "x", Min: mm[0], Max: mm[1], X: []*sNode{sObj(in, sLabel(0))}}, sizeBlocks(n, 1))
				}
			}
			out(&sNode{K: k, Name: "x", X: []*sNode{in}}, append(blocks, blocks...))
		}
		for _, k := range []string{"map", "object"} {
			for l := 1; l <= 2; l++ {
				s := &sNode{K: k, Name: "x", Labels: l, X: []*sNode{in}}
				out(s, sizeBlocks(n, l))
				out(s, append(sizeBlocks(n, l), sizeBlocks(1, l)...))
				out(s, append(sizeBlocks(n, l), sizeBlocks(n, l)[n-1]))
			}
		}
		if n > 129 {
			continue
		}
		var attrs []*sNode
		items := bItems(n, func(i int) *bItem {
			attrs = append(attrs, sAttr(fmt.Sprint("n", i), "number", i%3 == 0))
			return bAttr(fmt.Sprint("n", i), fmt.Sprint(i))
		})
		out(sObj(attrs...), items)
		out(sTup(attrs...), items)
		out(sTup(attrs...), items[1:])
		out(sObj(attrs...), items[:n-1])
		out(&sNode{K: "attrs", Name: "x", Ty: "number"}, []*bItem{bBlock("x", nil, items...)})
		def, deep := sAttr("n0", "number", false), in
		inner := []*bItem{bAttr("a", "1")}
		for i := 1; i < n; i++ {
			def = sDef(sAttr(fmt.Sprint("n", i), "number", false), def)
			if i < 40 {
				deep = &sNode{K: []string{"block", "list", "tuple"}[i%3], Name: "x", X: []*sNode{deep}}
				inner = []*bItem{bBlock("x", nil, inner...)}
			}
		}
		out(def, items)
		out(def, items[:1])
		out(def, nil)
		out(deep, inner)
	}
}

func sizeGenValue(r *fw.Rec, c sizeCase) {
	var vs []cty.Value
	m := map[string]cty.Value{}
	nested := str("in")
	step := travCase{"a"}
	for i := 0; i < c.N; i++ {
		v := num(fmt.Sprint(i))
		vs = append(vs, v)
		m[fmt.Sprint("k", i)] = v
		if c.Fam == "nested" && i < 200 {
			nested = []cty.Value{tup(nested), obj("k", nested), cty.ListVal([]cty.Value{nested, nested}), mapv("a b", nested)}[[]int{0, 1, 0, 3}[i%4]]
		}
		step = append(step, []string{".k", "[x y", "#1"}[map[string]int{"steps": 0, "indices": i%2 + 1}[c.Fam]])
	}
	switch c.Fam {
	case "string":
		checkGen(r, str(strings.Repeat("x", c.N)))
		checkGen(r, str(strings.Repeat("$", c.N)+"{"+strings.Repeat("%", c.N)))
		checkGen(r, str(strings.Repeat("\n\"\\", c.N)))
	case "wide":
		checkGen(r, str(strings.Repeat("é\U0001F600\u200b", c.N)))
	case "list":
		checkGen(r, cty.ListVal(vs))
		checkGen(r, cty.SetVal(vs))
	case "tuple":
		checkGen(r, tup(vs...))
		checkGen(r, tup(tup(vs...), tup(vs...)))
	case "map":
		checkGen(r, cty.MapVal(m))
	case "object":
		checkGen(r, cty.ObjectVal(m))
		checkGen(r, obj("in", cty.ObjectVal(m), "l", tup(cty.ObjectVal(m))))
	case "nested":
		checkGen(r, nested)
	case "keys":
		checkGen(r, mapv(strings.Repeat("k", c.N), str("v")))
		checkGen(r, obj(strings.Repeat("k ", c.N), str("v")))
		checkGen(r, obj("k"+strings.Repeat("-", c.N), str("v")))
	case "negative":
		checkGen(r, num("-1"+strings.Repeat("0", c.N)))
		checkGen(r, num("0."+strings.Repeat("0", c.N)+"1"))
	default:
		checkGenTrav(r, step)
	}
}

func sizeTypes(r *fw.Rec, c sizeCase) {
	t := cty.String
	for i := 0; i < c.N && c.Fam != "attributes" && c.Fam != "elements"; i++ {
		k := c.Fam
		if k == "mixed" {
			k = []string{"list", "tuple", "map", "object", "set"}[i%5]
		}
		switch k {
		case "list":
			t = cty.List(t)
		case "set":
			t = cty.Set(t)
		case "map":
			t = cty.Map(t)
		case "tuple":
			t = cty.Tuple([]cty.Type{t, cty.Bool})
		case "object":
			t = cty.Object(map[string]cty.Type{"a": t, "b": cty.Number})
		}
	}
	prim := []cty.Type{cty.String, cty.Number, cty.Bool, cty.List(cty.String)}
	switch c.Fam {
	case "attributes":
		m := map[string]cty.Type{}
		for i := 0; i < c.N; i++ {
			m[fmt.Sprint("k", i)] = prim[i%4]
		}
		t = cty.Object(m)
	case "elements":
		var ts []cty.Type
		for i := 0; i < c.N; i++ {
			ts = append(ts, prim[i%4])
		}
		t = cty.Tuple(ts)
	}
	r.State(c.Fam, fmt.Sprint(c.N))
	r.Op(1)
	checkTypeString(r, t)
	r.Trace()
}

// sizeFuncs calls a function with n parameters.
func sizeFuncs(r *fw.Rec, c sizeCase) {
	params := strings.Fields(lines(c.N, "p# "))
	src, name := "", "f"
	want := []cty.Value{}
	vals := func(n int) []cty.Value {
		var ret []cty.Value
		for i := 0; i < n; i++ {
			ret = append(ret, num(fmt.Sprint(i)))
		}
		return ret
	}
	tupOf := func(v []cty.Value) cty.Value { return cty.TupleVal(append([]cty.Value{}, v...)) }
	args := vals(c.N)
	min, max := c.N, c.N
	switch c.Fam {
	case "params":
		src = uFunc{Name: "f", Params: params, Result: "[" + strings.Join(params, ", ") + "]"}.native("function")
		want = args
	case "variadic":
		src = uFunc{Name: "f", Var: "rest", Result: "[rest]"}.native("function")
		want = []cty.Value{tupOf(args)}
		min, max = 0, -1
	case "both":
		src = uFunc{Name: "f", Params: params, Var: "rest", Result: fmt.Sprintf("[p%d, rest]", c.N-1)}.native("function")
		args = vals(2*c.N + 1)
		want = []cty.Value{args[c.N-1], tupOf(args[c.N:])}
		max = -1
	case "many":
		for i := 0; i < c.N; i++ {
			src += uFunc{Name: fmt.Sprint("f", i), Params: []string{"a"}, Result: fmt.Sprintf("[a, %d]", i)}.native("function")
		}
		name = fmt.Sprint("f", c.N-1)
		args = vals(1)
		want = []cty.Value{args[0], num(fmt.Sprint(c.N - 1))}
		min, max = 1, 1
	}
	r.State(c.Fam, fmt.Sprint(c.N))
	r.Op(1)
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.InitialPos)
	if diags.HasErrors() {
		r.Failf("", "%s: %s", src, diagsStr(diags))
		return
	}
	funcs, _, diags := userfunc.DecodeUserFunctions(f.Body, "function", nil)
	fn, ok := funcs[name]
	if diags.HasErrors() || !ok {
		r.Failf("", "%s: %s has no function %s", src, diagsStr(diags), name)
		return
	}
	if got, err := fn.Call(args); err != nil || !got.RawEquals(tupOf(want)) {
		r.Failf("", "%s\nwith %d arguments gives %#v, %v", src, len(args), got, err)
	}
	if _, err := fn.Call(vals(min)); err != nil {
		r.Failf("", "%s\nwith %d arguments fails: %v", src, min, err)
	}
	if min > 0 {
		if _, err := fn.Call(vals(min - 1)); err == nil {
			r.Failf("", "%s\naccepts %d arguments", src, min-1)
		}
	}
	if max >= 0 {
		if _, err := fn.Call(vals(max + 1)); err == nil {
			r.Failf("", "%s\naccepts %d arguments", src, max+1)
		}
	}
	r.Trace()
}

// sizeScopes evaluates in a chain of n contexts.
func sizeScopes(r *fw.Rec, c sizeCase) {
	var env *ref.Env
	for i := 0; i < c.N; i++ {
		i := i
		e := &ref.Env{Parent: env}
		here := c.Fam == "outer" && i == 0 || c.Fam == "inner" && i == c.N-1 || c.Fam == "spread" || c.Fam == "gaps" && i%3 == 0
		if here {
			e.Vars = map[string]cty.Value{"x": num(fmt.Sprint(i)), fmt.Sprint("v", i): num(fmt.Sprint(i))}
			e.Funcs = map[string]*ref.Fn{}
			for _, f := range []string{"f", fmt.Sprint("f", i)} {
				e.Funcs[f] = &ref.Fn{Impl: func([]cty.Value) (cty.Value, bool) { return num(fmt.Sprint(i)), true }}
			}
		} else if i%2 == 1 {
			e.Vars = map[string]cty.Value{"unused": cty.True}
			e.Funcs = map[string]*ref.Fn{"g": {Impl: func([]cty.Value) (cty.Value, bool) { return cty.True, true }}}
		}
		env = e
	}
	ctx := toCtx(env, nil)
	r.State(c.Fam, fmt.Sprint(c.N))
	v := ref.Var
	es := []*ref.Node{v("x"), ref.Call("f"), ref.ForT("", "y", ref.Tuple(ref.Num("1"), ref.Num("2")), ref.Tuple(v("x"), v("y"), ref.Call("f")), nil), v("nope"), ref.Call("nope")}
	for _, i := range []int{0, 1, c.N / 2, c.N - 1, c.N} {
		es = append(es, v(fmt.Sprint("v", i)), ref.Call(fmt.Sprint("f", i)))
	}
	for _, t := range es {
		checkEval(r, t.Print(ref.Spaced, true), t, env, ctx)
	}
	r.Trace()
}

// sizeLabels reads blocks with n labels, one more and one fewer.
func sizeLabels(r *fw.Rec, c sizeCase) {
	r.State(fmt.Sprint(c.N))
	for d := -1; d <= 1; d++ {
		have := c.N + d
		src := "b" + lines(have, " \"l#\"") + " {\n  a = 1\n}\n"
		f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", hcl.InitialPos)
		r.Op(2)
		if diags.HasErrors() {
			r.Failf("", "%s is rejected: %s", src, diagsStr(diags))
			return
		}
		names := strings.Fields(lines(c.N, "n# "))
		content, diags := f.Body.Content(&hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "b", LabelNames: names}}})
		if diags.HasErrors() != (d != 0) {
			r.Failf("", "%s with %d labels wanted: %s", src, c.N, diagsStr(diags))
			return
		}
		if d != 0 {
			continue
		}
		if len(content.Blocks) != 1 || strings.Join(content.Blocks[0].Labels, " ") != strings.TrimSpace(lines(have, "l# ")) {
			r.Failf("", "%s gives %v", src, content.Blocks)
			return
		}
		for i, rng := range content.Blocks[0].LabelRanges {
			if got := string(rng.SliceBytes([]byte(src))); got != fmt.Sprintf("%q", fmt.Sprint("l", i)) {
				r.Failf("", "%s: label %d is at %q", src, i, got)
				return
			}
		}
	}
	r.Trace()
}
