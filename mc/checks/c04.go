package checks

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
	"verif/mc/ref"
)

var opVals = []namedVal{
	{"n0", num("0")}, {"n1", num("1")}, {"nm", num("-1")}, {"n3", num("3")}, {"nm7", num("-7")}, {"nf", num("2.5")},
	{"nt", num("0.1")}, {"nbig", num("123456789012345678901234567890")}, {"nexp", num("1e-20")}, {"ni", cty.NumberIntVal(7)},
	{"se", cty.StringVal("")}, {"s1", cty.StringVal("1")}, {"st", cty.StringVal("true")}, {"sf", cty.StringVal("false")},
	{"sx", cty.StringVal("x")}, {"sd", cty.StringVal("2.5")}, {"sb", cty.StringVal(" 1")}, {"sone", cty.StringVal("01")},
	{"bt", cty.True}, {"bf", cty.False},
	{"z", cty.NullVal(cty.DynamicPseudoType)}, {"zn", cty.NullVal(cty.Number)}, {"zb", cty.NullVal(cty.Bool)}, {"zs", cty.NullVal(cty.String)},
	{"tu", cty.TupleVal([]cty.Value{num("1"), cty.StringVal("a")})}, {"te", cty.EmptyTupleVal}, {"t1", cty.TupleVal([]cty.Value{num("1")})},
	{"li", cty.ListVal([]cty.Value{num("1"), num("2")})}, {"le", cty.ListValEmpty(cty.Number)}, {"ls", cty.ListVal([]cty.Value{cty.StringVal("1"), cty.StringVal("2")})},
	{"lz", cty.NullVal(cty.List(cty.Number))},
	{"sn", cty.SetVal([]cty.Value{num("1"), num("2")})},
	{"mp", cty.MapVal(map[string]cty.Value{"a": num("1")})}, {"me", cty.MapValEmpty(cty.Number)},
	{"ob", cty.ObjectVal(map[string]cty.Value{"a": num("1")})}, {"ob2", cty.ObjectVal(map[string]cty.Value{"a": cty.StringVal("1")})}, {"oe", cty.EmptyObjectVal},
	{"obn", cty.ObjectVal(map[string]cty.Value{"a": cty.NullVal(cty.Number)})},
}

var opEnv = envOf(opVals)

type exprCase struct{ T *ref.Node }

func (c exprCase) String() string { return c.T.Print(ref.Spaced, false) }

func opLits() []*ref.Node {
	return []*ref.Node{
		ref.Num("0"), ref.Num("1"), ref.Num("2"), ref.Num("10"), ref.Num("0.5"), ref.Num("1e3"), ref.Un("-", ref.Num("3")),
		ref.Str("2"), ref.Str("a"), ref.Str(""), ref.Str("true"), ref.Bool(true), ref.Bool(false), ref.Null(),
		ref.Tuple(ref.Num("1")), ref.Tuple(), ref.Obj(ref.Key("a"), ref.Num("1")), ref.Obj(),
		ref.Attr(ref.Var("ob"), "missing"), ref.Var("undefined"),
		ref.Tmpl(ref.Interp(ref.Num("1"))), ref.Tmpl(ref.Lit("1"), ref.Interp(ref.Num("1"))),
	}
}

// numberTexts lists number literals in every notation.
func numberTexts(t fw.Tier) []string {
	var ints []string
	eachString([]string{"0", "1", "5", "9"}, 1, fw.Pick(t, 3, 4), func(s string) { ints = append(ints, s) })
	var out []string
	fracs := []string{"", ".0", ".1", ".5", ".25", ".01", ".999"}
	exps := []string{"", "e0", "e1", "E2", "e+1", "e-1", "e-3", "E+10", "e20", "e-20", "e100"}
	for _, i := range ints {
		for _, f := range fracs {
			for _, e := range exps {
				out = append(out, i+f+e)
			}
		}
	}
	for _, n := range []int{15, 16, 17, 18, 19, 20, 21, 38, 39, 40, 77, 78, 100, 150, 154} {
		for _, d := range []string{"9", "1", "8"} {
			out = append(out, strings.Repeat(d, n), strings.Repeat(d, n)+".5", "1"+strings.Repeat("0", n-1)+"1", "0."+strings.Repeat("0", n-2)+d)
		}
	}
	return out
}

func init() {
	run := func(r *fw.Rec, c exprCase) {
		src := c.T.Print(ref.Spaced, false)
		r.State(src)
		checkEval(r, src, c.T, opEnv, opCtx)
		r.Trace()
	}
	small := []*ref.Node{}
	for _, n := range []string{"n0", "n1", "n3", "nm7", "nf", "s1", "sx", "st", "bt", "bf", "z", "zn", "li"} {
		small = append(small, ref.Var(n))
	}
	fw.Register(&fw.Check{
		ID:          "C04",
		Assumptions: []string{"conversion and type unification are those of the value library", "a non-zero number divided by zero, modulo by zero and arithmetic on infinities are not judged"},
		Suites: []fw.Suite{
			fw.S("pairs", "every operator on every pair of 38 values of all types and of 22 literal operands",
				func(t fw.Tier, yield func(exprCase)) {
					all := append(varNodes(opVals), opLits()...)
					for _, a := range all {
						yield(exprCase{ref.Un("-", a)})
						yield(exprCase{ref.Un("!", a)})
						yield(exprCase{ref.Un("-", ref.Un("-", a))})
						yield(exprCase{ref.Un("!", ref.Un("!", a))})
						for _, b := range all {
							for _, op := range binOps {
								yield(exprCase{ref.Bin(op, a, b)})
							}
						}
					}
				}, run),
			fw.S("nested", "every pair of operators, grouped both ways, on every triple of 13 values (thorough 22)",
				func(t fw.Tier, yield func(exprCase)) {
					vs := small
					if t == fw.Thorough {
						for _, n := range []string{"nm", "nt", "se", "sd", "zb", "zs", "tu", "ob", "sn"} {
							vs = append(vs, ref.Var(n))
						}
					}
					for _, op1 := range binOps {
						for _, op2 := range binOps {
							for _, a := range vs {
								for _, b := range vs {
									for _, c := range vs {
										yield(exprCase{ref.Bin(op2, ref.Bin(op1, a, b), c)})
										yield(exprCase{ref.Bin(op1, a, ref.Bin(op2, b, c))})
									}
								}
							}
						}
					}
				}, run),
			fw.S("conditional", "every condition of 14, with every pair of results out of 60",
				func(t fw.Tier, yield func(exprCase)) {
					conds := []*ref.Node{ref.Var("bt"), ref.Var("bf"), ref.Var("st"), ref.Var("sf"), ref.Var("sx"), ref.Var("z"), ref.Var("zb"), ref.Var("n1"), ref.Var("li"), ref.Bool(true), ref.Bool(false), ref.Var("undefined"), ref.Bin("==", ref.Var("n1"), ref.Num("1")), ref.Bin("<", ref.Var("sx"), ref.Num("1"))}
					all := append(varNodes(opVals), opLits()...)
					for _, c := range conds {
						for _, a := range all {
							for _, b := range all {
								yield(exprCase{ref.Cond(c, a, b)})
							}
						}
					}
				}, run),
			fw.S("condnested", "every conditional nested in each part of another, over 6 values",
				func(t fw.Tier, yield func(exprCase)) {
					vs := []*ref.Node{ref.Var("bt"), ref.Var("bf"), ref.Num("1"), ref.Str("a"), ref.Null(), ref.Var("undefined")}
					if t == fw.Thorough {
						vs = append(vs, ref.Var("st"), ref.Var("li"))
					}
					eachSeq(len(vs), 5, 5, func(i []int) {
						a, b, c, d, e := vs[i[0]], vs[i[1]], vs[i[2]], vs[i[3]], vs[i[4]]
						yield(exprCase{ref.Cond(ref.Cond(a, b, c), d, e)})
						yield(exprCase{ref.Cond(a, ref.Cond(b, c, d), e)})
						yield(exprCase{ref.Cond(a, b, ref.Cond(c, d, e))})
					})
				}, run),
			fw.S("numbers", "number literals of every notation with up to 3 integer digits (thorough 4), and of up to 154 digits, read exactly",
				func(t fw.Tier, yield func(fw.StrCase)) {
					for _, s := range numberTexts(t) {
						yield(fw.StrCase(s))
					}
				}, runNumber),
			fw.S("exact", "+ - * on every pair of large and fractional literals, exactly",
				func(t fw.Tier, yield func(exprCase)) {
					var ns []*ref.Node
					for _, s := range []string{"0", "1", "9007199254740993", "18446744073709551617", "0.5", "0.125", "123456789012345678901234567890123456789", "99999999999999999999.5", "1e40", "3", "7e-2"} {
						ns = append(ns, ref.Num(s), ref.Un("-", ref.Num(s)))
					}
					for _, a := range ns {
						for _, b := range ns {
							for _, op := range binOps {
								yield(exprCase{ref.Bin(op, a, b)})
								for _, c := range ns[:fw.Pick(t, 6, len(ns))] {
									yield(exprCase{ref.Bin("+", ref.Bin(op, a, b), c)})
									yield(exprCase{ref.Bin("==", ref.Bin("-", ref.Bin("+", a, b), b), c)})
								}
							}
						}
					}
				}, run),
		},
	})
}

var opCtx = toCtx(opEnv, nil)

func runNumber(r *fw.Rec, c fw.StrCase) {
	src := string(c)
	r.State(src)
	e, diags := hclsyntax.ParseExpression(c, "t.hcl", hcl.InitialPos)
	r.Op(2)
	if diags.HasErrors() {
		r.Failf("", "number %s is rejected: %s", src, diagsStr(diags))
		return
	}
	v, diags := e.Value(nil)
	if diags.HasErrors() || v.Type() != cty.Number || v.IsNull() || !v.IsKnown() {
		r.Failf("", "number %s gives %#v %s", src, v, diagsStr(diags))
		return
	}
	exact, _ := new(big.Rat).SetString(src)
	want := new(big.Float).SetPrec(512).SetRat(exact)
	if v.AsBigFloat().Cmp(want) != 0 {
		// decimal fractions have no exact binary form; allow the last bits
		diff := new(big.Float).Sub(v.AsBigFloat(), want)
		diff.Abs(diff)
		tol := new(big.Float).SetMantExp(new(big.Float).Abs(want), -505)
		if exact.IsInt() && exact.Num().BitLen() <= 512 || diff.Cmp(tol) > 0 {
			r.Failf("", "number %s gives %s", src, v.AsBigFloat().Text('g', 40))
			return
		}
	}
	r.Trace()
}

var _ = fmt.Sprint
