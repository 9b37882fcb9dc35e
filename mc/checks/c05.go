package checks

import (
	"fmt"

	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
	"verif/mc/ref"
)

func obj(kv ...interface{}) cty.Value {
	m := map[string]cty.Value{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(cty.Value)
	}
	return cty.ObjectVal(m)
}

func tup(v ...cty.Value) cty.Value { return cty.TupleVal(v) }
func str(s string) cty.Value       { return cty.StringVal(s) }
func null(t cty.Type) cty.Value    { return cty.NullVal(t) }

var oab = cty.Object(map[string]cty.Type{"a": cty.Number, "b": cty.String})

func ab(n, s string) cty.Value { return obj("a", num(n), "b", str(s)) }

// collVals are sources for index, attribute, splat and for expressions.
var collVals = []namedVal{
	{"z", null(cty.DynamicPseudoType)}, {"zs", null(cty.String)}, {"zo", null(oab)}, {"zl", null(cty.List(cty.String))},
	{"zt", null(cty.Tuple([]cty.Type{cty.Number}))}, {"zset", null(cty.Set(cty.String))}, {"zm", null(cty.Map(cty.Number))},
	{"n", num("1")}, {"s", str("x")}, {"bo", cty.True},
	{"te", cty.EmptyTupleVal}, {"tn", tup(num("1"), str("a"), cty.True)}, {"tz", tup(num("1"), null(cty.Number))},
	{"tt", tup(tup(num("1"), num("2")), tup(), tup(str("q")))}, {"to", tup(ab("1", "x"), obj("a", str("only")))},
	{"le", cty.ListValEmpty(cty.String)}, {"leo", cty.ListValEmpty(oab)}, {"ls", cty.ListVal([]cty.Value{str("b"), str("a"), str("c")})},
	{"lo", cty.ListVal([]cty.Value{ab("3", "z"), ab("1", "y")})}, {"lz", cty.ListVal([]cty.Value{str("a"), null(cty.String)})},
	{"loz", cty.ListVal([]cty.Value{ab("3", "z"), null(oab)})},
	{"ll", cty.ListVal([]cty.Value{cty.ListVal([]cty.Value{num("1"), num("2")}), cty.ListVal([]cty.Value{num("3")})})},
	{"lt", cty.ListVal([]cty.Value{tup(num("1"), str("p")), tup(num("2"), str("q"))})},
	{"se", cty.SetValEmpty(cty.String)}, {"ss", cty.SetVal([]cty.Value{str("b"), str("a")})}, {"so", cty.SetVal([]cty.Value{ab("3", "z"), ab("1", "y")})},
	{"me", cty.MapValEmpty(cty.Number)}, {"mn", cty.MapVal(map[string]cty.Value{"b": num("2"), "a": num("1"), "0": num("5")})},
	{"mo", cty.MapVal(map[string]cty.Value{"b": ab("3", "z"), "a": ab("1", "y")})},
	{"oe", cty.EmptyObjectVal}, {"oo", obj("a", num("1"), "b", str("x"))}, {"on", obj("a", ab("1", "y"), "b", tup(num("7"), str("r")), "c", null(cty.String))},
	{"od", obj("z", num("1"), "y", num("2"), "x", num("3"), "0", str("zero"), "a b", cty.True)},
	{"lm", cty.ListVal([]cty.Value{cty.MapVal(map[string]cty.Value{"a": num("1")}), cty.MapVal(map[string]cty.Value{"a": num("2"), "b": num("3")})})},
	{"lob", cty.ListVal([]cty.Value{obj("a", cty.ListVal([]cty.Value{num("1")}), "b", str("u")), obj("a", cty.ListVal([]cty.Value{num("2"), num("3")}), "b", str("v"))})},
}

// Functions are part of the environment so that they can be used in keys.
var collEnv = &ref.Env{Vars: envOf(collVals).Vars, Funcs: map[string]*ref.Fn{
	"id": {Params: []ref.Param{{Type: cty.DynamicPseudoType, AllowNull: true}}, Impl: func(a []cty.Value) (cty.Value, bool) { return a[0], true }},
}}

var collCtx = toCtx(collEnv, nil)

var keyNodes = []*ref.Node{
	ref.Num("0"), ref.Num("1"), ref.Num("2"), ref.Num("3"), ref.Num("0.5"), ref.Un("-", ref.Num("1")), ref.Num("1e0"), ref.Num("99999999999999999999"),
	ref.Str("a"), ref.Str("b"), ref.Str("0"), ref.Str("1"), ref.Str("zz"), ref.Str(""), ref.Str("a b"), ref.Str(" a"), ref.Str("a "), ref.Str("A"), ref.Str("1 "), ref.Str("01"), ref.Str("1.0"), ref.Bool(true), ref.Null(), ref.Var("zs"),
	ref.Tuple(), ref.Var("n"), ref.Var("s"), ref.Bin("+", ref.Num("0"), ref.Num("1")), ref.Tmpl(ref.Lit("a")), ref.Tmpl(ref.Interp(ref.Num("1"))), ref.Tmpl(ref.Lit("a"), ref.Interp(ref.Str(""))), ref.Tmpl(ref.Interp(ref.Str("")), ref.Lit("b")), ref.Var("undefined"), ref.Bin("/", ref.Num("1"), ref.Num("0")),
}

// stepForms are the ways of going one step into a value; x is the operand.
var stepForms = []func(x *ref.Node) *ref.Node{
	func(x *ref.Node) *ref.Node { return ref.Attr(x, "a") },
	func(x *ref.Node) *ref.Node { return ref.Attr(x, "b") },
	func(x *ref.Node) *ref.Node { return ref.LIdx(x, "0") },
	func(x *ref.Node) *ref.Node { return ref.LIdx(x, "1") },
	func(x *ref.Node) *ref.Node { return ref.Idx(x, ref.Num("0")) },
	func(x *ref.Node) *ref.Node { return ref.Idx(x, ref.Str("a")) },
	func(x *ref.Node) *ref.Node { return ref.Idx(x, ref.Paren(ref.Var("n"))) },
}

// splatEach lists what may follow a splat marker; full splats take any step.
func splatEach(full bool, depth int) []*ref.Node {
	level := []*ref.Node{ref.Item()}
	all := level
	for i := 0; i < depth; i++ {
		var next []*ref.Node
		for _, x := range level {
			for k, f := range stepForms {
				if !full && k > 3 {
					continue
				}
				if x.K == "lidx" && (k == 2 || k == 3) {
					continue // x.0.1 is not in the grammar
				}
				next = append(next, f(x))
			}
			if full {
				next = append(next, ref.FSplat(x, ref.Item()), ref.FSplat(x, ref.Attr(ref.Item(), "a")), ref.ASplat(x, ref.Attr(ref.Item(), "a")))
			}
		}
		all = append(all[:len(all):len(all)], next...)
		// a nested splat takes all further steps itself
		level = nil
		for _, x := range next {
			if x.K != "fsplat" && x.K != "asplat" {
				level = append(level, x)
			}
		}
	}
	return all
}

// chainCase is a sequence of steps, after a splat or not.
type chainCase struct {
	Kind  string
	Steps []int
}

func runChain(r *fw.Rec, c chainCase) {
	build := func(tag string) cty.Value {
		v := str(tag + "leaf")
		for i := len(c.Steps) - 1; i >= 0; i-- {
			other := str(fmt.Sprint(tag, "other", i))
			switch c.Steps[i] {
			case 0, 5:
				v = obj("a", v, "b", other)
			case 1:
				v = obj("a", other, "b", v)
			case 2, 4:
				v = tup(v, other)
			case 3:
				v = tup(other, v)
			}
		}
		return v
	}
	vals := map[string]cty.Value{"x": build("x"), "list": cty.ListVal([]cty.Value{build("p"), build("q")}), "tup": tup(build("p"), build("q"), build("r"))}
	n := ref.Var("x")
	srcs := []string{"x", "list", "tup"}
	if c.Kind == "" {
		srcs = srcs[:1]
	}
	for _, src := range srcs {
		n = ref.Var(src)
		if c.Kind != "" {
			n = ref.Item()
		}
		for _, k := range c.Steps {
			n = stepForms[k](n)
		}
		switch c.Kind {
		case "asplat":
			n = ref.ASplat(ref.Var(src), n)
		case "fsplat":
			n = ref.FSplat(ref.Var(src), n)
		}
		env := &ref.Env{Vars: vals}
		text := n.Print(ref.Spaced, false)
		r.State(text)
		checkEval(r, text, n, env, toCtx(env, nil))
	}
	r.Trace()
}

func init() {
	run := func(r *fw.Rec, c exprCase) {
		src := c.T.Print(ref.Spaced, false)
		r.State(src)
		checkEval(r, src, c.T, collEnv, collCtx)
		r.Trace()
	}
	srcs := varNodes(collVals)
	lits := []*ref.Node{
		ref.Tuple(), ref.Tuple(ref.Num("1"), ref.Str("a")), ref.Obj(ref.Key("a"), ref.Num("1"), ref.Key("b"), ref.Str("q")), ref.Obj(),
		ref.Str("lit"), ref.Null(), ref.Tuple(ref.Obj(ref.Key("a"), ref.Num("5"))), ref.Var("undefined"), ref.Obj(ref.Str("0"), ref.Num("1")),
		ref.Tuple(ref.Tuple(ref.Num("1")), ref.Null()),
	}
	srcs = append(srcs, lits...)
	fw.Register(&fw.Check{
		ID: "C05",
		Assumptions: []string{
			"set elements are visited in the order of the value library", "duplicate keys of an object constructor are not judged",
			"the condition of a for expression over an empty collection may be checked in advance", "a splat over a list whose results have different types is not judged",
			"conversion is that of the value library"},
		Suites: []fw.Suite{
			fw.S("index", "every source of 46 with every key of 28, every attribute and legacy index, and every two such steps",
				func(t fw.Tier, yield func(exprCase)) {
					for _, s := range srcs {
						var ones []*ref.Node
						for _, k := range keyNodes {
							ones = append(ones, ref.Idx(s, k))
						}
						for _, a := range []string{"a", "b", "zz"} {
							ones = append(ones, ref.Attr(s, a))
						}
						for _, a := range []string{"0", "1", "7"} {
							ones = append(ones, ref.LIdx(s, a))
						}
						for _, x := range ones {
							yield(exprCase{x})
							for i, f := range stepForms {
								if x.K == "lidx" && (i == 2 || i == 3) {
									continue
								}
								yield(exprCase{f(x)})
								if t == fw.Thorough {
									for _, k := range keyNodes {
										yield(exprCase{ref.Idx(f(x), k)})
									}
								}
							}
						}
					}
				}, run),
			fw.S("splat", "every source with attribute-only and full splats followed by up to 2 steps (thorough 3), and an index after them",
				func(t fw.Tier, yield func(exprCase)) {
					d := fw.Pick(t, 2, 3)
					for _, s := range srcs {
						for _, e := range splatEach(false, d) {
							x := ref.ASplat(s, e)
							yield(exprCase{x})
							yield(exprCase{ref.Idx(x, ref.Num("0"))})
							yield(exprCase{ref.Idx(x, ref.Str("a"))})
							yield(exprCase{ref.Attr(x, "a")})
							yield(exprCase{ref.FSplat(x, ref.Attr(ref.Item(), "a"))})
						}
						for _, e := range splatEach(true, d) {
							x := ref.FSplat(s, e)
							yield(exprCase{x})
							yield(exprCase{ref.Idx(x, ref.Num("0"))})
							yield(exprCase{ref.Attr(x, "a")})
						}
					}
				}, run),
			fw.S("chains", "attribute-only and full splats followed by 1 to 4 steps (thorough 6) out of 6, over values in which all steps exist, and such chains without a splat",
				func(t fw.Tier, yield func(chainCase)) {
					for _, kind := range []string{"", "asplat", "fsplat"} {
						eachSeq(6, 1, fw.Pick(t, 4, 6), func(idx []int) {
							for i, k := range idx {
								if kind == "asplat" && k > 3 || i > 0 && (k == 2 || k == 3) && (idx[i-1] == 2 || idx[i-1] == 3) {
									return
								}
							}
							yield(chainCase{kind, append([]int{}, idx...)})
						})
					}
				}, runChain),
			fw.S("for", "every source with every combination of key and value variables, value, key, condition and grouping out of small sets",
				func(t fw.Tier, yield func(exprCase)) {
					k, v := ref.Var("k"), ref.Var("v")
					vals := []*ref.Node{v, k, ref.Tuple(k, v), ref.Attr(v, "a"), ref.Num("1"), ref.Var("s"), ref.Idx(v, ref.Num("0")), ref.Null(),
						ref.Obj(ref.Paren(ref.Tmpl(ref.Lit("x"), ref.Interp(k))), v), ref.ForT("", "k", ref.Tuple(v, k), ref.Tuple(k, v), nil)}
					conds := []*ref.Node{nil, ref.Bool(true), ref.Bool(false), ref.Bin("==", v, ref.Str("a")), ref.Bin("!=", k, ref.Num("1")), ref.Null(), ref.Str("true"), ref.Str("x"), ref.Bin("!=", ref.Attr(v, "a"), ref.Num("1")), ref.Var("undefined")}
					keys := []*ref.Node{v, k, ref.Str("c"), ref.Tmpl(ref.Interp(k)), ref.Attr(v, "b"), ref.Tmpl(ref.Lit("p"), ref.Interp(k)), ref.Null(), ref.Tuple(), ref.Bin("==", k, ref.Num("0"))}
					for _, s := range srcs {
						u := ref.Var("_")
						yield(exprCase{ref.ForT("", "_", s, u, nil)})
						yield(exprCase{ref.ForT("k", "_", s, ref.Tuple(k, u), ref.Bin("!=", u, ref.Num("1")))})
						yield(exprCase{ref.ForT("_", "v", s, ref.Tuple(u, v), ref.Bin("!=", u, ref.Num("1")))})
						yield(exprCase{ref.ForO("_", "v", s, u, v, false, nil)})
						yield(exprCase{ref.ForO("k", "_", s, k, u, true, nil)})
						for _, kn := range []string{"", "k"} {
							for _, c := range conds {
								for _, val := range vals {
									yield(exprCase{ref.ForT(kn, "v", s, val, c)})
									for i, key := range keys {
										if t == fw.Quick && kn == "" && i > 3 {
											continue
										}
										yield(exprCase{ref.ForO(kn, "v", s, key, val, false, c)})
										yield(exprCase{ref.ForO(kn, "v", s, key, val, true, c)})
									}
								}
							}
						}
					}
				}, run),
			fw.S("conditions", "for expressions over tuples and objects of up to 3 (thorough 4) elements out of 8, the condition being the element, its negation, a part of it or its key",
				func(t fw.Tier, yield func(exprCase)) {
					k, v := ref.Var("k"), ref.Var("v")
					elems := []*ref.Node{ref.Bool(true), ref.Bool(false), ref.Null(), ref.Str("true"), ref.Str("false"), ref.Str("x"), ref.Num("1"), ref.Tuple(ref.Bool(true))}
					eachSeq(len(elems), 1, fw.Pick(t, 3, 4), func(ix []int) {
						var tup, ob []*ref.Node
						for i, e := range ix {
							tup = append(tup, elems[e])
							ob = append(ob, ref.Key(fmt.Sprintf("k%d", i)), elems[e])
						}
						for _, s := range []*ref.Node{ref.Tuple(tup...), ref.Obj(ob...)} {
							for _, c := range []*ref.Node{v, ref.Un("!", v), ref.Idx(v, ref.Num("0")), k, ref.Bin("||", v, ref.Bool(true))} {
								yield(exprCase{ref.ForT("k", "v", s, ref.Tuple(k, v), c)})
								yield(exprCase{ref.ForO("k", "v", s, k, v, false, c)})
								yield(exprCase{ref.ForO("k", "v", s, ref.Str("g"), k, true, c)})
							}
						}
					})
				}, run),
			fw.S("constructors", "tuples of up to 3 elements out of 9, objects of up to 2 items with every key form of 23",
				func(t fw.Tier, yield func(exprCase)) {
					els := []*ref.Node{ref.Num("1"), ref.Str("a"), ref.Null(), ref.Var("tn"), ref.Var("undefined"), ref.Tuple(), ref.Obj(), ref.Var("ls"), ref.Attr(ref.Var("oo"), "b")}
					eachSeq(len(els), 0, fw.Pick(t, 3, 5), func(i []int) {
						var x []*ref.Node
						for _, k := range i {
							x = append(x, els[k])
						}
						yield(exprCase{ref.Tuple(x...)})
						if len(x) > 0 {
							n := ref.Tuple(x...)
							n.B = true
							yield(exprCase{n})
						}
					})
					keys := []*ref.Node{ref.Key("a"), ref.Key("s"), ref.Key("true"), ref.Key("null"), ref.Key("b-c"), ref.Str("x y"), ref.Str(""), ref.Num("1"), ref.Num("1.50"), ref.Paren(ref.Var("s")), ref.Paren(ref.Attr(ref.Var("oo"), "b")),
						ref.Attr(ref.Var("oo"), "b"), ref.Attr(ref.Attr(ref.Var("oo"), "a"), "b"), ref.Paren(ref.Null()), ref.Tmpl(ref.Lit("t"), ref.Interp(ref.Var("n"))), ref.Paren(ref.Var("tn")), ref.Paren(ref.Var("zs")), ref.Paren(ref.Bin("+", ref.Num("1"), ref.Num("1"))), ref.Paren(ref.Var("bo")), ref.Paren(ref.Var("undefined")), ref.Call("id", ref.Str("c")), ref.Idx(ref.Var("tn"), ref.Num("1")), ref.Idx(ref.Var("tn"), ref.Paren(ref.Var("n")))}
					for _, k1 := range keys {
						for _, v1 := range els {
							yield(exprCase{ref.Obj(k1, v1)})
							c := ref.Obj(k1, v1)
							c.N[0] = ":"
							if k1.K != "cond" {
								yield(exprCase{c})
							}
							for _, k2 := range keys {
								for _, v2 := range els[:fw.Pick(t, 3, len(els))] {
									yield(exprCase{ref.Obj(k1, v1, k2, v2)})
									n := ref.Obj(k1, v1, k2, v2)
									n.B = true
									n.N[1] = ":"
									yield(exprCase{n})
								}
							}
						}
					}
				}, run),
			fw.S("nesting", "for, splat and index nested in each other in every combination of 3 levels over 8 sources",
				func(t fw.Tier, yield func(exprCase)) {
					shapes := []func(x *ref.Node) *ref.Node{
						func(x *ref.Node) *ref.Node { return ref.ForT("", "v", x, ref.Var("v"), nil) },
						func(x *ref.Node) *ref.Node { return ref.ForT("k", "v", x, ref.Var("k"), nil) },
						func(x *ref.Node) *ref.Node { return ref.ForT("k", "v", x, ref.Attr(ref.Var("v"), "a"), nil) },
						func(x *ref.Node) *ref.Node { return ref.ForO("k", "v", x, ref.Var("k"), ref.Var("v"), false, nil) },
						func(x *ref.Node) *ref.Node {
							return ref.ForO("k", "v", x, ref.Tmpl(ref.Lit("g")), ref.Var("v"), true, nil)
						},
						func(x *ref.Node) *ref.Node {
							return ref.ForT("", "v", x, ref.Var("v"), ref.Bin("!=", ref.Var("v"), ref.Num("1")))
						},
						func(x *ref.Node) *ref.Node { return ref.ASplat(x, ref.Attr(ref.Item(), "a")) },
						func(x *ref.Node) *ref.Node { return ref.FSplat(x, ref.Item()) },
						func(x *ref.Node) *ref.Node { return ref.FSplat(x, ref.FSplat(ref.Attr(ref.Item(), "a"), ref.Item())) },
						func(x *ref.Node) *ref.Node { return ref.FSplat(x, ref.Idx(ref.Item(), ref.Num("0"))) },
						func(x *ref.Node) *ref.Node { return ref.Idx(x, ref.Num("0")) },
						func(x *ref.Node) *ref.Node { return ref.Idx(x, ref.Str("a")) },
						func(x *ref.Node) *ref.Node { return ref.Tuple(x, ref.Num("1")) },
						func(x *ref.Node) *ref.Node { return ref.Obj(ref.Key("a"), x, ref.Key("b"), ref.Num("2")) },
						func(x *ref.Node) *ref.Node {
							return ref.ForT("", "o", x, ref.ForT("", "v", ref.Var("o"), ref.Tuple(ref.Var("o"), ref.Var("v")), nil), nil)
						},
						func(x *ref.Node) *ref.Node {
							return ref.ForT("", "v", x, ref.FSplat(ref.Var("v"), ref.Attr(ref.Item(), "a")), nil)
						},
						func(x *ref.Node) *ref.Node {
							return ref.ForT("", "v", ref.Tuple(ref.Num("0"), ref.Num("1")), ref.FSplat(x, ref.Idx(ref.Item(), ref.Var("v"))), nil)
						},
						func(x *ref.Node) *ref.Node { return ref.Cond(ref.Bool(true), x, ref.Null()) },
						func(x *ref.Node) *ref.Node { return ref.CallX("id", ref.Tuple(x)) },
					}
					depth := fw.Pick(t, 3, 4)
					ss := srcs
					if depth == 4 {
						ss = nil
						for _, n := range []string{"tn", "tt", "to", "lo", "ll", "mo", "on", "lob"} {
							ss = append(ss, ref.Var(n))
						}
					}
					for _, s := range ss {
						var rec func(x *ref.Node, d int)
						rec = func(x *ref.Node, d int) {
							yield(exprCase{x})
							if d == depth {
								return
							}
							for _, f := range shapes {
								rec(f(x), d+1)
							}
						}
						rec(s, 0)
					}
				}, run),
		},
	})
}
