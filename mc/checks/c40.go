package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	ctyjson "github.com/zclconf/go-cty/cty/json"
	"verif/mc/fw"
)

// The decoder that the conformance runner runs is a script that answers as the
// case wants.
func fakeDecoder(answers map[string][2]string, refs map[string]string) string {
	q := func(s string) string { return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'" }
	s := "#!/bin/sh\nfor f; do :; done\ncase \"$*\" in\n*--var-refs*)\ncase \"$f\" in\n"
	for f, out := range refs {
		s += "*/" + f + ") printf %s " + q(out) + "; exit 0;;\n"
	}
	s += "esac; exit 3;;\nesac\ncase \"$*\" in\n*--with-type*) ;;\n*) exit 3;;\nesac\ncase \"$f\" in\n"
	for f, a := range answers {
		if a[1] != "" {
			s += "*/" + f + ") printf %s " + q(a[1]) + " >&2; exit 2;;\n"
		} else {
			s += "*/" + f + ") printf %s " + q(a[0]) + "; exit 0;;\n"
		}
	}
	return s + "esac\nexit 3\n"
}

// runSuite runs the conformance runner on the files and the fake decoder.
func runSuite(files map[string]string, decoder string) (int, string, string) {
	dir := cmdFiles(nil)
	defer os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, "d"), 0755)
	for n, s := range files {
		p := filepath.Join(dir, "d", n)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte(s), 0644)
	}
	os.WriteFile(filepath.Join(dir, "dec"), []byte(decoder), 0755)
	return cmdRun("hclspecsuite", dir, "", "d", "./dec")
}

var (
	qTypes   = []string{"", "string", "number", "list(string)", "any", "list(number", "nope", "object({a=number})"}
	qResults = []struct {
		src string
		v   cty.Value
	}{{"", cty.NilVal}, {`"a"`, str("a")}, {`"2"`, str("2")}, {"2", num("2")}, {`["a"]`, tup(str("a"))}, {"null", cty.NullVal(cty.DynamicPseudoType)}, {"{a = 1}", obj("a", num("1"))}, {"v", cty.DynamicVal}}
	qVals = []cty.Value{str("a"), str("2"), num("2"), tup(str("a")), cty.ListVal([]cty.Value{str("a")}), cty.NullVal(cty.String), cty.NullVal(cty.DynamicPseudoType), obj("a", num("1")), obj("a", num("2"))}
	qTys  = map[string]cty.Type{"": cty.DynamicPseudoType, "string": cty.String, "number": cty.Number, "list(string)": cty.List(cty.String), "any": cty.DynamicPseudoType, "object({a=number})": cty.Object(map[string]cty.Type{"a": cty.Number})}
)

type qRange [6]int

var qRanges = []qRange{{1, 1, 0, 1, 2, 1}, {1, 1, 0, 2, 2, 1}, {1, 3, 2, 1, 4, 3}}

func (g qRange) hcl() string {
	return fmt.Sprintf("from {\nline = %d\ncolumn = %d\nbyte = %d\n}\nto {\nline = %d\ncolumn = %d\nbyte = %d\n}\n", g[0], g[1], g[2], g[3], g[4], g[5])
}

func (g qRange) json(file string) string {
	return fmt.Sprintf(`{"filename":"%s","start":{"line":%d,"column":%d,"byte":%d},"end":{"line":%d,"column":%d,"byte":%d}}`, file, g[0], g[1], g[2], g[3], g[4], g[5])
}

// qDiags are the messages of the decoder; the first ones can be expected.
var qDiags = []struct {
	sev  string
	rng  int // -1: none
	file string
}{{"error", 0, "d/t.hcl"}, {"error", 1, "d/t.hcl"}, {"warning", 0, "d/t.hcl"}, {"error", 2, "d/t.hcl"}, {"error", 0, "other"}, {"error", -1, ""}, {"fatal", 0, "d/t.hcl"}, {"warning", 1, "d/t.hcl"}}

// qRefs are references; each can be at two places.
var qRefs = []struct{ src, steps string }{
	{"v", `{"kind":"root","name":"v","range":%[1]s}`},
	{"w", `{"kind":"root","name":"w","range":%[1]s}`},
	{"v.a", `{"kind":"root","name":"v","range":%[1]s},{"kind":"attr","name":"a","range":%[1]s}`},
	{"v.b", `{"kind":"root","name":"v","range":%[1]s},{"kind":"attr","name":"b","range":%[1]s}`},
	{"v[0]", `{"kind":"root","name":"v","range":%[1]s},{"kind":"index","key":0,"range":%[1]s}`},
	{"v[\"a\"]", `{"kind":"root","name":"v","range":%[1]s},{"kind":"index","key":"a","range":%[1]s}`},
}

type qCase struct {
	Type, Result, Val int
	Expect, Diags     []int
	Refs, GotRefs     []int // reference*2 + place; GotRefs also 100+: wrong file
	CheckRefs         bool
}

func judgeSuite(r *fw.Rec, what string, pass bool, files map[string]string, decoder string) {
	r.Op(1)
	r.Trace()
	st, so, se := runSuite(files, decoder)
	if (st == 0) != pass || st != 0 && st != 2 || (se == "") != pass || strings.Contains(se, "goroutine ") {
		r.Failf(what, "test files %q, decoder %q: status %d, output %q, messages %q, expected to pass: %v", files, decoder, st, so, se, pass)
	}
}

func (c qCase) run(r *fw.Rec) {
	pass := true
	t := ""
	ty, ok := qTys[qTypes[c.Type]]
	if qTypes[c.Type] != "" {
		t += "result_type = " + qTypes[c.Type] + "\n"
	}
	pass = pass && ok
	res := qResults[c.Result]
	if res.src != "" {
		t += "result = " + res.src + "\n"
	}
	answer := [2]string{}
	v := qVals[c.Val]
	b, err := ctyjson.Marshal(v, cty.DynamicPseudoType)
	if err != nil {
		panic(err)
	}
	answer[0] = string(b)
	if len(c.Diags) > 0 {
		var parts []string
		for _, i := range c.Diags {
			d := qDiags[i]
			s := fmt.Sprintf(`{"severity":"%s","summary":"S%d"`, d.sev, i)
			if d.rng >= 0 {
				s += `,"subject":` + qRanges[d.rng].json(d.file)
			}
			parts = append(parts, s+"}")
		}
		answer[1] = `{"diagnostics":[` + strings.Join(parts, ",") + "]}"
	}
	if len(c.Expect) > 0 {
		t += "diagnostics {\n"
		for _, i := range c.Expect {
			t += qDiags[i].sev + " {\n" + qRanges[qDiags[i].rng].hcl() + "}\n"
		}
		t += "}\n"
		pass = pass && res.src == ""
		for _, i := range c.Expect {
			pass = pass && hasInt(c.Diags, i)
		}
		for _, i := range c.Diags {
			pass = pass && hasInt(c.Expect, i)
		}
	} else {
		pass = pass && len(c.Diags) == 0
	}
	if pass && len(c.Expect) == 0 {
		pass = len(v.Type().TestConformance(ty)) == 0
		if res.src == "v" {
			pass = false
		} else if res.src != "" {
			w, err := convert.Convert(res.v, ty)
			pass = pass && err == nil && v.RawEquals(w)
		}
	}
	refs := map[string]string{}
	if c.CheckRefs {
		t += "traversals {\n"
		for _, x := range c.Refs {
			t += "expect {\nref = " + qRefs[x/2].src + "\n" + qRanges[x%2].hcl() + "}\n"
		}
		t += "}\n"
		var parts []string
		for _, x := range c.GotRefs {
			file := "d/t.hcl"
			if x >= 100 {
				file, x = "other", x-100
				pass = false
			}
			parts = append(parts, `{"root_name":"v","steps":[`+fmt.Sprintf(qRefs[x/2].steps, qRanges[x%2].json(file))+"]}")
			pass = pass && hasInt(c.Refs, x)
		}
		for _, x := range c.Refs {
			pass = pass && hasInt(c.GotRefs, x)
		}
		refs["t.hcl"] = "[" + strings.Join(parts, ",") + "]"
	}
	r.State(t, answer[0], answer[1], refs["t.hcl"])
	judgeSuite(r, "test", pass, map[string]string{"t.t": t, "t.hcl": "a = 1\nb = 2\n", "t.hcldec": "x"}, fakeDecoder(map[string][2]string{"t.hcl": answer}, refs))
}

func hasInt(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// qTests are tests in a directory: whether each meets its expectations.
var qTests = []struct {
	files map[string]string
	pass  bool
}{
	{map[string]string{"%s.t": "result = 1\n", "%s.hcldec": "x", "%s.hcl": "x"}, true},
	{map[string]string{"%s.t": "result = 2\n", "%s.hcldec": "x", "%s.hcl": "x"}, false},
	{map[string]string{"%s.t": "result = 1\n", "%s.hcldec": "x", "%s.hcl.json": "{}"}, true},
	{map[string]string{"%s.t": "result = 2\n", "%s.hcldec": "x", "%s.hcl.json": "{}"}, false},
	{map[string]string{"%s.t": "result = 1\n", "%s.hcldec": "x", "%s.hcl": "x", "%s.hcl.json": "{}"}, true},
	{map[string]string{"%s.t": "result = 1\n", "%s.hcl": "x"}, false},
	{map[string]string{"%s.t": "result = 1\n", "%s.hcldec": "x", "%s.hcl": "bad"}, false},
	{map[string]string{"%s.t": "result = \n", "%s.hcldec": "x", "%s.hcl": "x"}, false},
	{map[string]string{"%s.t": "diagnostics {\n}\n", "%s.hcldec": "x", "%s.hcl": "x"}, false},
	{map[string]string{"%s.t": "traversals {\n}\ntraversals {\n}\n", "%s.hcldec": "x", "%s.hcl": "x"}, false},
	{map[string]string{"%s.t": "nope = 1\n", "%s.hcldec": "x", "%s.hcl": "x"}, false},
	{map[string]string{"%s.hcl": "bad", "%s.tt": "nope = 1"}, true},
}

var qPlaces = []string{"a", "b", "sub/a", "sub/deep/x", ".hid/a", ".h", "tus/a"}

func init() {
	fw.Register(&fw.Check{
		ID: "C40",
		Assumptions: []string{
			"the decoder that the runner starts is a script with fixed answers; answers with a bad status but no error are left out, and so is one reference at two places",
			"type conformance and conversion are those of the go-cty library",
		},
		Suites: []fw.Suite{
			fw.S("results", "all test files of 8 result types and 8 results, with 9 answers of the decoder", func(t fw.Tier, yield func(qCase)) {
				eachChoice([]int{len(qTypes), len(qResults), len(qVals)}, func(ix []int) { yield(qCase{Type: ix[0], Result: ix[1], Val: ix[2]}) })
			}, func(r *fw.Rec, c qCase) { c.run(r) }),
			fw.S("messages", "all sequences of at most two (thorough: three) expected messages out of 3, and of at most two (thorough: three) messages of the decoder out of 8, with and without an expected result", func(t fw.Tier, yield func(qCase)) {
				eachSeq(3, 0, fw.Pick(t, 2, 3), func(ex []int) {
					ex = append([]int{}, ex...)
					eachSeq(len(qDiags), 0, fw.Pick(t, 2, 3), func(got []int) {
						errs := 0
						for _, g := range got {
							if qDiags[g].sev != "warning" {
								errs++
							}
						}
						if len(got) > 0 && errs == 0 {
							return
						}
						yield(qCase{Expect: ex, Diags: append([]int{}, got...)})
						yield(qCase{Expect: ex, Diags: append([]int{}, got...), Result: 1})
					})
				})
			}, func(r *fw.Rec, c qCase) { c.run(r) }),
			fw.S("references", "all sequences of at most two expected references out of 6 at two places, and of at most two references of the decoder, with the right and the wrong file", func(t fw.Tier, yield func(qCase)) {
				n := len(qRefs) * 2
				fits := func(xs []int) bool { return len(xs) < 2 || xs[0]/2 != xs[1]/2 }
				eachSeq(n, 0, 2, func(ex []int) {
					if !fits(ex) {
						return
					}
					ex = append([]int{}, ex...)
					eachSeq(n, 0, 2, func(got []int) {
						if !fits(got) && t == fw.Quick && got[0] != got[1] {
							return
						}
						if fits(got) && t == fw.Quick && len(got)+len(ex) == 4 && sumInts(got)+3*ex[0]+5*ex[1] != 7 && fmt.Sprint(got) != fmt.Sprint(ex) && (got[0]+got[1]*3+ex[0]*7+ex[1]*2)%5 != 0 {
							return
						}
						got = append([]int{}, got...)
						yield(qCase{Refs: ex, GotRefs: got, CheckRefs: true})
						if len(got) > 0 && len(ex) < 2 {
							got = append([]int{}, got...)
							got[0] += 100
							yield(qCase{Refs: ex, GotRefs: got, CheckRefs: true})
						}
					})
				})
			}, func(r *fw.Rec, c qCase) { c.run(r) }),
			fw.S("directories", "all pairs of 12 tests in 7 places, two of them hidden", func(t fw.Tier, yield func([][2]int)) {
				eachSeq(len(qTests)*len(qPlaces), 0, 2, func(ix []int) {
					var c [][2]int
					seen := map[int]bool{}
					for _, x := range ix {
						if seen[x%len(qPlaces)] {
							return
						}
						seen[x%len(qPlaces)] = true
						c = append(c, [2]int{x / len(qPlaces), x % len(qPlaces)})
					}
					if len(c) == 2 && c[0][1] > c[1][1] {
						return // the order does not matter
					}
					yield(c)
				})
			}, func(r *fw.Rec, c [][2]int) {
				files := map[string]string{}
				pass := true
				var names []string
				for _, x := range c {
					place := qPlaces[x[1]]
					for n, s := range qTests[x[0]].files {
						files[fmt.Sprintf(n, place)] = s
					}
					if place[0] != '.' {
						pass = pass && qTests[x[0]].pass
						if _, ok := qTests[x[0]].files["%s.t"]; ok {
							names = append(names, "- "+place+"\n")
						}
					}
				}
				r.State(fmt.Sprint(files))
				r.Op(1)
				r.Trace()
				dec := "#!/bin/sh\nfor f; do :; done\nread l < \"$f\"\ncase \"$l\" in bad) printf %s '{\"diagnostics\":[{\"severity\":\"error\",\"summary\":\"x\"}]}' >&2; exit 2;; esac\ncase \"$*\" in *--var-refs*) printf '[]';; *) printf '{\"type\":\"number\",\"value\":1}';; esac\n"
				st, so, se := runSuite(files, dec)
				if (st == 0) != pass || st != 0 && st != 2 {
					r.Failf("status", "test files %q: status %d, output %q, messages %q, expected to pass: %v", files, st, so, se, pass)
				}
				for _, n := range names {
					if !strings.Contains(so, n) {
						r.Failf("names", "test files %q: output %q lacks %q", files, so, n)
					}
				}
				if strings.Contains(so, ".h") {
					r.Failf("hidden", "test files %q: output %q", files, so)
				}
			}),
		},
	})
}
