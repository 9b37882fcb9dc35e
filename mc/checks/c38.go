package checks

import (
	"bytes"
	gojson "encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	ctyjson "github.com/zclconf/go-cty/cty/json"
	"verif/mc/fw"
)

var kTypes = map[string]string{"string": "string", "number": "number", "bool": "bool", "any": "any", "list": "list(string)", "map": "map(string)", "set": "set(number)", "obj": "object({k=number})", "anys": "list(any)"}
var kLits = map[string]string{"d": `"d"`, "n": "7", "nulla": "null", "fn": `upper("x${1 + 1}")`, "tup": "[1, {a = true}]"}

// refCase is an expression whose references are listed, with or without values.
type refCase struct {
	Src  string
	Vars bool
}

func init() {
	sLits["fn"] = str("X2")
	sLits["tup"] = tup(num("1"), obj("a", cty.True))
	x := sExprs["[nested, upper(\"o\")]"]
	x.f = func(v cty.Value) (cty.Value, bool) { return tup(v, str("O")), true }
	sExprs["[nested, upper(\"o\")]"] = x
	y := sExprs["nested == null"]
	y.f = sExprs["it == null"].f
	if y.f == nil {
		y.f = func(v cty.Value) (cty.Value, bool) { return cty.BoolVal(v.IsNull()), true }
	}
	sExprs["nested == null"] = y
}

// specText writes a specification as the command reads it. Inside an object
// it has a label, which also serves as the name if possible.
func (n *sNode) specText(label, indent string) (string, bool) {
	in := indent + "  "
	kind := map[string]string{"obj": "object", "tup": "array", "attr": "attr", "lit": "literal", "block": "block", "list": "block_list", "set": "block_set", "map": "block_map", "attrs": "block_attrs", "default": "default", "texpr": "transform"}[n.K]
	if kind == "" {
		return "", false
	}
	s := indent + kind
	if label != "" {
		s += " \"" + label + "\""
	}
	s += " {\n"
	switch n.K {
	case "attr":
		s += in + "name = \"" + n.Name + "\"\n"
		if n.Ty != "any" || n.Req {
			s += in + "type = " + kTypes[n.Ty] + "\n"
		} else {
			s += in + "type = null\n"
		}
	case "lit":
		if kLits[n.Name] == "" {
			return "", false
		}
		s += in + "value = " + kLits[n.Name] + "\n"
	case "block", "list", "set", "map":
		s += in + "block_type = \"" + n.Name + "\"\n"
	case "attrs":
		s += in + "block_type = \"" + n.Name + "\"\n" + in + "element_type = " + kTypes[n.Ty] + "\n"
	case "texpr":
		if !strings.Contains(n.Name, "nested") && n.Name != "nope" {
			return "", false
		}
		s += in + "result = " + n.Name + "\n"
	}
	if n.Req {
		s += in + "required = true\n"
	}
	if n.K == "list" || n.K == "set" {
		if n.Min != 0 {
			s += in + fmt.Sprintf("min_items = %d\n", n.Min)
		}
		if n.Max != 0 {
			s += in + fmt.Sprintf("max_items = %d\n", n.Max)
		}
	}
	if n.K == "map" {
		q := []string{}
		for _, l := range bLabelNames[:n.Labels] {
			q = append(q, "\""+l+"\"")
		}
		s += in + "labels = [" + strings.Join(q, ", ") + "]\n"
	}
	kids := n.X
	for n.K == "default" && kids[0].K == "default" {
		kids = append(append([]*sNode{}, kids[0].X...), kids[1:]...)
	}
	for i, x := range kids {
		l := ""
		if n.K == "obj" {
			l = fmt.Sprint("k", i)
		}
		t, ok := x.specText(l, in)
		if !ok {
			return "", false
		}
		s += t
	}
	return s + indent + "}\n", true
}

// kLeaves and kBlocks are the specifications tried.
var kLeaves = []*sNode{
	sAttr("a", "string", false), sAttr("a", "number", true), sAttr("a", "any", false), sAttr("a", "any", true), sAttr("a", "list", false), sAttr("a", "map", false), sAttr("a", "set", true), sAttr("a", "obj", false), sAttr("a", "anys", false), sAttr("b", "bool", false), sAttr("b", "string", true),
	sLit("d"), sLit("nulla"), sLit("fn"), sLit("tup"),
	sDef(sAttr("a", "string", false), sLit("d")), sDef(sAttr("a", "string", false), sAttr("b", "string", false)), sDef(sDef(sAttr("a", "string", false), sAttr("b", "string", false)), sLit("d")), {K: "default", X: []*sNode{sAttr("a", "number", false)}},
	sTE("[nested, upper(\"o\")]", sAttr("a", "string", false)), sTE("nested == null", sAttr("a", "number", false)), sTE("nope", sAttr("a", "any", false)),
	sObj(), sTup(),
}

func kSpecs(t fw.Tier, yield func(*sNode, int)) {
	out := func(n *sNode, max int) {
		if _, ok := n.specText("", ""); ok && !n.schema().bad {
			yield(n, max)
		}
	}
	for i, x := range kLeaves {
		out(x, 1)
		if x.K == "default" && len(x.X) == 1 {
			continue
		}
		for j, y := range kLeaves {
			if len(y.X) == 1 && y.K == "default" {
				continue
			}
			if t == fw.Thorough || (i+j)%3 == 0 {
				out(sObj(x, y), 1)
				out(sTup(y, x), 1)
			}
		}
	}
	var blocks []*sNode
	for _, x := range []*sNode{sAttr("a", "string", false), sAttr("a", "number", true), sAttr("a", "any", false), sObj(sAttr("a", "any", false), sAttr("b", "string", false)), sTup(sAttr("a", "number", false)), sLit("d"), sObj(), sDef(sAttr("a", "string", false), sLit("d")), sTE("[nested, upper(\"o\")]", sAttr("a", "string", false)), {K: "block", Name: "blk", X: []*sNode{sAttr("a", "number", false)}}, {K: "attrs", Name: "blk", Ty: "string"}} {
		blocks = append(blocks, sBlocks("blk", x)...)
	}
	for _, ty := range []string{"string", "number", "any"} {
		for _, req := range []bool{false, true} {
			blocks = append(blocks, &sNode{K: "attrs", Name: "blk", Ty: ty, Req: req})
		}
	}
	for i, b := range blocks {
		out(b, fw.Pick(t, 1, 2))
		if i%5 == 0 {
			out(b, 2)
		}
		if t == fw.Thorough || i%4 == 1 {
			out(sObj(b, sAttr("a", "number", false)), 1)
			out(sTup(b, &sNode{K: "list", Name: "other", X: []*sNode{sAttr("a", "any", false)}}), 1)
			out(sTE("nested == null", b), 1)
		}
		if t == fw.Thorough && i%3 == 0 {
			for _, deep := range sBlocks("blk", b) {
				out(deep, 1)
			}
		}
	}
}

// noUnknown tells whether items mention no unknown values.
func noUnknown(items []*bItem) bool {
	for _, it := range items {
		switch it.Val {
		case "", "1", "2", `"s"`, `"5"`, "true", `[1, "x"]`, "[2, 1, 2]", "{k = 1}", "{k = true, l = 2}", "null", "v", "nope", "[]", "[nope]", "300", "-1", "1.5", "[null]", "{}", `""`:
		default:
			return false
		}
		if !noUnknown(it.Body) {
			return false
		}
	}
	return true
}

// dropNulls removes null properties.
func dropNulls(v interface{}) interface{} {
	switch tv := v.(type) {
	case map[string]interface{}:
		ret := map[string]interface{}{}
		for k, e := range tv {
			if e != nil {
				ret[k] = dropNulls(e)
			}
		}
		return ret
	case []interface{}:
		ret := []interface{}{}
		for _, e := range tv {
			ret = append(ret, dropNulls(e))
		}
		return ret
	}
	return v
}

func jsonForm(v cty.Value, withType bool) interface{} {
	ty := v.Type()
	if withType {
		ty = cty.DynamicPseudoType
	}
	b, err := ctyjson.Marshal(v, ty)
	if err != nil {
		panic(err)
	}
	x, err := parseJSON(b)
	if err != nil {
		panic(err)
	}
	if withType && v.IsNull() {
		return x // the null is the value, not a property of it
	}
	return dropNulls(x)
}

type jsonNum string

// parseJSON keeps all the digits of numbers.
func parseJSON(b []byte) (interface{}, error) {
	dec := gojson.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var x interface{}
	err := dec.Decode(&x)
	if _, end := dec.Token(); err == nil && end != io.EOF {
		err = fmt.Errorf("more than one value")
	}
	var exact func(x interface{}) interface{}
	exact = func(x interface{}) interface{} {
		switch tv := x.(type) {
		case gojson.Number:
			r, ok := new(big.Rat).SetString(string(tv))
			if !ok {
				panic(string(tv))
			}
			return jsonNum(r.RatString())
		case map[string]interface{}:
			for k, e := range tv {
				tv[k] = exact(e)
			}
		case []interface{}:
			for i, e := range tv {
				tv[i] = exact(e)
			}
		}
		return x
	}
	return exact(x), err
}

// kFail judges a run that must fail.
func kFail(r *fw.Rec, desc string, status int, stdout, stderr string) {
	if status != 2 || stdout != "" || !strings.Contains(stderr, "Error: ") || strings.Contains(stderr, "goroutine ") {
		r.Failf("accepts", "%s: status %d, output %q, messages %.600q, though there are errors", desc, status, stdout, stderr)
	}
}

func kGood(r *fw.Rec, desc string, want interface{}, status int, stdout, stderr string) {
	got, err := parseJSON([]byte(stdout))
	if status != 0 || err != nil {
		r.Failf("rejects", "%s: status %d, output %q, messages %.600q", desc, status, stdout, stderr)
		return
	}
	if !reflect.DeepEqual(got, want) {
		w, _ := gojson.Marshal(want)
		r.Failf("output", "%s: output %q instead of %q", desc, stdout, w)
	}
}

// kWays are ways to give the items to the command.
var kWays = []string{"stdin", "file", "json", "typed", "out", "diags", "split", "splitjson"}

// decCase is a specification and a body, given in some ways.
type decCase struct {
	specCase
	Ways []int
}

func runDec(r *fw.Rec, c decCase) {
	items := c.items()
	text, _ := c.Spec.specText("", "")
	for _, way := range c.Ways {
		way := kWays[way]
		isJSON := way == "json" || way == "splitjson"
		if isJSON && !sLabelsFit(c.Spec, items) {
			continue
		}
		_, src, _ := sBody(items, isJSON)
		_, native, _ := sBody(items, false)
		files := map[string]string{"s.hcldec": text, "vars.hcl": "v = \"w\"\n"}
		args := []string{"--spec=s.hcldec", "--vars=vars.hcl"}
		stdin := ""
		switch way {
		case "stdin":
			stdin = native
		case "file", "diags":
			files["in.conf"] = native
			args = append(args, "in.conf")
		case "json":
			files["in.json"] = src
			args = append(args, "in.json")
		case "typed":
			files["in"] = native
			args = append(args, "--with-type", "in")
		case "out":
			files["in"] = native
			files["o"] = strings.Repeat("old ", 1000)
			args = append(args, "-o", "o", "in")
		case "split", "splitjson":
			_, one, _ := sBody(items[:len(items)/2], false)
			_, two, _ := sBody(items[len(items)/2:], isJSON)
			files["one"] = one
			args = append(args, "one")
			if isJSON {
				files["two.json"] = two
				args = append(args, "two.json")
			} else {
				files["two"] = two
				args = append(args, "two")
			}
		}
		if way == "diags" {
			args = append(args, "--diags=json")
		}
		want, d, ok := runModel(c.Spec, items, false, true, false)
		if !ok || len(d.errs) == 0 && !want.IsWhollyKnown() {
			r.Count("unjudged", 1) // such as a set of values of unlike types
			return
		}
		r.Op(1)
		r.State(way, text, native)
		dir := cmdFiles(files)
		status, stdout, stderr := cmdRun("hcldec", dir, stdin, args...)
		if way == "out" {
			if stdout != "" {
				r.Failf("stdout", "output %q besides the file", stdout)
			}
			b, _ := os.ReadFile(filepath.Join(dir, "o"))
			stdout = string(b)
			if len(d.errs) > 0 {
				stdout = "" // may be as it was
			}
		}
		os.RemoveAll(dir)
		desc := fmt.Sprintf("%s: specification\n%sinput\n%s", way, text, src)
		if len(d.errs) > 0 {
			if way == "diags" {
				checkJSONDiags(r, desc, stderr, "in.conf", len(native))
				stderr = "Error: "
			}
			kFail(r, desc, status, stdout, stderr)
		} else {
			w := jsonForm(want, way == "typed")
			if alt, _, ok := runModel(c.Spec, items, false, true, true); ok && way == "typed" && !alt.RawEquals(want) {
				continue // the known finding of C22
			}
			kGood(r, desc, w, status, stdout, stderr)
		}
		r.Trace()
	}
}

func checkJSONDiags(r *fw.Rec, desc, stderr, file string, n int) {
	var out struct {
		Diagnostics []struct {
			Severity, Summary string
			Subject           *struct {
				Filename   string
				Start, End struct{ Line, Column, Byte int }
			}
		}
	}
	if err := gojson.Unmarshal([]byte(stderr), &out); err != nil || len(out.Diagnostics) == 0 {
		r.Failf("diags", "%s: messages %q", desc, stderr)
		return
	}
	errs := 0
	for _, d := range out.Diagnostics {
		if d.Severity == "error" {
			errs++
		}
		if d.Summary == "" {
			r.Failf("diags-summary", "%s: messages %q", desc, stderr)
		}
		if s := d.Subject; s != nil && s.Filename == file && (s.Start.Byte > s.End.Byte || s.End.Byte > n || s.Start.Line < 1 || s.Start.Column < 1) {
			r.Failf("diags-range", "%s: messages %q", desc, stderr)
		}
	}
	if errs == 0 {
		r.Failf("diags-none", "%s: messages %q", desc, stderr)
	}
}

// kBadSpecs are pieces of specification files; sequences and nestings of them
// are mostly not valid.
var kPieces = []string{
	"object {\n%s}\n", "array {\n%s}\n", "attr {\n%s}\n", "attr \"k\" {\n%s}\n", "block {\n%s}\n", "block_list {\n  block_type = \"blk\"\n%s}\n", "block_set \"k\" {\n%s}\n", "block_map {\n  block_type = \"blk\"\n  labels = [\"l\"]\n%s}\n", "block_map {\n%s}\n", "block_attrs {\n%s}\n", "block_attrs \"blk\" {\n  element_type = string\n%s}\n", "default {\n%s}\n", "default \"k\" {\n%s}\n", "transform {\n%s}\n", "transform {\n  result = nested\n%s}\n", "literal {\n%s}\n", "variables {\n%s}\n", "function \"f\" {\n%s}\n",
	"name = \"a\"\n", "type = string\n", "type = list(string)\n", "type = nope\n", "type = 1\n", "type = list(1)\n", "type = object({a = tuple([string, any])})\n", "type = tuple([])\n", "type = object({})\n", "type = list(null)\n", "required = true\n", "required = \"x\"\n", "block_type = \"blk\"\n", "min_items = 1\n", "labels = []\n", "labels = \"x\"\n", "value = 1\n", "value = nope\n", "result = nested\n", "result = 1\n", "params = [a]\n", "element_type = string\n", "bad {\n}\n", "= 1\n",
}

// kArgs are the arguments of each kind of specification: good values, and bad
// ones after a nil.
type kArg struct {
	name string
	vals []string
	bad  int
}

var kKinds = []struct {
	name, named string // named is the argument that gives the name
	args        []kArg
	min, max    int // of the nested specifications
	inner       bool
}{
	{"object", "", nil, 0, 9, true},
	{"array", "", nil, 0, 9, false},
	{"attr", "name", []kArg{{"name", []string{`"a"`, "[]", "x"}, 1}, {"type", []string{"string", "list(any)", "object({a = map(bool)})", "tuple([string, number])", "null", "nope", "1", "list()", "list(string, string)", `"string"`, "object([string])"}, 5}, {"required", []string{"true", "false", `"x"`}, 2}}, 0, 0, false},
	{"literal", "", []kArg{{"value", []string{"1", `upper("x")`, "[null]", "nope", "nope()"}, 3}}, 0, 0, false},
	{"block", "block_type", []kArg{{"block_type", []string{`"a"`, "[]"}, 1}, {"required", []string{"true", "nope"}, 1}}, 1, 1, false},
	{"block_list", "block_type", []kArg{{"block_type", []string{`"a"`, "[]"}, 1}, {"min_items", []string{"0", "2", `"x"`}, 2}, {"max_items", []string{"3", "true"}, 1}}, 1, 1, false},
	{"block_set", "block_type", []kArg{{"block_type", []string{`"a"`, "[]"}, 1}, {"min_items", []string{"0", "2", `"x"`}, 2}, {"max_items", []string{"3", "true"}, 1}}, 1, 1, false},
	{"block_map", "block_type", []kArg{{"block_type", []string{`"a"`, "[]"}, 1}, {"labels", []string{`["l"]`, `["l", "m"]`, "[]", `"x"`, "null"}, 2}}, 1, 1, false},
	{"block_attrs", "block_type", []kArg{{"block_type", []string{`"a"`, "[]"}, 1}, {"element_type", []string{"string", "any", "nope", "1"}, 2}, {"required", []string{"true", "1"}, 1}}, 0, 0, false},
	{"default", "", nil, 1, 9, false},
	{"transform", "", []kArg{{"result", []string{"nested", "[1]"}, 2}}, 1, 1, false},
}

// argCase is a specification block: the values of its arguments (0: none),
// what is in it, and whether it is inside an object.
type argCase struct {
	Kind   int
	Vals   []int
	Nested []int // 0: good, 1: bad, 2: one with a label, 3: an unknown block, 4: an unknown attribute
	Label  bool
}

func (c argCase) text() (text string, valid, judged bool) {
	k := kKinds[c.Kind]
	valid, judged = true, true
	s := k.name
	if c.Label {
		s += " \"lab\""
	}
	s += " {\n"
	named := c.Label || k.named == ""
	for i, a := range k.args {
		v := c.Vals[i]
		if v == 0 {
			switch a.name {
			case "value", "labels":
				valid = false
			case "result", "element_type":
				judged = false
			}
			continue
		}
		s += "  " + a.name + " = " + a.vals[v-1] + "\n"
		if v > a.bad {
			valid = false
		} else if a.name == k.named {
			named = true
		}
	}
	n := 0
	for i, x := range c.Nested {
		switch x {
		case 0, 2:
			l := ""
			if x == 2 {
				l = fmt.Sprintf(" \"k%d\"", i)
			}
			s += "  literal" + l + " {\n    value = \"l\"\n  }\n"
			n++
			valid = valid && (x == 2) == k.inner
		case 1:
			s += "  block {\n  }\n"
			valid = false
		case 3:
			s += "  zz {\n  }\n"
			valid = false
		case 4:
			s += fmt.Sprintf("  zz%d = 1\n", i)
			valid = false
		}
	}
	valid = valid && named && n >= k.min && n <= k.max
	s += "}\n"
	if c.Label {
		s = "object {\n" + s + "}\n"
	}
	return s, valid, judged
}

// eachChoice calls f with every choice of one number below each size.
func eachChoice(sizes []int, f func([]int)) {
	ix := make([]int, len(sizes))
	var rec func(i int)
	rec = func(i int) {
		if i == len(sizes) {
			f(ix)
			return
		}
		for ix[i] = 0; ix[i] < sizes[i]; ix[i]++ {
			rec(i + 1)
		}
	}
	rec(0)
}

func sumInts(xs []int) (n int) {
	for _, x := range xs {
		n += x
	}
	return n
}

// specErrors tells whether there are errors in the specification file s.
func specErrors(stderr string) bool {
	var out struct {
		Diagnostics []struct {
			Severity string
			Subject  *struct{ Filename string }
		}
	}
	gojson.Unmarshal([]byte(stderr), &out)
	for _, d := range out.Diagnostics {
		if d.Severity == "error" && (d.Subject == nil || d.Subject.Filename == "s") {
			return true
		}
	}
	return false
}

// kNumbers are numbers with more digits than fit a machine number, and others.
var kNumbers = []string{"0", "1", "-1", "1.5", "9007199254740993", "-9007199254740993", "12345678901234567890123", "18446744073709551616", "0.1", "0.12345678901234567890123", "1e30", "1e-30", "123456789.123456789123456789", "100000000000000000000000000000000000000000001"}

var kNumForms = []struct{ native, json, typ string }{
	{"%s", "%s", "number"}, {"%s", "%s", "any"}, {"[%s, null]", "[%s, null]", "any"}, {"[%s]", "[%s]", "list(number)"}, {"{a = %s, b = null}", "{\"a\": %s, \"b\": null}", "any"}, {"{a = [{b = %s}]}", "{\"a\": [{\"b\": %s}]}", "map(list(map(number)))"},
}

// numCase is a number given in a way (0: by the specification, 1: in a native
// file, 2: in a JSON file, 3: as a variable in a native file, 4: in a JSON file).
type numCase struct {
	N         string
	Way, Form int
	Typed     bool
}

func runNum(r *fw.Rec, c numCase) {
	r.State(fmt.Sprint(c))
	f := kNumForms[c.Form]
	native, js := fmt.Sprintf(f.native, c.N), fmt.Sprintf(f.json, c.N)
	spec := "attr {\n  name = \"a\"\n  type = " + f.typ + "\n}\n"
	files, args := map[string]string{}, []string{"--spec=s"}
	switch c.Way {
	case 0:
		spec = "literal {\n  value = " + native + "\n}\n"
		files["in"] = ""
	case 1:
		files["in"] = "a = " + native + "\n"
	case 2:
		files["in.json"] = "{\"a\": " + js + "}"
	case 3:
		files["in"], files["v"] = "a = v\n", "v = "+native+"\n"
		args = append(args, "--vars=v")
	case 4:
		files["in"], files["v.json"] = "a = v\n", "{\"v\": "+js+"}"
		args = append(args, "--vars=v.json")
	}
	files["s"] = spec
	for _, in := range []string{"in", "in.json"} {
		if _, ok := files[in]; ok {
			args = append(args, in)
		}
	}
	rat, _ := new(big.Rat).SetString(c.N)
	n := jsonNum(rat.RatString())
	arr, list, m := []interface{}{n, nil}, []interface{}{n}, map[string]interface{}{"a": n}
	var want interface{}
	switch c.Form {
	case 0, 1:
		want = n
	case 2:
		want = arr
	case 3:
		want = list
	case 4:
		want = m
	case 5:
		want = map[string]interface{}{"a": []interface{}{map[string]interface{}{"b": n}}}
	}
	if c.Typed {
		args = append([]string{"--with-type"}, args...)
	}
	r.Op(1)
	r.Trace()
	dir := cmdFiles(files)
	status, stdout, stderr := cmdRun("hcldec", dir, "", args...)
	os.RemoveAll(dir)
	desc := fmt.Sprintf("arguments %v, files %v", args, files)
	if got, err := parseJSON([]byte(stdout)); c.Typed && err == nil {
		o, _ := got.(map[string]interface{})
		want = map[string]interface{}{"type": o["type"], "value": want}
		if o["type"] == nil {
			r.Failf("type", "%s: no type in %q", desc, stdout)
			return
		}
	}
	kGood(r, desc, want, status, stdout, stderr)
}

// kVarSources are places that define the variable v.
var kVarSources = []string{"spec", "arg", "hcl", "json"}

func init() {
	fw.Register(&fw.Check{
		ID: "C38",
		Assumptions: []string{
			"the expected value is that of the reference decoder of C22 and its JSON form that of the go-cty library",
			"the command is run as a process of its own in a scratch directory",
		},
		Suites: []fw.Suite{
			fw.S("decode", "every specification out of 23 that read attributes, pairs of them, 11 nested ones in each kind of block specification, these in objects, arrays and transforms (quick: a part of the combinations); with every body of one item (some: two) that matters, given on standard input, as native and JSON files, split in two, with types, to a file and with messages in JSON (quick: one or two of these ways for each body, in turn)", func(t fw.Tier, yield func(decCase)) {
				i := 0
				kSpecs(t, func(n *sNode, max int) {
					n.each(max, func(idx []int) {
						c := decCase{specCase{Spec: n, Items: append([]int{}, idx...)}, nil}
						if noUnknown(c.items()) {
							for w := range kWays {
								if t == fw.Thorough || (i+w)%5 == 0 {
									c.Ways = append(c.Ways, w)
								}
							}
							i++
							yield(c)
						}
					})
				})
			}, runDec),
			fw.S("spec files", "all specification files made of one piece of the alphabet, with none, one or two (thorough) other pieces in it, and nestings of three (quick: a part), decoding two inputs", func(t fw.Tier, yield func(fw.StrCase)) {
				fill := func(s, in string) string { return strings.Replace(s, "%s", in, 1) }
				for i, p := range kPieces {
					yield(fw.StrCase(fill(p, "")))
					for j, q := range kPieces {
						q1 := fill(q, "")
						if strings.Contains(p, "%s") {
							yield(fw.StrCase(fill(p, q1)))
						}
						yield(fw.StrCase(fill(p, "") + q1))
						if !strings.Contains(p, "%s") {
							continue
						}
						for k, s := range kPieces {
							if t == fw.Quick && (i+3*j+5*k)%23 != 0 {
								continue
							}
							s1 := fill(s, "")
							yield(fw.StrCase(fill(p, q1+s1)))
							if strings.Contains(q, "%s") {
								yield(fw.StrCase(fill(p, fill(q, s1))))
							}
						}
					}
				}
			}, func(r *fw.Rec, c fw.StrCase) {
				r.State(string(c))
				for _, in := range []string{"", "a = 1\nblk \"x\" {\n}\n"} {
					r.Op(1)
					r.Trace()
					dir := cmdFiles(map[string]string{"s": string(c)})
					status, stdout, stderr := cmdRun("hcldec", dir, in, "-s", "s")
					os.RemoveAll(dir)
					desc := fmt.Sprintf("specification file\n%sinput\n%s", c, in)
					var v interface{}
					if status == 0 && gojson.Unmarshal([]byte(stdout), &v) == nil {
						continue
					}
					kFail(r, desc, status, stdout, stderr)
				}
			}),
			fw.S("arguments", "every kind of specification, at the root or in an object, with every choice of values of its arguments, good and bad, and at most two good, bad, labelled or unknown things in it", func(t fw.Tier, yield func(argCase)) {
				for k, kind := range kKinds {
					sizes := []int{}
					for _, a := range kind.args {
						sizes = append(sizes, len(a.vals)+1)
					}
					eachChoice(sizes, func(vals []int) {
						vals = append([]int{}, vals...)
						eachSeq(5, 0, 2, func(nested []int) {
							for _, label := range []bool{false, true} {
								c := argCase{k, vals, append([]int{}, nested...), label}
								if t == fw.Thorough || len(nested) < 2 || (nested[0]+nested[1]+sumInts(vals))%4 == 0 {
									yield(c)
								}
							}
						})
					})
				}
			}, func(r *fw.Rec, c argCase) {
				text, valid, judged := c.text()
				if !judged {
					r.Count("unjudged", 1)
				}
				r.State(text)
				r.Op(1)
				r.Trace()
				dir := cmdFiles(map[string]string{"s": text, "in": ""})
				status, stdout, stderr := cmdRun("hcldec", dir, "", "-s", "s", "--diags=json", "in")
				os.RemoveAll(dir)
				if stderr != "" && status != 0 {
					checkJSONDiags(r, text, stderr, "in", 0)
				}
				bad := specErrors(stderr)
				if status != 0 && status != 2 || bad && (status == 0 || stdout != "") || judged && bad == valid {
					r.Failf("spec", "specification\n%sstatus %d, output %q, messages %s, valid %v", text, status, stdout, stderr, valid)
				}
			}),
			fw.S("variables", "all sequences of at most three definitions of a variable in the specification file, as an argument, in a native file or in a JSON file, with and without another variable", func(t fw.Tier, yield func([]int)) {
				eachSeq(len(kVarSources), 0, 3, func(ix []int) { yield(append([]int{}, ix...)) })
			}, func(r *fw.Rec, c []int) {
				r.State(fmt.Sprint(c))
				spec := "attr {\n  name = \"a\"\n  type = any\n}\n"
				files := map[string]string{"in": "a = [v, f(v)]\n"}
				args := []string{"--spec=s"}
				var want interface{}
				inSpec := ""
				for i, s := range c {
					val := fmt.Sprint("x", i)
					switch kVarSources[s] {
					case "spec":
						inSpec = val
					case "arg":
						args = append(args, "--vars", ` {"v": "`+val+`", "other": 1}`)
						want = val
					case "hcl":
						files[val] = "other = true\nv = \"" + val + "\"\n"
						args = append(args, "-V", val)
						want = val
					case "json":
						files[val+".json"] = `{"v": "` + val + `"}`
						args = append(args, "--vars="+val+".json")
						want = val
					}
				}
				if inSpec != "" {
					spec = "variables {\n  v = lower(upper(\"" + inSpec + "\"))\n}\n" + spec
					if want == nil {
						want = inSpec
					}
				}
				files["s"] = spec + "function \"f\" {\n  params = [p]\n  result = \"<${upper(p)}>\"\n}\n"
				r.Op(1)
				r.Trace()
				dir := cmdFiles(files)
				status, stdout, stderr := cmdRun("hcldec", dir, "", append(args, "in")...)
				desc := fmt.Sprintf("arguments %v, files %v", args, files)
				if want == nil {
					kFail(r, desc, status, stdout, stderr)
				} else {
					kGood(r, desc, []interface{}{want, "<" + strings.ToUpper(want.(string)) + ">"}, status, stdout, stderr)
				}
				status, stdout, stderr = cmdRun("hcldec", dir, "", append(args, "--var-refs", "in")...)
				os.RemoveAll(dir)
				ref := map[string]interface{}{"root_name": "v"}
				if want != nil {
					ref["value"] = want
				}
				var got []map[string]interface{}
				if gojson.Unmarshal([]byte(stdout), &got) != nil || status != 0 || len(got) != 2 {
					r.Failf("refs", "%s: references %q, status %d, messages %q", desc, stdout, status, stderr)
					return
				}
				for _, g := range got {
					if g["root_name"] != "v" || g["value"] != ref["value"] {
						r.Failf("refs", "%s: references %q", desc, stdout)
					}
				}
			}),
			fw.S("numbers", "14 small, large and long numbers (thorough: and numbers of up to 60 digits before and after the point), as literals, in native and JSON files, as variables, alone and in a list or an object, with types and without", func(t fw.Tier, yield func(numCase)) {
				ns := append([]string{}, kNumbers...)
				if t == fw.Thorough {
					for i := 1; i <= 60; i++ {
						ns = append(ns, strings.Repeat("7", i), "0."+strings.Repeat("0", i/2)+strings.Repeat("3", i), "-"+strings.Repeat("9", i)+"."+strings.Repeat("1", i))
					}
				}
				for _, n := range ns {
					for w := 0; w < 5; w++ {
						for f := range kNumForms {
							for _, typed := range []bool{false, true} {
								yield(numCase{n, w, f, typed})
							}
						}
					}
				}
			}, runNum),
			fw.S("references", "the variables in all expressions of the C34 traversal alphabet of at most one step and in 14 more, with no variables and with three", func(t fw.Tier, yield func(refCase)) {
				for _, vars := range []bool{false, true} {
					aTraversals(1, func(e aExpr) { yield(refCase{e.Src, vars}) })
					for _, s := range []string{"[a, b.c]", "{(x.y) = z[0]}", "[for a in b: a.c]", "1", "\"${a}\"", "a[\"k\"].b[1]", "a[0]", "a[1].c", "a[2].c", "b.c.d", "b[\"c\"]", "b.c[\"d\"][0]", "a.c", "c.c"} {
						yield(refCase{s, vars})
					}
				}
			}, func(r *fw.Rec, rc refCase) {
				r.State(rc.Src, fmt.Sprint(rc.Vars))
				c := rc.Src
				src := "x = " + string(c) + "\n"
				spec := &hcldec.AttrSpec{Name: "x", Type: cty.DynamicPseudoType}
				f, diags := parseAny(src, false)
				if diags.HasErrors() {
					return
				}
				r.Op(1)
				r.Trace()
				dir := cmdFiles(map[string]string{"s": "attr {\n  name = \"x\"\n  type = any\n}\n"})
				args := []string{"-s", "s", "--var-refs"}
				ctx := &hcl.EvalContext{}
				if rc.Vars {
					args = append(args, `--vars={"a":[1,{"c":true}],"b":{"c":{"d":["x"]}},"c":null}`)
					ctx.Variables = map[string]cty.Value{
						"a": tup(cty.NumberIntVal(1), cty.ObjectVal(map[string]cty.Value{"c": cty.True})),
						"b": cty.ObjectVal(map[string]cty.Value{"c": cty.ObjectVal(map[string]cty.Value{"d": tup(str("x"))})}),
						"c": cty.NullVal(cty.DynamicPseudoType),
					}
				}
				status, stdout, stderr := cmdRun("hcldec", dir, src, args...)
				os.RemoveAll(dir)
				type pos struct{ Line, Column, Byte int }
				type rng struct {
					Filename   string
					Start, End pos
				}
				var got []struct {
					RootName string `json:"root_name"`
					Steps    []struct {
						Kind, Name string
						Key        gojson.RawMessage
						Range      rng
					}
					Range rng
					Value gojson.RawMessage
				}
				if gojson.Unmarshal([]byte(stdout), &got) != nil || status != 0 {
					r.Failf("refs", "%s: references %q, status %d, messages %q", c, stdout, status, stderr)
					return
				}
				var gs, ws []string
				rs := func(g rng) string { return fmt.Sprint(g.Start, g.End) }
				ps := func(p hcl.Pos) pos { return pos{p.Line, p.Column, p.Byte} }
				for _, g := range got {
					s := g.RootName + rs(g.Range)
					for _, st := range g.Steps {
						var key interface{}
						if st.Key != nil {
							key, _ = parseJSON(st.Key)
						}
						s += fmt.Sprintf(" %s %s %#v %s", st.Kind, st.Name, key, rs(st.Range))
					}
					if g.Value != nil {
						v, _ := parseJSON(g.Value)
						s += fmt.Sprintf(" value %#v", v)
					}
					gs = append(gs, s)
				}
				for _, t := range hcldec.Variables(f.Body, spec) {
					sr := t.SourceRange()
					s := t.RootName() + fmt.Sprint(ps(sr.Start), ps(sr.End))
					for _, st := range t {
						sr := st.SourceRange()
						at := fmt.Sprint(ps(sr.Start), ps(sr.End))
						switch st := st.(type) {
						case hcl.TraverseRoot:
							s += fmt.Sprintf(" root %s %#v %s", st.Name, nil, at)
						case hcl.TraverseAttr:
							s += fmt.Sprintf(" attr %s %#v %s", st.Name, nil, at)
						case hcl.TraverseIndex:
							s += fmt.Sprintf(" index  %#v %s", jsonForm(st.Key, false), at)
						}
					}
					if v, diags := t.TraverseAbs(ctx); !diags.HasErrors() && v.IsWhollyKnown() {
						s += fmt.Sprintf(" value %#v", jsonForm(v, false))
					}
					ws = append(ws, s)
				}
				sort.Strings(gs)
				sort.Strings(ws)
				if strings.Join(gs, "\n") != strings.Join(ws, "\n") {
					r.Failf("refs-differ", "%s: references %q instead of %q", c, gs, ws)
				}
			}),
		},
	})
}
