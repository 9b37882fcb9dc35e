package checks

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/ext/include"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hclparse"
	"github.com/hashicorp/hcl2/hcltest"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
)

// xItem is an attribute "a", a block "b" or an include block "i" whose name is
// its kind.
type xItem struct {
	K    string
	Name string
	Val  int      `json:",omitempty"`
	Body []*xItem `json:",omitempty"`
}

// xIncludes are the kinds of include blocks: the arguments written natively
// and in JSON, the path they ask for, and whether they are malformed.
var xIncludes = map[string]struct {
	native, json, path string
	bad                bool
}{
	"p1":       {`path = "p1"`, `"path": "p1"`, "p1", false},
	"p2":       {`path = "p2"`, `"path": "p2"`, "p2", false},
	"dup":      {`path = "dup"`, `"path": "dup"`, "dup", false},
	"nil":      {`path = "nil"`, `"path": "nil"`, "nil", false},
	"nilwarn":  {`path = "nilwarn"`, `"path": "nilwarn"`, "nilwarn", false},
	"warn":     {`path = "warn"`, `"path": "warn"`, "warn", false},
	"warn2":    {`path = "warn2"`, `"path": "warn2"`, "warn2", false},
	"err":      {`path = "err"`, `"path": "err"`, "err", false},
	"errbody":  {`path = "errbody"`, `"path": "errbody"`, "errbody", false},
	"nested":   {`path = "nested"`, `"path": "nested"`, "nested", false},
	"var":      {`path = pv`, `"path": "${pv}"`, "p1", false},
	"expr":     {`path = "p${1 + 1}"`, `"path": "p${1 + 1}"`, "p2", false},
	"num":      {`path = 5`, `"path": 5`, "5", false},
	"missing":  {``, ``, "", true},
	"extra":    {"path = \"p1\"\nextra = 1", `"path": "p1", "extra": 1`, "", true},
	"block":    {"path = \"p1\"\nsub {\n}", `"path": "p1", "sub": {}`, "", true},
	"null":     {`path = null`, `"path": null`, "", true},
	"list":     {`path = ["p1"]`, `"path": ["p1"]`, "", true},
	"undef":    {`path = nope`, `"path": "${nope}"`, "", true},
	"unkmatch": {`path = "zzz"`, `"path": "zzz"`, "zzz", false},
}

// xResolved are the bodies that paths lead to.
var xResolved = map[string][]*xItem{
	"p1":      {{K: "a", Name: "b", Val: 101}},
	"p2":      {{K: "b", Name: "x", Body: []*xItem{{K: "a", Name: "a", Val: 201}}}, {K: "b", Name: "y"}},
	"dup":     {{K: "a", Name: "a", Val: 301}},
	"warn":    {{K: "b", Name: "y", Body: []*xItem{{K: "a", Name: "b", Val: 401}}}},
	"warn2":   {{K: "b", Name: "x"}},
	"errbody": {{K: "b", Name: "y"}},
	"nested":  {{K: "b", Name: "y", Body: []*xItem{{K: "i", Name: "p1"}, {K: "i", Name: "warn"}}}},
	"5":       {{K: "b", Name: "x", Body: []*xItem{{K: "a", Name: "a", Val: 501}}}},
}

func xNative(b *strings.Builder, items []*xItem) {
	for _, it := range items {
		switch it.K {
		case "a":
			fmt.Fprintf(b, "%s = %d\n", it.Name, it.Val)
		case "b":
			fmt.Fprintf(b, "%s {\n", it.Name)
			xNative(b, it.Body)
			b.WriteString("}\n")
		case "i":
			fmt.Fprintf(b, "include {\n%s\n}\n", xIncludes[it.Name].native)
		case "f":
			fmt.Fprintf(b, "include {\npath = %q\n}\n", it.Name)
		}
	}
}

func xJSON(items []*xItem) string {
	var keys []string
	vals := map[string][]string{}
	for _, it := range items {
		k, v := it.Name, ""
		switch it.K {
		case "a":
			v = fmt.Sprint(it.Val)
		case "b":
			v = xJSON(it.Body)
		case "i":
			k, v = "include", "{"+xIncludes[it.Name].json+"}"
		case "f":
			k, v = "include", `{"path": `+jsonStr(it.Name)+`}`
		}
		if _, ok := vals[k]; !ok {
			keys = append(keys, k)
		}
		vals[k] = append(vals[k], v)
	}
	var p []string
	for _, k := range keys {
		v := vals[k][0]
		if len(vals[k]) > 1 {
			v = "[" + strings.Join(vals[k], ", ") + "]"
		}
		p = append(p, jsonStr(k)+": "+v)
	}
	return "{" + strings.Join(p, ", ") + "}"
}

// xBody is what a body has after transformation.
type xBody struct {
	attrs  map[string]int
	blocks map[string][]*xBody
	marks  []string // messages expected, each once
	err    bool     // some error is expected
	bad    int      // malformed includes, whose errors may keep others from being reported
}

// xPlain is the body written, without any transformation.
func xPlain(items []*xItem, sub func([]*xItem) *xBody) *xBody {
	ret := &xBody{attrs: map[string]int{}, blocks: map[string][]*xBody{}}
	for _, it := range items {
		switch it.K {
		case "a":
			if _, ok := ret.attrs[it.Name]; ok {
				ret.err = true
			}
			ret.attrs[it.Name] = it.Val
		case "b":
			ret.blocks[it.Name] = append(ret.blocks[it.Name], sub(it.Body))
		default:
			ret.err = true // an include block nobody resolves
		}
	}
	return ret
}

// xIncluded is the body with its includes resolved, at all levels if deep.
func xIncluded(items []*xItem, deep bool) *xBody {
	var rest, added []*xItem
	var marks []string
	err, bad := false, 0
	for _, it := range items {
		if it.K != "i" {
			rest = append(rest, it)
			continue
		}
		inc := xIncludes[it.Name]
		if inc.bad {
			err = true
			bad++
			continue
		}
		got, ok := xResolved[inc.path]
		switch inc.path {
		case "nil":
		case "nilwarn", "warn", "warn2":
			marks = append(marks, "W:"+inc.path)
		case "err", "errbody":
			marks = append(marks, "E:"+inc.path)
			err = true
		default:
			if !ok {
				err = true
			}
		}
		added = append(added, got...)
	}
	sub := func(items []*xItem) *xBody { return xPlainDeep(items) }
	if deep {
		sub = func(items []*xItem) *xBody { return xIncluded(items, true) }
	}
	ret := xPlain(append(rest, added...), sub)
	ret.err = ret.err || err
	ret.bad = bad
	ret.marks = marks
	return ret
}

func xPlainDeep(items []*xItem) *xBody { return xPlain(items, xPlainDeep) }

// xModes are the ways to read a body: schemas asked for in part one after the
// other, and the last of which is asked for completely if whole.
type xMode struct {
	name  string
	steps []*hcl.BodySchema
	whole bool
}

func xSchema(attrs string, blocks string) *hcl.BodySchema {
	s := &hcl.BodySchema{}
	for _, a := range strings.Fields(attrs) {
		s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: a})
	}
	for _, b := range strings.Fields(blocks) {
		s.Blocks = append(s.Blocks, hcl.BlockHeaderSchema{Type: b})
	}
	return s
}

var xModes = []xMode{
	{"content", []*hcl.BodySchema{xSchema("a b bad", "x y")}, true},
	{"partial", []*hcl.BodySchema{xSchema("a b bad", "x y")}, false},
	{"blocks first", []*hcl.BodySchema{xSchema("", "x y"), xSchema("a b bad", "")}, true},
	{"x then rest", []*hcl.BodySchema{xSchema("a", "x"), xSchema("b bad", "y")}, true},
	{"three", []*hcl.BodySchema{xSchema("bad a", ""), xSchema("", "y"), xSchema("b", "x")}, true},
	{"three partial", []*hcl.BodySchema{xSchema("", ""), xSchema("b a", "x"), xSchema("bad", "y")}, false},
}

type xCheck struct {
	r     *fw.Rec
	desc  string
	modes []int // by depth
	n     int   // bodies read
	clean bool  // no error so far
}

func (x *xCheck) marksOf(diags hcl.Diagnostics) []string {
	var ret []string
	for _, d := range diags {
		if strings.HasPrefix(d.Summary, "W:") || strings.HasPrefix(d.Summary, "E:") {
			ret = append(ret, d.Summary)
		}
	}
	return ret
}

// read reads a body and compares it with what is expected.
func (x *xCheck) read(body hcl.Body, want *xBody, path string, depth int) {
	x.n++
	m := xModes[x.modes[depth%len(x.modes)]]
	attrs := hcl.Attributes{}
	blocks := map[string]hcl.Blocks{}
	var diags hcl.Diagnostics
	b := body
	for i, s := range m.steps {
		x.r.Op(1)
		var content *hcl.BodyContent
		var ds hcl.Diagnostics
		if i == len(m.steps)-1 && m.whole {
			content, ds = b.Content(s)
		} else {
			content, b, ds = b.PartialContent(s)
		}
		if want.err && hasErrMark(want.marks) && !ds.HasErrors() {
			x.r.Failf("error-lost", "%s\n%s read by %s: step %d does not report the error", x.desc, path, m.name, i)
		}
		if i == 0 || !want.err {
			diags = append(diags, ds...)
		}
		if content == nil {
			x.r.Failf("no-content", "%s\n%s read by %s: no content", x.desc, path, m.name)
			return
		}
		for k, a := range content.Attributes {
			if attrs[k] != nil {
				x.r.Failf("attr-twice", "%s\n%s read by %s: attribute %s is given twice", x.desc, path, m.name, k)
			}
			attrs[k] = a
		}
		for _, bl := range content.Blocks {
			blocks[bl.Type] = append(blocks[bl.Type], bl)
		}
	}
	got := x.marksOf(diags)
	if want.bad > 0 {
		errs := 0
		for _, d := range diags {
			if d.Severity == hcl.DiagError {
				errs++
			}
		}
		if errs < want.bad {
			x.r.Failf("no-error", "%s\n%s read by %s: %d errors for %d malformed includes", x.desc, path, m.name, errs, want.bad)
		}
		x.clean = false
		return
	}
	if sortedStr(uniq(got)) != sortedStr(uniq(want.marks)) {
		x.r.Failf("marks", "%s\n%s read by %s: messages %v instead of %v", x.desc, path, m.name, got, want.marks)
	}
	if len(m.steps) == 1 && len(got) != len(want.marks) {
		x.r.Failf("marks-count", "%s\n%s read by %s: messages %v instead of %v", x.desc, path, m.name, got, want.marks)
	}
	if want.err {
		x.clean = false
		if !diags.HasErrors() && m.whole && len(m.steps) == 1 {
			x.r.Failf("no-error", "%s\n%s read by %s: no error", x.desc, path, m.name)
		}
		return
	}
	if diags.HasErrors() {
		x.r.Failf("error", "%s\n%s read by %s: %s", x.desc, path, m.name, diagsStr(diags))
		return
	}
	gotA := map[string]int{}
	for k, a := range attrs {
		v, _ := a.Expr.Value(nil)
		n, _ := v.AsBigFloat().Int64()
		gotA[k] = int(n)
	}
	if fmt.Sprint(gotA) != fmt.Sprint(want.attrs) {
		x.r.Failf("attrs", "%s\n%s read by %s: attributes %v instead of %v", x.desc, path, m.name, gotA, want.attrs)
	}
	for _, k := range sortedKeys(want.blocks) {
		if len(blocks[k]) != len(want.blocks[k]) {
			x.r.Failf("blocks", "%s\n%s read by %s: %d blocks %s instead of %d", x.desc, path, m.name, len(blocks[k]), k, len(want.blocks[k]))
			continue
		}
		for i, bl := range blocks[k] {
			x.read(bl.Body, want.blocks[k][i], fmt.Sprintf("%s/%s%d", path, k, i), depth+1)
		}
	}
	for k := range blocks {
		if len(want.blocks[k]) == 0 {
			x.r.Failf("blocks", "%s\n%s read by %s: %d blocks %s instead of none", x.desc, path, m.name, len(blocks[k]), k)
		}
	}
	// Just the attributes: an error if there are blocks, and always the
	// messages.
	ja, ds := body.JustAttributes()
	if g := x.marksOf(ds); sortedStr(g) != sortedStr(want.marks) {
		x.r.Failf("just-marks", "%s\n%s read as attributes: messages %v instead of %v", x.desc, path, g, want.marks)
	}
	if len(want.blocks) == 0 {
		if ds.HasErrors() || len(ja) != len(want.attrs) {
			x.r.Failf("just", "%s\n%s read as attributes: %d attributes, %s", x.desc, path, len(ja), diagsStr(ds))
		}
	}
}

func hasErrMark(marks []string) bool {
	for _, m := range marks {
		if strings.HasPrefix(m, "E:") {
			return true
		}
	}
	return false
}

func uniq(s []string) []string {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return sortedKeys(m)
}

type xCase struct {
	Items []*xItem
	JSON  bool   `json:",omitempty"`
	Deep  bool   `json:",omitempty"`
	Mock  bool   `json:",omitempty"` // a body that is not parsed
	Tr    string `json:",omitempty"` // transformation
	Modes []int
}

func (c xCase) src() string {
	if c.JSON {
		return xJSON(c.Items)
	}
	var b strings.Builder
	xNative(&b, c.Items)
	return b.String()
}

func xDiag(sev hcl.DiagnosticSeverity, mark string) *hcl.Diagnostic {
	return &hcl.Diagnostic{Severity: sev, Summary: mark, Detail: "x", Subject: &hcl.Range{Filename: "f"}}
}

// xMock is the body as one that gives out the same blocks each time.
func xMock(items []*xItem) hcl.Body {
	content := &hcl.BodyContent{Attributes: hcl.Attributes{}}
	for _, it := range items {
		if it.K == "a" {
			content.Attributes[it.Name] = &hcl.Attribute{Name: it.Name, Expr: hcltest.MockExprLiteral(cty.NumberIntVal(int64(it.Val)))}
		} else {
			content.Blocks = append(content.Blocks, &hcl.Block{Type: it.Name, Body: xMock(it.Body)})
		}
	}
	return hcltest.MockBody(content)
}

func parseX(r *fw.Rec, c xCase) (hcl.Body, string) {
	src := c.src()
	if c.Mock {
		return xMock(c.Items), src
	}
	f, diags := parseAny(src, c.JSON)
	if diags.HasErrors() {
		r.Failf("parse", "%s\n%s", src, diagsStr(diags))
		return nil, src
	}
	return f.Body, src
}

func runInclude(r *fw.Rec, c xCase) {
	body, src := parseX(r, c)
	if body == nil {
		return
	}
	r.State(src, fmt.Sprint(c.Deep, c.Modes))
	r.Trace()
	bodies := map[string]hcl.Body{}
	for k, items := range xResolved {
		b, _ := parseX(r, xCase{Items: items, JSON: k == "p2"})
		bodies[k] = b
	}
	base := include.MapResolver(bodies)
	res := include.ResolverFunc(func(path string, rng hcl.Range) (hcl.Body, hcl.Diagnostics) {
		switch path {
		case "nil":
			return nil, nil
		case "nilwarn":
			return nil, hcl.Diagnostics{xDiag(hcl.DiagWarning, "W:"+path)}
		case "warn", "warn2":
			return bodies[path], hcl.Diagnostics{xDiag(hcl.DiagWarning, "W:"+path)}
		case "err":
			return nil, hcl.Diagnostics{xDiag(hcl.DiagError, "E:"+path)}
		case "errbody":
			return bodies[path], hcl.Diagnostics{xDiag(hcl.DiagError, "E:"+path)}
		}
		return base.ResolveBodyPath(path, rng)
	})
	ctx := &hcl.EvalContext{Variables: map[string]cty.Value{"pv": cty.StringVal("p1")}}
	t := include.Transformer("include", ctx, res)
	x := &xCheck{r: r, desc: fmt.Sprintf("%s with includes, deep=%v", src, c.Deep), modes: c.Modes}
	if c.Deep {
		x.read(transform.Deep(body, t), xIncluded(c.Items, true), "root", 0)
	} else {
		x.read(transform.Shallow(body, t), xIncluded(c.Items, false), "root", 0)
	}
}

// xUnchanged is the body written, in error where it has blocks not asked for.
func xUnchanged(items []*xItem) *xBody {
	ret := xPlain(items, xUnchanged)
	ret.err = ret.err || len(ret.blocks["r"]) > 0
	return ret
}

// runDeep applies a transformation at all levels, counting applications.
func runDeep(r *fw.Rec, c xCase) {
	body, src := parseX(r, c)
	if body == nil {
		return
	}
	r.State(src, c.Tr, fmt.Sprint(c.Modes))
	r.Trace()
	applied := 0
	tr := transform.TransformerFunc(func(b hcl.Body) hcl.Body {
		applied++
		switch c.Tr {
		case "warn":
			return transform.BodyWithDiagnostics(b, hcl.Diagnostics{xDiag(hcl.DiagWarning, "W:t")})
		case "remove":
			_, rest, diags := b.PartialContent(xSchema("", "r"))
			return transform.BodyWithDiagnostics(rest, diags)
		case "fail", "failwrap":
			content, _, _ := b.PartialContent(xSchema("bad", ""))
			if content.Attributes["bad"] != nil {
				ds := hcl.Diagnostics{xDiag(hcl.DiagWarning, "W:bad"), xDiag(hcl.DiagError, "E:bad")}
				if c.Tr == "fail" {
					return transform.NewErrorBody(ds)
				}
				return transform.BodyWithDiagnostics(b, ds)
			}
		}
		return b
	})
	var want func(items []*xItem) *xBody
	want = func(items []*xItem) *xBody {
		var kept []*xItem
		for _, it := range items {
			if c.Tr == "remove" && it.K == "b" && it.Name == "r" {
				continue
			}
			kept = append(kept, it)
		}
		ret := xPlain(kept, want)
		if len(ret.blocks["r"]) > 0 {
			ret.err = true // not in the schema
		}
		if c.Tr == "warn" {
			ret.marks = []string{"W:t"}
		}
		if _, ok := ret.attrs["bad"]; ok && strings.HasPrefix(c.Tr, "fail") {
			ret.marks = []string{"W:bad", "E:bad"}
			ret.err = true
		}
		return ret
	}
	x := &xCheck{r: r, desc: fmt.Sprintf("%s transformed by %s", src, c.Tr), modes: c.Modes, clean: true}
	deep := transform.Deep(body, tr)
	x.read(deep, want(c.Items), "root", 0)
	if x.clean && applied != x.n {
		r.Failf("applied", "%s read by %v: the transformation is applied %d times to %d bodies", x.desc, c.Modes, applied, x.n)
	}
	if c.Mock {
		// Again, and the untransformed body.
		x.desc += ", a second time"
		x.read(deep, want(c.Items), "root", 0)
		y := &xCheck{r: r, desc: src + " after transformation", modes: c.Modes}
		y.read(body, xUnchanged(c.Items), "root", 0)
	}
}

// xTrees yields all small trees of blocks.
func xTrees(depth int, attrs []string, blocks []string, max int) [][]*xItem {
	var alpha []*xItem
	for i, a := range attrs {
		alpha = append(alpha, &xItem{K: "a", Name: a, Val: i + 1})
	}
	if depth > 0 {
		var subs [][]*xItem
		subMax := max
		if depth > 1 || subMax > 2 {
			subMax--
		}
		subs = xTrees(depth-1, attrs, blocks, subMax)
		for _, b := range blocks {
			for _, s := range subs {
				alpha = append(alpha, &xItem{K: "b", Name: b, Body: s})
			}
		}
	}
	var ret [][]*xItem
	eachSeq(len(alpha), 0, max, func(ix []int) {
		seen := map[string]bool{}
		var items []*xItem
		for _, i := range ix {
			it := alpha[i]
			if it.K == "a" && seen[it.Name] {
				return
			}
			seen[it.Name] = true
			items = append(items, it)
		}
		ret = append(ret, items)
	})
	return ret
}

// runFiles checks the resolver of file paths in a scratch directory.
type xFileCase struct {
	Base   string // "abs", "rel" or "dot"
	Caller string // "abs" or "rel"
	Dir    string // directory of the caller
	Paths  []string
	JSON   bool `json:",omitempty"`
}

// xFiles are the files in the scratch directory.
var xFiles = map[string]string{
	"one.hcl":          "a = 1\n",
	"sub/two.hcl":      "x {\n  include {\n    path = \"three.hcl\"\n  }\n}\n",
	"sub/three.hcl":    "a = 3\n",
	"three.hcl":        "a = 33\n",
	"sub/deep/one.hcl": "b = 7\n",
	"sub/one.hcl":      "a = 11\n",
	"j.json":           `{"y": {"include": {"path": "sub/three.hcl"}}}`,
	"sub/j.json":       `{"y": {"include": {"path": "../one.hcl"}}}`,
	"bad.hcl":          "a = \n",
	"native.json":      "a = 1\n",
}

// xFileWant is what a file has, given its path in the scratch directory.
func xFileWant(path string) *xBody {
	ret := &xBody{attrs: map[string]int{}, blocks: map[string][]*xBody{}}
	switch path {
	case "one.hcl":
		ret.attrs["a"] = 1
	case "sub/three.hcl":
		ret.attrs["a"] = 3
	case "three.hcl":
		ret.attrs["a"] = 33
	case "sub/deep/one.hcl":
		ret.attrs["b"] = 7
	case "sub/one.hcl":
		ret.attrs["a"] = 11
	case "sub/two.hcl":
		ret.blocks["x"] = []*xBody{xFileWant("sub/three.hcl")}
	case "j.json":
		ret.blocks["y"] = []*xBody{xFileWant("sub/three.hcl")}
	case "sub/j.json":
		ret.blocks["y"] = []*xBody{xFileWant("one.hcl")}
	default:
		ret.err = true
	}
	return ret
}

func runFiles(r *fw.Rec, c xFileCase) {
	r.State(c.Base, c.Caller, c.Dir, fmt.Sprint(c.JSON, c.Paths))
	r.Trace()
	dir, err := ioutil.TempDir("", "mc-include")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	dir, _ = filepath.EvalSymlinks(dir)
	for name, src := range xFiles {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755)
		if err := ioutil.WriteFile(filepath.Join(dir, name), []byte(src), 0o644); err != nil {
			return
		}
	}
	cwd, err := os.Getwd()
	if err != nil {
		return
	}
	rel, err := filepath.Rel(cwd, dir)
	if err != nil {
		return
	}
	base := dir
	switch c.Base {
	case "rel":
		base = rel
	case "slash":
		base = dir + "/"
	}
	name := filepath.Join(c.Dir, "main.hcl")
	if c.Caller == "abs" {
		name = filepath.Join(dir, name)
	}
	if c.Base == "dot" {
		base = "."
		if c.Caller != "abs" {
			name = filepath.Join(rel, name)
		}
	}
	var items []*xItem
	want := &xBody{attrs: map[string]int{}, blocks: map[string][]*xBody{}}
	for _, p := range c.Paths {
		items = append(items, &xItem{K: "f", Name: p})
		w := xFileWant(filepath.ToSlash(filepath.Join(c.Dir, p)))
		want.err = want.err || w.err
		for k, v := range w.attrs {
			if _, ok := want.attrs[k]; ok {
				want.err = true
			}
			want.attrs[k] = v
		}
		for k, v := range w.blocks {
			want.blocks[k] = append(want.blocks[k], v...)
		}
	}
	src := xCase{Items: items, JSON: c.JSON}.src()
	parser := hclparse.NewParser()
	var f *hcl.File
	var diags hcl.Diagnostics
	if c.JSON {
		f, diags = parser.ParseJSON([]byte(src), name)
	} else {
		f, diags = parser.ParseHCL([]byte(src), name)
	}
	if diags.HasErrors() {
		r.Failf("parse", "%s\n%s", src, diagsStr(diags))
		return
	}
	body := transform.Deep(f.Body, include.Transformer("include", nil, include.FileResolver(base, parser)))
	x := &xCheck{r: r, desc: fmt.Sprintf("%s in %s of the scratch directory, base directory %s, named %s", src, c.Dir, c.Base, c.Caller), modes: []int{0}}
	x.read(body, want, "root", 0)
}

func init() {
	allModes := func(t fw.Tier, yield func([]int)) {
		for i := range xModes {
			for j := range xModes {
				if t == fw.Thorough || i == j || j == (i+3)%len(xModes) {
					yield([]int{i, j})
				}
			}
		}
	}
	fw.Register(&fw.Check{
		ID: "C29",
		Assumptions: []string{
			"the content of a body some part of which is in error is not judged, only that the error is reported",
		},
		Suites: []fw.Suite{
			fw.S("deep", "all trees of at most two (thorough: three) items of two levels over two block types and two attributes, five transformations, and pairs of ways to read the bodies, written natively, in JSON and not parsed at all", func(t fw.Tier, yield func(xCase)) {
				trees := xTrees(2, []string{"a", "bad"}, []string{"x", "r"}, 2)
				trees = append(trees, xTrees(1, []string{"a", "bad"}, []string{"x", "y", "r"}, 2)...)
				trees = append(trees, xTrees(1, []string{"b"}, []string{"x", "y"}, fw.Pick(t, 3, 4))...)
				for _, tr := range []string{"plain", "warn", "remove", "fail", "failwrap"} {
					for _, tree := range trees {
						allModes(t, func(m []int) {
							yield(xCase{Items: tree, Tr: tr, Modes: m})
							yield(xCase{Items: tree, Tr: tr, Modes: m, JSON: true})
							yield(xCase{Items: tree, Tr: tr, Modes: m, Mock: true})
						})
					}
				}
			}, runDeep),
			fw.S("ranges", "the same trees: where an item is missing, in a body under a transformation that changes nothing", func(t fw.Tier, yield func(xCase)) {
				trees := xTrees(2, []string{"a"}, []string{"x", "r"}, 2)
				trees = append(trees, xTrees(1, []string{"a", "b"}, []string{"x", "y", "r"}, 2)...)
				for _, tree := range trees {
					yield(xCase{Items: tree})
					yield(xCase{Items: tree, JSON: true})
				}
			}, func(r *fw.Rec, c xCase) {
				src := c.src()
				r.State(src)
				r.Op(1)
				r.Trace()
				f, diags := parseAny(src, c.JSON)
				if diags.HasErrors() {
					r.Failf("parse", "%s\n%s", src, diagsStr(diags))
					return
				}
				keep := transform.TransformerFunc(func(b hcl.Body) hcl.Body { return b })
				var same func(a, b hcl.Body, depth int)
				same = func(a, b hcl.Body, depth int) {
					if a.MissingItemRange() != b.MissingItemRange() {
						r.Failf("missing", "%s\nan item is missing at %v in the transformed body, %v in the original", src, b.MissingItemRange(), a.MissingItemRange())
					}
					schema := &hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "b"}}, Blocks: []hcl.BlockHeaderSchema{{Type: "x"}, {Type: "y"}, {Type: "r"}}}
					ca, ra, _ := a.PartialContent(schema)
					cb, rb, _ := b.PartialContent(schema)
					fa, _ := a.Content(schema)
					fb, _ := b.Content(schema)
					if ca.MissingItemRange != cb.MissingItemRange || fa.MissingItemRange != fb.MissingItemRange || ra.MissingItemRange() != rb.MissingItemRange() {
						r.Failf("missing-content", "%s\nan item is missing at %v, %v and %v in the content of the transformed body, %v, %v and %v in that of the original", src, cb.MissingItemRange, fb.MissingItemRange, rb.MissingItemRange(), ca.MissingItemRange, fa.MissingItemRange, ra.MissingItemRange())
					}
					for i := range ca.Blocks {
						if i >= len(cb.Blocks) || ca.Blocks[i].DefRange != cb.Blocks[i].DefRange || ca.Blocks[i].TypeRange != cb.Blocks[i].TypeRange {
							r.Failf("blocks", "%s\nblock %d is elsewhere", src, i)
							return
						}
						if depth < 3 {
							same(ca.Blocks[i].Body, cb.Blocks[i].Body, depth+1)
						}
					}
				}
				same(f.Body, transform.Deep(f.Body, keep), 0)
				same(f.Body, transform.Shallow(f.Body, keep), 0)
			}),
			fw.S("includes", "all sequences of at most two (thorough: three) include blocks of 20 kinds with content before or after, and nested in blocks, natively and in JSON, shallow and deep", func(t fw.Tier, yield func(xCase)) {
				var kinds []string
				for k := range xIncludes {
					kinds = append(kinds, k)
				}
				sort.Strings(kinds)
				own := [][]*xItem{
					{},
					{{K: "a", Name: "a", Val: 1}},
					{{K: "b", Name: "x", Body: []*xItem{{K: "a", Name: "a", Val: 2}}}},
					{{K: "a", Name: "a", Val: 1}, {K: "b", Name: "y", Body: []*xItem{{K: "i", Name: "p1"}}}},
				}
				eachSeq(len(kinds), 1, fw.Pick(t, 2, 3), func(ix []int) {
					var incs []*xItem
					for _, i := range ix {
						incs = append(incs, &xItem{K: "i", Name: kinds[i]})
					}
					var forms [][]*xItem
					for i, o := range own {
						if len(incs) > 2 && i > 2 {
							continue
						}
						forms = append(forms, append(append([]*xItem{}, o...), incs...))
						if i > 0 && len(incs) < 3 {
							forms = append(forms, append(append([]*xItem{}, incs...), o...))
						}
					}
					if len(incs) == 2 {
						forms = append(forms, []*xItem{incs[0], {K: "a", Name: "a", Val: 1}, incs[1]})
						forms = append(forms, []*xItem{incs[0], {K: "b", Name: "x", Body: []*xItem{incs[1], {K: "a", Name: "a", Val: 5}}}})
					}
					if len(incs) < 3 {
						forms = append(forms, []*xItem{{K: "b", Name: "x", Body: incs}, {K: "b", Name: "x"}})
						forms = append(forms, []*xItem{{K: "b", Name: "y", Body: []*xItem{{K: "b", Name: "x", Body: incs}}}})
					}
					for _, f := range forms {
						for _, deep := range []bool{false, true} {
							for _, js := range []bool{false, true} {
								n := 0
								allModes(t, func(m []int) {
									if n++; len(incs) > 2 && n%5 != 1 {
										return
									}
									yield(xCase{Items: f, JSON: js, Deep: deep, Modes: m})
								})
							}
						}
					}
				})
			}, runInclude),
			fw.S("order", "all sequences of three and four (thorough: five) include blocks of 6 kinds, and of three of all malformed kinds and two others", func(t fw.Tier, yield func(xCase)) {
				each := func(kinds []string, min, max int) {
					eachSeq(len(kinds), min, max, func(ix []int) {
						items := []*xItem{{K: "a", Name: "a", Val: 1}}
						for _, i := range ix {
							items = append(items, &xItem{K: "i", Name: kinds[i]})
						}
						for _, deep := range []bool{false, true} {
							for _, js := range []bool{false, true} {
								yield(xCase{Items: items, JSON: js, Deep: deep, Modes: []int{0, 0}})
								yield(xCase{Items: items, JSON: js, Deep: deep, Modes: []int{3, 2}})
							}
						}
					})
				}
				each([]string{"p2", "num", "warn", "warn2", "nil", "nested"}, 3, fw.Pick(t, 4, 5))
				each([]string{"p2", "err", "missing", "extra", "block", "null", "list", "undef"}, 3, fw.Pick(t, 3, 4))
			}, runInclude),
			fw.S("files", "all lists of at most two of the paths of the alphabet included from callers in two directories, named absolutely and relative to three kinds of base directory, in a scratch directory", func(t fw.Tier, yield func(xFileCase)) {
				for _, base := range []string{"abs", "slash", "rel", "dot"} {
					for _, caller := range []string{"abs", "rel"} {
						for dir, paths := range map[string][]string{
							"":    {"one.hcl", "sub/two.hcl", "sub/deep/one.hcl", "j.json", "sub/j.json", "./one.hcl", "sub/../three.hcl", "nope.hcl", "nope.json", "bad.hcl", "native.json", "sub", "sub/nope/x.hcl"},
							"sub": {"one.hcl", "two.hcl", "three.hcl", "../one.hcl", "../three.hcl", "deep/one.hcl", "j.json", "../j.json", "../sub/three.hcl", "nope.hcl", "../bad.hcl"},
						} {
							eachSeq(len(paths), 1, 2, func(ix []int) {
								for _, js := range []bool{false, true} {
									c := xFileCase{Base: base, Caller: caller, Dir: dir, JSON: js}
									for _, i := range ix {
										c.Paths = append(c.Paths, paths[i])
									}
									yield(c)
								}
							})
						}
					}
				}
			}, runFiles),
		},
	})
}
