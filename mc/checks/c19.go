package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
)

// An abstract document: a tree of items whose leaves are tokens.

type mTok struct {
	b    string
	orig int // place in the starting document, -1 if generated
}

type mExpr struct {
	toks  []*mTok
	travs [][]*mTok // for each free variable the name of each step, nil for an index
}

type mItem struct {
	kind byte // 'a', 'b', 'c' for a comment, 'n' for an added newline
	pre  []*mTok
	name *mTok
	eq   *mTok
	expr *mExpr
	post []*mTok

	hdr         []*mTok
	typ         string
	labels      []string
	open, close *mTok
	body        *mBody
	oneLine     bool
}

type mBody struct {
	items []*mItem
	head  []*mTok // a comment after the open brace
}

var addedNewline = gen("\n")

func gen(b string) *mTok { return &mTok{b, -1} }

// lexText gives the tokens of a text without newlines, with line comments
// lacking theirs.
func lexText(s string) []string {
	toks, _ := hclsyntax.LexConfig([]byte(s), "", hcl.InitialPos)
	var ret []string
	for _, t := range toks {
		if t.Type != hclsyntax.TokenEOF && t.Type != hclsyntax.TokenNewline {
			ret = append(ret, tokText(t))
		}
	}
	return ret
}

func tokText(t hclsyntax.Token) string {
	if t.Type == hclsyntax.TokenComment {
		return strings.TrimRight(string(t.Bytes), "\n")
	}
	return string(t.Bytes)
}

// mHeredoc is an attribute with a heredoc.
func mHeredoc(name string) *mItem {
	x, y := gen("x"), gen("y")
	it := mA(name, "1")
	it.expr = &mExpr{toks: []*mTok{gen("<<EOT\n"), gen("  t "), gen("${"), x, gen("."), y, gen("}"), gen("\n"), gen("\n"), gen("EOT")}, travs: [][]*mTok{{x, y}}}
	return it
}

// mkExpr reads an expression in which the free variables are in «».
func mkExpr(s string) *mExpr {
	e := &mExpr{}
	for i, part := range strings.FieldsFunc(s, func(r rune) bool { return r == '«' || r == '»' }) {
		toks := lexText(part)
		if strings.HasPrefix(s, "«") == (i%2 == 0) {
			var steps []*mTok
			for j := 0; j < len(toks); j++ {
				t := gen(toks[j])
				e.toks = append(e.toks, t)
				switch {
				case t.b == "[":
					steps = append(steps, nil)
					for t.b != "]" {
						j++
						t = gen(toks[j])
						e.toks = append(e.toks, t)
					}
				case t.b != ".":
					if t.b[0] >= '0' && t.b[0] <= '9' {
						steps = append(steps, nil)
					} else {
						steps = append(steps, t)
					}
				}
			}
			e.travs = append(e.travs, steps)
			continue
		}
		for _, t := range toks {
			e.toks = append(e.toks, gen(t))
		}
	}
	return e
}

func (e *mExpr) text() string {
	var b strings.Builder
	for _, t := range e.toks {
		b.WriteString(t.b)
	}
	return b.String()
}

func mA(name, expr string, post ...string) *mItem {
	it := &mItem{kind: 'a', name: gen(name), eq: gen("="), expr: mkExpr(expr)}
	for _, p := range post {
		it.post = append(it.post, gen(p))
	}
	return it
}

func mC(text string) *mItem { return &mItem{kind: 'c', pre: []*mTok{gen(text)}} }

func mB(typ string, labels []string, oneLine bool, items ...*mItem) *mItem {
	it := &mItem{kind: 'b', typ: typ, labels: labels, hdr: []*mTok{gen(typ)}, open: gen("{"), close: gen("}"), body: &mBody{items: items}, oneLine: oneLine}
	for _, l := range labels {
		for _, t := range lexText(hclQuote(l)) {
			it.hdr = append(it.hdr, gen(t))
		}
	}
	return it
}

// hclQuote quotes a label of the alphabet.
func hclQuote(s string) string {
	s = strings.Replace(s, `"`, `\"`, -1)
	return `"` + strings.Replace(s, "${", "$${", -1) + `"`
}

func (b *mBody) flat(to []*mTok) []*mTok {
	to = append(to, b.head...)
	for _, it := range b.items {
		to = append(to, it.pre...)
		switch it.kind {
		case 'n':
			to = append(to, addedNewline)
		case 'a':
			to = append(to, it.name, it.eq)
			to = append(to, it.expr.toks...)
		case 'b':
			to = append(to, it.hdr...)
			to = append(to, it.open)
			to = it.body.flat(to)
			to = append(to, it.close)
		}
		to = append(to, it.post...)
	}
	return to
}

// src writes a starting document.
func (b *mBody) src(indent string) string {
	var s strings.Builder
	for _, t := range b.head {
		s.WriteString(" " + t.b + "\n")
	}
	for _, it := range b.items {
		s.WriteString(indent)
		for _, t := range it.pre {
			s.WriteString(t.b)
			if it.kind != 'c' {
				s.WriteString(" ")
			}
		}
		switch it.kind {
		case 'a':
			s.WriteString(it.name.b + "=")
			for i, t := range it.expr.toks {
				if i > 0 && wordy(it.expr.toks[i-1].b) && wordy(t.b) {
					s.WriteString(" ")
				}
				s.WriteString(t.b)
			}
		case 'b':
			s.WriteString(it.typ)
			for _, l := range it.labels {
				s.WriteString(" " + hclQuote(l))
			}
			s.WriteString(" {")
			if it.oneLine {
				s.WriteString(" " + strings.TrimRight(it.body.src(""), "\n") + " ")
			} else {
				if len(it.body.head) == 0 {
					s.WriteString("\n")
				}
				s.WriteString(it.body.src(indent+"  ") + indent)
			}
			s.WriteString("}")
		}
		for _, t := range it.post {
			s.WriteString(" " + t.b)
		}
		s.WriteString("\n")
	}
	return s.String()
}

func wordy(s string) bool {
	c := s[0]
	return c >= 'a' && c <= 'z' || c >= '0' && c <= '9'
}

// wDocs are the starting documents. They are built anew for every run.
func wDocs() []*mBody {
	head := func(b *mBody, c string) *mBody {
		b.head = []*mTok{gen(c)}
		return b
	}
	withHead := func(it *mItem, c string) *mItem {
		head(it.body, c)
		return it
	}
	pre := func(it *mItem, c ...string) *mItem {
		for _, s := range c {
			it.pre = append(it.pre, gen(s))
		}
		return it
	}
	return []*mBody{
		{},
		{items: []*mItem{mC("# only")}},
		{items: []*mItem{mA("a", "«x.y»"), mA("b", "1")}},
		{items: []*mItem{mC("# lead"), mA("a", "«x.y.z»+«x»*f(«x.y[0].y»)", "# line"), mC(""), mC("// other"), mB("blk", nil, false, mA("a", "«x»"))}},
		{items: []*mItem{mB("blk", []string{"l", `q"${`}, false, mC("/* in */"), mB("sub", nil, false, mA("z", "[«x.y»,«for1»]")), mC("# end")), mA("a", `"t${«x.y»}"`)}},
		{items: []*mItem{mB("blk", nil, true, mA("a", "«x.y[\"k\"]»")), mB("blk", []string{"m"}, true), mA("c", "{a=«x»}")}},
		{items: []*mItem{withHead(mB("blk", nil, false, mA("a", "[for x in «x.y»:x.y]", "# l")), "# after"), mC("/* z */")}},
		{items: []*mItem{pre(mA("a", "(«x»)", "/* i */", "# l"), "/* p */"), mA("bb", "-«xx.y»"), mB("blk", nil, true)}},
		{items: []*mItem{mB("blk", nil, false), mB("blk", nil, false, mB("sub", []string{"s"}, false), mB("sub", nil, true, mA("n", "«x.0.y»")))}},
		{items: []*mItem{mA("a", "«x»[«x.y»]"), mA("n", "«x.y»?«y»:«x.z»", "// c")}},
		{items: []*mItem{mB("blk", nil, true, &mItem{kind: 'c', pre: []*mTok{gen("/* only */")}}), mA("a", "«x».*.y")}},
		{items: []*mItem{mHeredoc("a"), mC("# c"), mB("blk", nil, false, mHeredoc("n"))}},
	}
}

// wEdit is one step of an edit sequence.
type wEdit struct {
	Op int
	At string // path of the body: a digit is a block's index, '$' the last block
}

type wEditCase struct {
	Doc    int
	NoEnd  bool // no newline at the end
	Edits  []wEdit
	Silent bool // nothing is written or asked in between
}

// find gives the body at a path in both trees.
func (c wEdit) find(m *mBody, w *hclwrite.Body) (*mBody, *hclwrite.Body) {
	for _, p := range c.At {
		var blocks []*mItem
		for _, it := range m.items {
			if it.kind == 'b' {
				blocks = append(blocks, it)
			}
		}
		i := int(p - '0')
		if p == '$' {
			i = len(blocks) - 1
		}
		wb := w.Blocks()
		if i < 0 || i >= len(blocks) || i >= len(wb) {
			return nil, nil
		}
		m, w = blocks[i].body, wb[i].Body()
	}
	return m, w
}

func (b *mBody) attr(name string) *mItem {
	for _, it := range b.items {
		if it.kind == 'a' && it.name.b == name {
			return it
		}
	}
	return nil
}

func (b *mBody) set(name, expr string) {
	if it := b.attr(name); it != nil {
		it.expr = mkExpr(expr)
		return
	}
	b.items = append(b.items, mA(name, expr))
}

func (b *mBody) rename(from, to []string) {
	for _, it := range b.items {
		if it.kind != 'a' {
			continue
		}
	travs:
		for _, steps := range it.expr.travs {
			if len(steps) < len(from) {
				continue
			}
			for i, n := range from {
				if steps[i] == nil || steps[i].b != n {
					continue travs
				}
			}
			for i, n := range to {
				steps[i].b = n
			}
		}
	}
}

var wTrav = hcl.Traversal{hcl.TraverseRoot{Name: "x"}, hcl.TraverseAttr{Name: "y"}, hcl.TraverseIndex{Key: str("k")}, hcl.TraverseIndex{Key: num("0")}, hcl.TraverseAttr{Name: "z"}}

// wEdits are the edits: each changes the model and the real tree, and
// describes what is wrong with what the real one returns.
var wEdits = []struct {
	name string
	f    func(m *mBody, w *hclwrite.Body) string
}{
	{"set a 1", func(m *mBody, w *hclwrite.Body) string {
		m.set("a", "1")
		return sameAttr(w, "a", w.SetAttributeValue("a", num("1")))
	}},
	{"set n s", func(m *mBody, w *hclwrite.Body) string {
		m.set("n", `"s$${x}"`)
		return sameAttr(w, "n", w.SetAttributeValue("n", str("s${x}")))
	}},
	{"ref a", func(m *mBody, w *hclwrite.Body) string {
		m.set("a", `«x.y["k"][0].z»`)
		return sameAttr(w, "a", w.SetAttributeTraversal("a", wTrav))
	}},
	{"ref n", func(m *mBody, w *hclwrite.Body) string {
		m.set("n", `«x»`)
		return sameAttr(w, "n", w.SetAttributeTraversal("n", wTrav[:1]))
	}},
	{"new block", func(m *mBody, w *hclwrite.Body) string {
		m.items = append(m.items, mB("blk", nil, false))
		return sameBlock(w, w.AppendNewBlock("blk", nil))
	}},
	{"newline", func(m *mBody, w *hclwrite.Body) string {
		m.items = append(m.items, &mItem{kind: 'n'})
		w.AppendNewline()
		return ""
	}},
	{"clear", func(m *mBody, w *hclwrite.Body) string {
		m.items, m.head = nil, nil
		w.Clear()
		return ""
	}},
	{"rename x", func(m *mBody, w *hclwrite.Body) string {
		m.rename([]string{"x"}, []string{"ww"})
		for _, a := range w.Attributes() {
			a.Expr().RenameVariablePrefix([]string{"x"}, []string{"ww"})
		}
		return ""
	}},
	{"rename x.y", func(m *mBody, w *hclwrite.Body) string {
		m.rename([]string{"x", "y"}, []string{"v", "u_much-longer"})
		for _, a := range w.Attributes() {
			a.Expr().RenameVariablePrefix([]string{"x", "y"}, []string{"v", "u_much-longer"})
		}
		return ""
	}},
	{"new labelled block", func(m *mBody, w *hclwrite.Body) string {
		m.items = append(m.items, mB("zz", []string{"l", `q"${`}, false))
		return sameBlock(w, w.AppendNewBlock("zz", []string{"l", `q"${`}))
	}},
	{"append block", func(m *mBody, w *hclwrite.Body) string {
		m.items = append(m.items, mB("pre", []string{"p"}, false, mA("a", "true"), mB("sub", nil, false, mA("n", "«x.y»"))))
		b := hclwrite.NewBlock("pre", []string{"p"})
		b.Body().SetAttributeValue("a", cty.True)
		b.Body().AppendNewBlock("sub", nil).Body().SetAttributeTraversal("n", wTrav[:2])
		return sameBlock(w, w.AppendBlock(b))
	}},
	{"comment", func(m *mBody, w *hclwrite.Body) string {
		m.items = append(m.items, &mItem{kind: 'n'}, mC("# u"))
		w.AppendNewline()
		w.AppendUnstructuredTokens(hclwrite.Tokens{{Type: hclsyntax.TokenComment, Bytes: []byte("# u\n")}})
		return ""
	}},
	{"set q object", func(m *mBody, w *hclwrite.Body) string {
		m.set("q", `{k=[null,-1]}`)
		return sameAttr(w, "q", w.SetAttributeValue("q", obj("k", tup(cty.NullVal(cty.String), num("-1")))))
	}},
}

func sameAttr(w *hclwrite.Body, name string, a *hclwrite.Attribute) string {
	if a == nil || w.GetAttribute(name) != a {
		return "the attribute returned is not the one of the body"
	}
	return ""
}

func sameBlock(w *hclwrite.Body, b *hclwrite.Block) string {
	bs := w.Blocks()
	if len(bs) == 0 || bs[len(bs)-1] != b {
		return "the block returned is not the last one of the body"
	}
	return ""
}

// sameTree compares what the accessors give with the model.
func sameTree(r *fw.Rec, m *mBody, w *hclwrite.Body) string {
	r.Op(1)
	want, blocks := map[string]*mItem{}, []*mItem{}
	for _, it := range m.items {
		if it.kind == 'a' {
			want[it.name.b] = it
		} else if it.kind == 'b' {
			blocks = append(blocks, it)
		}
	}
	attrs := w.Attributes()
	if len(attrs) != len(want) {
		return fmt.Sprintf("%d attributes instead of %d", len(attrs), len(want))
	}
	for name, it := range want {
		a := attrs[name]
		if a == nil || w.GetAttribute(name) != a {
			return fmt.Sprintf("attribute %s is missing or different", name)
		}
		if got := strings.Replace(wBare(a.Expr().BuildTokens(nil)), "\n", "", -1); got != strings.Replace(it.expr.text(), "\n", "", -1) {
			return fmt.Sprintf("expression of %s is %s instead of %s", name, got, it.expr.text())
		}
		var vars []string
		for _, v := range a.Expr().Variables() {
			vars = append(vars, wBare(v.BuildTokens(nil)))
		}
		if len(vars) != len(it.expr.travs) {
			return fmt.Sprintf("expression of %s has the variables %q instead of %d", name, vars, len(it.expr.travs))
		}
	}
	for _, name := range []string{"a", "n", "nope", "blk"} {
		if (w.GetAttribute(name) != nil) != (want[name] != nil) {
			return fmt.Sprintf("attribute %s is reported wrongly", name)
		}
	}
	bs := w.Blocks()
	if len(bs) != len(blocks) {
		return fmt.Sprintf("%d blocks instead of %d", len(bs), len(blocks))
	}
	for i, it := range blocks {
		if !strings.Contains(wBare(bs[i].BuildTokens(nil)), it.typ) {
			return fmt.Sprintf("block %d is not a %s", i, it.typ)
		}
		if e := sameTree(r, it.body, bs[i].Body()); e != "" {
			return fmt.Sprintf("in block %d: %s", i, e)
		}
	}
	return ""
}

// parsedTree compares a parsed body with the model.
func parsedTree(m *mBody, b *hclsyntax.Body) string {
	var got, want []string
	for _, it := range m.items {
		switch it.kind {
		case 'a':
			want = append(want, it.name.b)
			a := b.Attributes[it.name.b]
			if a == nil {
				return "attribute " + it.name.b + " is missing"
			}
		}
	}
	for n := range b.Attributes {
		got = append(got, n)
	}
	sort.Strings(got)
	sort.Strings(want)
	if !eqStrs(got, want) {
		return fmt.Sprintf("attributes are %q instead of %q", got, want)
	}
	i := 0
	for _, it := range m.items {
		if it.kind != 'b' {
			continue
		}
		if i >= len(b.Blocks) {
			return "block is missing"
		}
		bl := b.Blocks[i]
		if bl.Type != it.typ || !eqStrs(bl.Labels, it.labels) {
			return fmt.Sprintf("block %d is %s %q instead of %s %q", i, bl.Type, bl.Labels, it.typ, it.labels)
		}
		if e := parsedTree(it.body, bl.Body); e != "" {
			return fmt.Sprintf("in block %d: %s", i, e)
		}
		i++
	}
	if i != len(b.Blocks) {
		return "there are more blocks"
	}
	return ""
}

// gaps gives the tokens of a source other than newlines, and how many
// newlines are before each of them.
func gaps(src []byte) (texts []string, nl []int) {
	toks, _ := hclsyntax.LexConfig(src, "", hcl.InitialPos)
	n := 0
	for _, t := range toks {
		switch t.Type {
		case hclsyntax.TokenNewline:
			n++
			continue
		case hclsyntax.TokenEOF:
			continue
		}
		texts = append(texts, tokText(t))
		nl = append(nl, n)
		n = bytes.Count(t.Bytes, []byte("\n"))
		if t.Type != hclsyntax.TokenComment {
			n = 0
		}
	}
	return texts, nl
}

func runEdits(r *fw.Rec, c wEditCase) {
	m := wDocs()[c.Doc]
	// blank lines are comments without text
	src := m.src("")
	if c.NoEnd {
		src = strings.TrimRight(src, "\n")
	}
	var dropBlank func(b *mBody)
	dropBlank = func(b *mBody) {
		var items []*mItem
		for _, it := range b.items {
			if it.kind == 'c' && it.pre[0].b == "" {
				continue
			}
			if it.kind == 'b' {
				dropBlank(it.body)
			}
			items = append(items, it)
		}
		b.items = items
	}
	dropBlank(m)
	orig := m.flat(nil)
	for i, t := range orig {
		t.orig = i
	}
	texts, origNL := gaps([]byte(src))
	fail := func(step int, e string) {
		var names []string
		for _, ed := range c.Edits[:step+1] {
			names = append(names, wEdits[ed.Op].name+" in /"+ed.At)
		}
		r.Failf("", "%q after %s: %s", src, strings.Join(names, ", "), e)
	}
	f, diags := hclwrite.ParseConfig([]byte(src), "t", hcl.InitialPos)
	if diags.HasErrors() || len(texts) != len(orig) {
		panic(fmt.Sprintf("starting document %q: %s, %d tokens instead of %d", src, diagsStr(diags), len(texts), len(orig)))
	}
	if src == "" && c.NoEnd {
		f = hclwrite.NewEmptyFile()
		if c.Silent {
			f = hclwrite.NewFile()
		}
	}
	for i, ed := range c.Edits {
		mb, wb := ed.find(m, f.Body())
		if mb == nil {
			return // there is no such block
		}
		if e := wEdits[ed.Op].f(mb, wb); e != "" {
			fail(i, e)
			return
		}
		r.Op(1)
		last := i == len(c.Edits)-1
		if c.Silent && !last {
			continue
		}
		if e := sameTree(r, m, f.Body()); e != "" {
			fail(i, e)
			return
		}
		out := f.Bytes()
		if !last {
			continue
		}
		parsed, diags := hclsyntax.ParseConfig(out, "t", hcl.InitialPos)
		if diags.HasErrors() {
			fail(i, fmt.Sprintf("written as %q: %s", out, diagsStr(diags)))
			return
		}
		got, nl := gaps(out)
		var want []*mTok
		var extra []int // newlines added before each of them
		added := 0
		for _, t := range m.flat(nil) {
			if t == addedNewline {
				added++
				continue
			}
			want, extra = append(want, t), append(extra, added)
			added = 0
		}
		for k := 0; k < len(got) || k < len(want); k++ {
			if k >= len(got) || k >= len(want) || got[k] != want[k].b {
				fail(i, fmt.Sprintf("written as %q, expected the tokens %q", out, toksText(want)))
				return
			}
			// Newlines between tokens that were next to each other before
			// are as before, except in a body that is no longer on one line.
			if k > 0 && got[k-1] == "{" && got[k] == "}" {
				continue // it may have been cleared
			}
			if k > 0 && want[k].orig > 0 && want[k-1].orig == want[k].orig-1 && nl[k] != origNL[want[k].orig]+extra[k] {
				if origNL[want[k].orig] == 0 && nl[k] == 1+extra[k] && (got[k-1] == "{" || got[k] == "}" || strings.HasPrefix(got[k-1], "/*")) {
					continue
				}
				fail(i, fmt.Sprintf("written as %q, with %d newlines before %q instead of %d", out, nl[k], got[k], origNL[want[k].orig]+extra[k]))
				return
			}
			if nl[k] < extra[k] {
				fail(i, fmt.Sprintf("written as %q, with only %d newlines before %q, where %d were added", out, nl[k], got[k], extra[k]))
				return
			}
		}
		if e := parsedTree(m, parsed.Body.(*hclsyntax.Body)); e != "" {
			fail(i, fmt.Sprintf("written as %q: %s", out, e))
			return
		}
		if again := f.Bytes(); !bytes.Equal(again, out) {
			fail(i, fmt.Sprintf("written as %q and then %q", out, again))
			return
		}
		if e := sameTree(r, m, f.Body()); e != "" {
			fail(i, "after writing: "+e)
			return
		}
		r.StateB("", out)
	}
	r.Trace()
}

func toksText(ts []*mTok) []string {
	var ret []string
	for _, t := range ts {
		ret = append(ret, t.b)
	}
	return ret
}

func init() {
	paths := []string{"", "0", "$", "00", "$$"}
	var all, some []wEdit
	for op := range wEdits {
		for _, p := range paths {
			all = append(all, wEdit{op, p})
			if op < 9 && (p == "" || p == "$") {
				some = append(some, wEdit{op, p})
			}
		}
	}
	seqs := func(t fw.Tier, doc int, edits []wEdit, min, max int, yield func(wEditCase)) {
		eachSeq(len(edits), min, max, func(idx []int) {
			c := wEditCase{Doc: doc}
			for _, i := range idx {
				c.Edits = append(c.Edits, edits[i])
			}
			for v := 0; v < 4; v++ {
				c.NoEnd, c.Silent = v&1 != 0, v&2 != 0
				if c.Silent && len(idx) < 2 || len(idx) > 2 && c.NoEnd == c.Silent {
					continue
				}
				yield(c)
			}
		})
	}
	fw.Register(&fw.Check{
		ID: "C19",
		Suites: []fw.Suite{
			fw.S("edits", fmt.Sprintf("every sequence of up to 2 (thorough 3) edits out of %d kinds at %d places in %d starting documents, with and without a final newline, written at every step or only at the end", len(wEdits), len(paths), len(wDocs())),
				func(t fw.Tier, yield func(wEditCase)) {
					for d := range wDocs() {
						seqs(t, d, all, 1, fw.Pick(t, 2, 3), yield)
					}
				}, runEdits),
			fw.S("long", fmt.Sprintf("every sequence of 3 (thorough 4) edits out of %d in %d starting documents", len(some), len(wDocs())),
				func(t fw.Tier, yield func(wEditCase)) {
					for d := range wDocs() {
						seqs(t, d, some, fw.Pick(t, 3, 4), fw.Pick(t, 3, 4), yield)
					}
				}, runEdits),
		},
	})
}
