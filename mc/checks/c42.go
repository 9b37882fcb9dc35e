package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"verif/mc/fw"
	"verif/mc/ref"
)

// treeNodes are the parts reachable from a value through the fields that the
// syntax tree has, with the part each is in. A key of an object that is just a
// name has no parts
// unless it is in parentheses.
func treeNodes(src string, v reflect.Value, parent interface{}, found func(n, parent interface{})) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			treeNodes(src, v.Elem(), parent, found)
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		n, ok := v.Interface().(hclsyntax.Node)
		if !ok {
			return
		}
		found(n, parent)
		if k, ok := n.(*hclsyntax.ObjectConsKeyExpr); ok && hcl.ExprAsKeyword(k.Wrapped) != "" && !strings.HasSuffix(strings.TrimSpace(src[:k.Wrapped.Range().Start.Byte]), "(") {
			return
		}
		s := v.Elem()
		for i := 0; i < s.NumField(); i++ {
			if s.Type().Field(i).PkgPath == "" {
				treeNodes(src, s.Field(i), n, found)
			}
		}
	case reflect.Struct:
		// The items of an object.
		if v.Type() == reflect.TypeOf(hclsyntax.ObjectConsItem{}) {
			for i := 0; i < v.NumField(); i++ {
				treeNodes(src, v.Field(i), parent, found)
			}
		}
	case reflect.Slice:
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Struct:
			for i := 0; i < v.Len(); i++ {
				treeNodes(src, v.Index(i), parent, found)
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			treeNodes(src, v.MapIndex(k), parent, found)
		}
	}
}

// walkLog records a walk.
type walkLog struct {
	seen    map[interface{}]int
	parents map[interface{}]interface{}
	stack   []hclsyntax.Node
	enters  []hclsyntax.Node
	diags   []string
	bad     string
	n       int
}

// ident is the node itself, or a description if it cannot be compared.
func nodeIdent(n hclsyntax.Node) interface{} {
	if reflect.TypeOf(n).Comparable() && reflect.TypeOf(n).Kind() == reflect.Ptr {
		return n
	}
	return nil
}

func (w *walkLog) mark(kind string) hcl.Diagnostics {
	w.n++
	if w.n%3 == 0 {
		return nil
	}
	s := fmt.Sprintf("%s %d", kind, w.n)
	w.diags = append(w.diags, s)
	return hcl.Diagnostics{{Severity: hcl.DiagError, Summary: s}}
}

func (w *walkLog) Enter(n hclsyntax.Node) hcl.Diagnostics {
	w.enters = append(w.enters, n)
	var parent interface{}
	for i := len(w.stack) - 1; i >= 0 && parent == nil; i-- {
		parent = nodeIdent(w.stack[i])
	}
	if id := nodeIdent(n); id != nil {
		w.seen[id]++
		w.parents[id] = parent
	}
	if sc, ok := n.(hclsyntax.ChildScope); ok {
		f, ok := parent.(*hclsyntax.ForExpr)
		if !ok {
			w.bad = "a scope outside a loop"
		} else {
			want := map[string]struct{}{f.ValVar: {}}
			if f.KeyVar != "" {
				want[f.KeyVar] = struct{}{}
			}
			if !reflect.DeepEqual(want, sc.LocalNames) {
				w.bad = fmt.Sprintf("the scope of the loop in %v has the names %v", f.Range(), sc.LocalNames)
			}
		}
	}
	w.stack = append(w.stack, n)
	return w.mark("enter")
}

func (w *walkLog) Exit(n hclsyntax.Node) hcl.Diagnostics {
	if len(w.stack) == 0 {
		w.bad = fmt.Sprintf("%T is left but was not entered", n)
		return nil
	}
	top := w.stack[len(w.stack)-1]
	w.stack = w.stack[:len(w.stack)-1]
	if fmt.Sprintf("%T", top) != fmt.Sprintf("%T", n) || nodeIdent(top) != nodeIdent(n) {
		w.bad = fmt.Sprintf("%T is left while in %T", n, top)
	}
	return w.mark("exit")
}

func diagMarks(diags hcl.Diagnostics) string {
	var ret []string
	for _, d := range diags {
		ret = append(ret, d.Summary)
	}
	return strings.Join(ret, ",")
}

func checkWalk(r *fw.Rec, src string) {
	f, diags := hclsyntax.ParseConfig([]byte(src), "t", hcl.InitialPos)
	if diags.HasErrors() {
		return
	}
	r.State(src)
	r.Trace()
	checkWalkNode(r, src, f.Body.(*hclsyntax.Body))
}

func checkWalkNode(r *fw.Rec, src string, root hclsyntax.Node) {
	want := map[interface{}]interface{}{}
	twice := ""
	treeNodes(src, reflect.ValueOf(root), nil, func(n, parent interface{}) {
		if _, ok := want[n]; ok {
			twice = fmt.Sprintf("%T", n)
		}
		want[n] = parent
	})
	if twice != "" {
		r.Count("parts in two places", 1)
	}
	w := &walkLog{seen: map[interface{}]int{}, parents: map[interface{}]interface{}{}}
	r.Op(len(want))
	got := hclsyntax.Walk(root, w)
	if w.bad != "" {
		r.Failf("walk", "%q: %s", src, w.bad)
		return
	}
	if len(w.stack) > 0 {
		r.Failf("open", "%q: %T is entered but not left", src, w.stack[0])
	}
	if g := diagMarks(got); g != strings.Join(w.diags, ",") {
		r.Failf("diags", "%q: the walk returns the messages %s instead of %s", src, g, strings.Join(w.diags, ","))
	}
	where := func(n interface{}) string {
		return fmt.Sprintf("%T at %v", n, n.(hclsyntax.Node).Range())
	}
	var bad []string
	for n, p := range want {
		switch {
		case w.seen[n] == 0:
			bad = append(bad, "not visited: "+where(n))
		case w.seen[n] > 1 && twice == "":
			bad = append(bad, "visited twice: "+where(n))
		case w.parents[n] != p && twice == "":
			bad = append(bad, fmt.Sprintf("%s is visited in %T, not in %T", where(n), w.parents[n], p))
		}
	}
	for n := range w.seen {
		if _, ok := want[n]; !ok {
			bad = append(bad, "visited but not in the tree: "+where(n))
		}
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		r.Failf("nodes", "%q: %s", src, strings.Join(bad, "; "))
		return
	}
	// The simple way visits the same nodes, containers first.
	v := &walkLog{seen: map[interface{}]int{}}
	got = hclsyntax.VisitAll(root, func(n hclsyntax.Node) hcl.Diagnostics {
		if id := nodeIdent(n); id != nil {
			if p := want[id]; p != nil && v.seen[p] == 0 {
				v.bad = fmt.Sprintf("%s is visited before %s", where(id), where(p))
			}
			v.seen[id]++
		}
		v.enters = append(v.enters, n)
		return v.mark("visit")
	})
	if g := diagMarks(got); g != strings.Join(v.diags, ",") {
		r.Failf("visit-diags", "%q: visiting returns the messages %s instead of %s", src, g, strings.Join(v.diags, ","))
	}
	if v.bad != "" {
		r.Failf("visit-order", "%q: %s", src, v.bad)
	}
	if len(v.enters) != len(w.enters) || !reflect.DeepEqual(v.seen, w.seen) {
		r.Failf("visit", "%q: visiting sees %d parts, walking %d", src, len(v.enters), len(w.enters))
	}
}

func init() {
	fw.Register(&fw.Check{
		ID: "C42",
		Assumptions: []string{
			"the parts of a source are those that the exported fields of the syntax tree lead to, except that the name that is the key of an object item is none",
			"the order in which the parts of one part are visited is not judged",
		},
		Suites: []fw.Suite{
			fw.S("expressions", fmt.Sprintf("every expression nested two (thorough: three) deep out of 75 forms and %d others, alone and in pairs, in %d places", len(wMore), len(wExprPlaces)),
				func(t fw.Tier, yield func(fw.StrCase)) {
					each := func(e string) {
						for _, p := range wExprPlaces {
							yield(fw.StrCase(p(e)))
						}
					}
					for _, e := range wMore {
						each(e)
						for _, f := range wMore {
							if !strings.HasSuffix(e, "\n") && !strings.HasSuffix(f, "\n") {
								each("[" + e + ", " + f + "]")
								each("{a=" + e + ", (" + f + ") = 1}")
								each("f(" + e + ")[" + f + "]")
								each("\"${" + e + "}-${" + f + "}\"")
								each("(" + e + ") ? " + f + " : x")
							}
						}
					}
					wExprs(func(n *ref.Node) { each(n.Print(ref.Spaced, true)) })
					if t == fw.Thorough {
						hs := holes()
						x := ref.Attr(ref.Var("x"), "y")
						for _, f := range hs {
							for _, g := range hs {
								for _, h := range hs {
									yield(fw.StrCase("a = " + h(g(f(x))).Print(ref.Spaced, true) + "\n"))
								}
							}
						}
					}
				}, func(r *fw.Rec, c fw.StrCase) { checkWalk(r, string(c)) }),
			fw.S("bodies", fmt.Sprintf("every sequence of up to 3 (thorough 4) lines out of %d kinds of attributes, blocks, comments and blank lines, with %d endings, and of up to 4 (thorough 5) lines that open and close", len(wItems), len(wEndings)),
				func(t fw.Tier, yield func(fw.StrCase)) {
					wItemCases(fw.Pick(t, 3, 4), func(s string) { yield(fw.StrCase(s)) })
					eachSeq(len(layoutLines), 1, fw.Pick(t, 4, 5), func(seq []int) {
						var b strings.Builder
						for i, k := range seq {
							b.WriteString(strings.Replace(layoutLines[k], "@", fmt.Sprintf("n%d", i), -1))
						}
						yield(fw.StrCase(b.String()))
					})
				}, func(r *fw.Rec, c fw.StrCase) { checkWalk(r, string(c)) }),
		},
	})
}
