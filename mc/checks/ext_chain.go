package checks

import (
	"fmt"

	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/hcl"
	"verif/mc/fw"
)

// chainOps are transformations whose order matters.
var chainOps = []string{"warn1", "warn2", "add", "remove"}

// chainTrCase is a chain of transformations, possibly of chains, of a body.
type chainTrCase struct {
	Items []*xItem
	JSON  bool `json:",omitempty"`
	Ops   []int
	Cut   int // the operations before it are a chain of their own
	Deep  bool
	Modes []int
}

func runTransforms(r *fw.Rec, c chainTrCase) {
	body, src := parseX(r, xCase{Items: c.Items, JSON: c.JSON})
	if body == nil {
		return
	}
	r.State(src, fmt.Sprint(c.Ops, c.Cut, c.Deep, c.Modes))
	r.Trace()
	added, _ := parseX(r, xCase{Items: []*xItem{{K: "a", Name: "b", Val: 9}}})
	var ts []transform.Transformer
	for _, op := range c.Ops {
		op := chainOps[op]
		ts = append(ts, transform.TransformerFunc(func(b hcl.Body) hcl.Body {
			switch op {
			case "add":
				return hcl.MergeBodies([]hcl.Body{b, added})
			case "remove":
				_, rest, diags := b.PartialContent(xSchema("b", ""))
				return transform.BodyWithDiagnostics(rest, diags)
			}
			return transform.BodyWithDiagnostics(b, hcl.Diagnostics{xDiag(hcl.DiagWarning, "W:"+op)})
		}))
	}
	if c.Cut > 0 {
		ts = append([]transform.Transformer{transform.Chain(append([]transform.Transformer{}, ts[:c.Cut]...))}, ts[c.Cut:]...)
	}
	t := transform.Chain(ts)
	var want func(items []*xItem, depth int) *xBody
	want = func(items []*xItem, depth int) *xBody {
		ret := xPlain(items, func(items []*xItem) *xBody { return want(items, depth+1) })
		if depth > 0 && !c.Deep {
			return ret
		}
		for _, op := range c.Ops {
			switch op := chainOps[op]; op {
			case "add":
				if _, ok := ret.attrs["b"]; ok {
					ret.err = true
				}
				ret.attrs["b"] = 9
			case "remove":
				if ret.err {
					// Whether removing both removes the error is not judged.
					ret.bad = -1
				}
				delete(ret.attrs, "b")
			default:
				ret.marks = append(ret.marks, "W:"+op)
			}
		}
		return ret
	}
	w := want(c.Items, 0)
	if unjudged(w) {
		return
	}
	x := &xCheck{r: r, desc: fmt.Sprintf("%s transformed by the chain %v (%d before), deep=%v", src, c.Ops, c.Cut, c.Deep), modes: c.Modes}
	if c.Deep {
		x.read(transform.Deep(body, t), w, "root", 0)
	} else {
		x.read(transform.Shallow(body, t), w, "root", 0)
	}
}

func unjudged(b *xBody) bool {
	if b.bad < 0 {
		return true
	}
	for _, bs := range b.blocks {
		for _, x := range bs {
			if unjudged(x) {
				return true
			}
		}
	}
	return false
}

func init() {
	fw.Extend("C29", fw.S("chains", "all chains of at most three (thorough: four) of 4 transformations, also with a chain in the chain, of all bodies of at most two items of one level, shallow and deep", func(t fw.Tier, yield func(chainTrCase)) {
		trees := xTrees(1, []string{"a", "b"}, []string{"x", "y"}, 2)
		eachSeq(len(chainOps), 0, fw.Pick(t, 3, 4), func(ops []int) {
			ops = append([]int{}, ops...)
			for cut := 0; cut < max(len(ops), 1); cut++ {
				for i, tree := range trees {
					if t == fw.Quick && len(ops) == 3 && i%3 != cut {
						continue
					}
					for _, js := range []bool{false, true} {
						for _, deep := range []bool{false, true} {
							yield(chainTrCase{Items: tree, JSON: js, Ops: ops, Cut: cut, Deep: deep, Modes: []int{0, 0}})
							yield(chainTrCase{Items: tree, JSON: js, Ops: ops, Cut: cut, Deep: deep, Modes: []int{3, 2}})
						}
					}
				}
			}
		})
	}, runTransforms))
}
