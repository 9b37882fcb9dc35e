package checks

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcldec"
	"verif/mc/fw"
)

// labelNested are specifications of the bodies of blocks that may read up to
// two labels.
var labelNested = []*sNode{
	sAttr("a", "string", false), sLabel(0), sLabel(1), sDef(sLabel(0), sLabel(1)), sDef(sAttr("a", "string", false), sLabel(1)), sTup(sLabel(1), sLabel(0), sAttr("a", "string", false)), sObj(sLabel(0), sLit("d")), {K: "attrs", Name: "blk", Ty: "string"},
}

var labelVals = []string{"v", "u", "2", "null"}

// labelSpecCases enumerates specifications of labelled blocks, with bodies of
// blocks of all labels.
func labelSpecCases(t fw.Tier, yield func(specCase)) {
	for _, x := range labelNested {
		var specs []*sNode
		for _, k := range []string{"block", "list", "tuple", "set"} {
			specs = append(specs, &sNode{K: k, Name: "blk", X: []*sNode{x}})
			if k != "block" {
				specs = append(specs, &sNode{K: k, Name: "blk", Max: 1, X: []*sNode{x}}, &sNode{K: k, Name: "blk", Min: 1, Max: 2, X: []*sNode{x}})
			}
		}
		for l := 1; l <= 3; l++ {
			specs = append(specs, &sNode{K: "map", Name: "blk", Labels: l, X: []*sNode{x}}, &sNode{K: "object", Name: "blk", Labels: l, X: []*sNode{x}})
		}
		for _, s := range specs {
			l := s.Labels + x.labelCount()
			var all [][]string
			eachSeq(2, l, l, func(seq []int) {
				var ls []string
				for _, i := range seq {
					ls = append(ls, "xy"[i:i+1])
				}
				all = append(all, ls)
			})
			max := 3
			if l > fw.Pick(t, 2, 3) {
				max = 2
			}
			for v := range labelVals {
				if _, ok := x.schema().attrs["a"]; v > 0 && !ok && x.K != "attrs" {
					break
				}
				if v > 0 && l > 2 && t == fw.Quick {
					break
				}
				eachSeq(len(all), 1, max, func(seq []int) {
					var items []*bItem
					for i, k := range seq {
						if x.K == "attrs" {
							items = append(items, bBlock("blk", all[k], bBlock("blk", nil, bAttr("a", labelVals[(v+i)%len(labelVals)]))))
						} else if _, ok := x.schema().attrs["a"]; !ok {
							items = append(items, bBlock("blk", all[k]))
						} else {
							items = append(items, bBlock("blk", all[k], bAttr("a", labelVals[(v+i)%len(labelVals)])))
						}
					}
					yield(specCase{Spec: s, More: items})
				})
			}
		}
	}
}

// checkWhere checks which block is reported to be one too many.
func checkWhere(r *fw.Rec, c specCase) {
	_, d, ok := runModel(c.Spec, c.More, false, true, false)
	if !ok || len(d.errs) == 0 {
		return
	}
	var bad int
	seen := map[string]bool{}
	switch c.Spec.K {
	case "block":
		bad = 1
	case "map", "object":
		for i, it := range c.More {
			k := strings.Join(it.Labels[:c.Spec.Labels], " ")
			if seen[k] {
				bad = i
				break
			}
			seen[k] = true
		}
	default:
		bad = c.Spec.Max
	}
	if bad == 0 || bad >= len(c.More) {
		return
	}
	body, src, marked, msg := sBodyMarked(c.More, false)
	if body == nil {
		r.Failf("", "%q is rejected: %s", src, msg)
		return
	}
	r.State(src, c.Spec.String())
	_, diags := hcldec.Decode(body, c.Spec.spec(), sCtx)
	r.Op(1)
	at := marked[bad].full
	for _, d := range diags {
		if d.Severity != hcl.DiagError {
			continue
		}
		if d.Subject == nil || d.Subject.Start.Byte < at[0] || d.Subject.End.Byte > at[1] {
			r.Failf("", "decoding %q with %s: %s is not in block %d", src, c.Spec, diagsStr(hcl.Diagnostics{d}), bad)
			return
		}
		break // there may be more duplicates
	}
	r.Trace()
}

func init() {
	bounds := fmt.Sprintf("every kind of block specification, those by label with up to 3 labels, of %d nested ones that read up to 2 labels, each with every body of up to 3 blocks (2 when there are more than 2 labels; thorough 3) over all labels of two", len(labelNested))
	fw.Extend("C22", fw.S("labels", bounds, labelSpecCases, checkSpec), fw.S("excess", bounds+": the first error is about the first block in excess or with a key seen before", labelSpecCases, checkWhere))
	fw.Extend("C23", fw.S("labels", bounds, labelSpecCases, checkConforms))
	fw.Extend("C09", fw.S("labels", bounds, labelSpecCases, checkSpecVars))
}
