package checks

import (
	"fmt"
	"reflect"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"verif/mc/fw"
)

// goMapCase decodes a body, given as indexes into sItems, into a map.
type goMapCase struct {
	Ty    string
	Items []int
}

var goMapTypes = []string{"map[string]string", "map[string]int", "map[string]bool", "map[string]attr", "map[string]expr", "map[string]value"}

func checkGoMap(r *fw.Rec, c goMapCase) {
	var items []*bItem
	blocks := false
	for _, i := range c.Items {
		items = append(items, sItems[i])
		blocks = blocks || sItems[i].Blk
	}
	t := gTypes[c.Ty]
	for _, isJSON := range []bool{false, true} {
		if isJSON && blocks {
			continue // a block is an attribute there
		}
		body, src, msg := sBody(items, isJSON)
		if body == nil {
			r.Failf("", "%q is rejected: %s", src, msg)
			return
		}
		r.State(src, c.Ty)
		for _, filled := range []bool{false, true} {
			target := reflect.New(t)
			if filled {
				m := reflect.MakeMap(t)
				m.SetMapIndex(reflect.ValueOf("zz"), reflect.Zero(t.Elem()))
				target.Elem().Set(m)
			}
			diags := gohcl.DecodeBody(body, sCtx, target.Interface())
			r.Op(1)
			got := target.Elem()
			bad := blocks
			n := 0
			for _, it := range items {
				if it.Blk {
					continue
				}
				n++
				v := sValOf(it.Val)
				e := got.MapIndex(reflect.ValueOf(it.Name))
				if !e.IsValid() {
					r.Failf("", "decoding %q into %s: %s is missing", src, c.Ty, it.Name)
					return
				}
				switch c.Ty {
				case "map[string]attr", "map[string]expr":
					var x hcl.Expression
					if a, ok := e.Interface().(*hcl.Attribute); ok {
						x = a.Expr
						if a.Name != it.Name {
							r.Failf("", "decoding %q into %s: attribute %s under %s", src, c.Ty, a.Name, it.Name)
						}
					} else {
						x = e.Interface().(hcl.Expression)
					}
					if xv, xd := x.Value(sCtx); xd.HasErrors() != v.Err || !v.Err && !xv.RawEquals(v.V) {
						r.Failf("", "decoding %q into %s: %s is %#v instead of %#v", src, c.Ty, it.Name, xv, v.V)
						return
					}
				default:
					want, ok := gValue(v.V, t.Elem())
					if v.Err || !ok {
						bad = true
					} else if s := gDump(e); s != want {
						r.Failf("", "decoding %q into %s: %s is %s instead of %s", src, c.Ty, it.Name, s, want)
						return
					}
				}
			}
			if got.Len() != n {
				r.Failf("", "decoding %q into %s gives %d elements instead of %d", src, c.Ty, got.Len(), n)
				return
			}
			if diags.HasErrors() != bad {
				r.Failf("", "decoding %q into %s: errors %s, expected %v", src, c.Ty, diagsStr(diags), bad)
				return
			}
		}
		r.Trace()
	}
}

func init() {
	fw.Extend("C24", fw.S("maps", fmt.Sprintf("every body of up to 3 (thorough 4) items out of %d, all but a few of them attributes, into %d kinds of maps, natively and in JSON, into zero and other targets", len(sItems), len(goMapTypes)),
		func(t fw.Tier, yield func(goMapCase)) {
			var use []int
			n := 0
			for i, it := range sItems {
				if it.Blk {
					if n++; n > 2 {
						continue
					}
				}
				use = append(use, i)
			}
			eachSeq(len(use), 0, fw.Pick(t, 3, 4), func(seq []int) {
				seen := map[string]bool{}
				var idx []int
				for _, k := range seq {
					it := sItems[use[k]]
					if !it.Blk && seen[it.Name] {
						return
					}
					seen[it.Name] = true
					idx = append(idx, use[k])
				}
				for _, ty := range goMapTypes {
					yield(goMapCase{ty, idx})
				}
			})
		}, checkGoMap))
}
