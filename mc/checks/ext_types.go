package checks

import (
	"verif/mc/fw"
)

// typeSpecCases enumerates pairs of specifications of blocks of two types,
// with bodies in which these are mixed.
func typeSpecCases(t fw.Tier, yield func(specCase)) {
	kinds := func(name string) []*sNode {
		var ret []*sNode
		for _, x := range []*sNode{sAttr("a", "string", false), sObj(sAttr("a", "string", false), sAttr("b", "any", false))} {
			for _, k := range []string{"block", "list", "tuple", "set"} {
				ret = append(ret, &sNode{K: k, Name: name, X: []*sNode{x}})
			}
			ret = append(ret, &sNode{K: "object", Name: name, Labels: 1, X: []*sNode{x}})
			if x.K == "attr" {
				ret = append(ret, &sNode{K: "map", Name: name, Labels: 1, X: []*sNode{x}}, &sNode{K: "attrs", Name: name, Ty: "string"})
			}
		}
		return ret
	}
	items := func(n *sNode, v int) []*bItem {
		var ret []*bItem
		labels := [][]string{nil, nil}
		if n.Labels > 0 {
			labels = [][]string{{"x"}, {"y"}}
		}
		vals := []string{"v", "u", "2", "true"}
		for i, l := range labels {
			body := []*bItem{bAttr("a", vals[(v+i)%4])}
			if n.K == "attrs" || n.X[0].K == "obj" {
				body = append(body, bAttr("b", vals[(v+2*i+1)%4]))
			}
			ret = append(ret, bBlock(n.Name, l, body...))
		}
		return ret
	}
	for _, x := range kinds("blk") {
		for _, y := range kinds("other") {
			for _, s := range []*sNode{sDef(x, y), sDef(y, x), sObj(x, y), sTup(y, x)} {
				max := fw.Pick(t, 2, 4)
				if s.K == "default" {
					max = fw.Pick(t, 3, 4)
				}
				if s.schema().bad || s.K == "default" && !x.ty().Equals(y.ty()) {
					continue
				}
				for v := 0; v < fw.Pick(t, 2, 4); v++ {
					use := append(items(x, v), items(y, v+1)...)
					eachSeq(len(use), 0, max, func(seq []int) {
						var body []*bItem
						for _, i := range seq {
							body = append(body, use[i])
						}
						yield(specCase{Spec: s, More: body})
					})
				}
			}
		}
	}
}

func init() {
	bounds := "all pairs of kinds of block specifications of two block types of the same type as alternatives, and as object or tuple, each with every body of up to 3 (thorough 4) blocks out of two of each type (objects and tuples: up to 2)"
	fw.Extend("C22", fw.S("types", bounds, typeSpecCases, checkSpec))
	fw.Extend("C23", fw.S("types", bounds, typeSpecCases, checkConforms))
	fw.Extend("C09", fw.S("types", bounds, typeSpecCases, checkSpecVars))
}
