package checks

import (
	"verif/mc/fw"
	"verif/mc/ref"
)

// Loops nested in one another, in which the same names are bound again.
func init() {
	fw.Extend("C05", fw.S("deep loops", "all chains of at most 3 (thorough 4) loops of four kinds over the names a, b and c, nested in one another, over the elements of the one outside or a fixed list, with uses of all bound names inside and after each",
		func(t fw.Tier, yield func(exprCase)) {
			v := ref.Var
			names := []string{"a", "b", "c"}
			nest := ref.Tuple(ref.Tuple(ref.Tuple(ref.Tuple(ref.Num("1"), ref.Num("2")), ref.Tuple()), ref.Tuple(ref.Tuple(ref.Num("3")))), ref.Tuple(ref.Tuple(ref.Tuple(ref.Num("4"), ref.Str("x")))))
			flat := ref.Tuple(ref.Str("p"), ref.Str("q"))
			eachSeq(24, 1, fw.Pick(t, 3, 4), func(ix []int) {
				if len(ix) == 4 && ix[3]%5 != ix[0]%5 {
					return
				}
				// the names bound so far at each level
				var build func(i int, bound []string, outer string) *ref.Node
				uses := func(bound []string) (ret []*ref.Node) {
					for _, n := range names {
						for _, b := range bound {
							if b == n {
								ret = append(ret, v(n))
								break
							}
						}
					}
					return ret
				}
				build = func(i int, bound []string, outer string) *ref.Node {
					if i == len(ix) {
						return ref.Tuple(uses(bound)...)
					}
					n, kind, fixed := names[ix[i]%3], ix[i]/3%4, ix[i]/12 == 1
					coll := flat
					if !fixed {
						coll = nest
						if outer != "" {
							coll = v(outer)
						}
					}
					key := ""
					if kind > 0 {
						key = "k"
					}
					if kind == 3 {
						key = names[(ix[i]+1)%3]
					}
					inside := append(append([]string(nil), bound...), n)
					if kind == 3 {
						inside = append(inside, key)
					}
					body := build(i+1, inside, n)
					var e *ref.Node
					switch kind {
					case 2:
						e = ref.ForO("k", n, coll, ref.Tmpl(ref.Lit("e"), ref.Interp(v("k"))), ref.Tuple(body, v("k")), false, nil)
					default:
						e = ref.ForT(key, n, coll, body, nil)
					}
					return ref.Tuple(append([]*ref.Node{e}, uses(bound)...)...)
				}
				yield(exprCase{build(0, nil, "")})
			})
		}, func(r *fw.Rec, c exprCase) {
			src := c.T.Print(ref.Spaced, false)
			r.State(src)
			checkEval(r, src, c.T, collEnv, collCtx)
			r.Trace()
		}))
}
