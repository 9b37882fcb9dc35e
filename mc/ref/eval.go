package ref

import (
	"math/big"
	"sort"
	"strings"
	"unicode"

	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"github.com/zclconf/go-cty/cty/function"
)

// Out is the outcome of an evaluation: a value, an error, or Any where the
// specification leaves the outcome open.
type Out struct {
	V   cty.Value
	Err bool
	Any bool
	T   cty.Type // of an erroneous result, where it is determined
}

func val(v cty.Value) Out  { return Out{V: v} }
func fail() Out            { return Out{Err: true, T: cty.DynamicPseudoType} }
func failT(t cty.Type) Out { return Out{Err: true, T: t} }
func anything() Out        { return Out{Any: true} }
func (o Out) OK() bool     { return !o.Err && !o.Any }
func pass(o Out, t cty.Type) Out {
	if o.Any {
		return o
	}
	return failT(t)
}

// Fn is a function of the model.
type Fn struct {
	Params   []Param
	Variadic *Param
	Impl     func(args []cty.Value) (cty.Value, bool)
}

type Param struct {
	Type      cty.Type
	AllowNull bool
}

// Env is a chain of scopes.
type Env struct {
	Vars   map[string]cty.Value
	Funcs  map[string]*Fn
	Parent *Env
}

func (e *Env) lookup(name string) (cty.Value, bool) {
	for ; e != nil; e = e.Parent {
		if v, ok := e.Vars[name]; ok {
			return v, true
		}
	}
	return cty.NilVal, false
}

func (e *Env) fn(name string) *Fn {
	for ; e != nil; e = e.Parent {
		if f, ok := e.Funcs[name]; ok {
			return f
		}
	}
	return nil
}

func (e *Env) child(vars map[string]cty.Value) *Env { return &Env{Vars: vars, Parent: e} }

// Call records one function call made by the evaluator.
type CallRec struct {
	Name string
	Args []cty.Value
}

// Eval evaluates expressions and records function calls.
type Eval struct {
	Calls []CallRec
	item  []cty.Value
	// NullSplat is set by a splat of null that gives an empty tuple.
	NullSplat bool
	// CondConv is set by a conditional that converts its result, Dropped by one
	// that drops an error of the result not selected.
	CondConv, Dropped bool
	// WideModulo is set by a remainder of operands of more than 60 bits.
	WideModulo bool
}

func Parse(s string) cty.Value {
	v, err := cty.ParseNumberVal(s)
	if err != nil {
		panic(err)
	}
	return v
}

func (ev *Eval) Expr(n *Node, env *Env) Out {
	switch n.K {
	case "paren":
		return ev.Expr(n.X[0], env)
	case "num":
		return val(number(ratOf(n.S), 512))
	case "bool":
		return val(cty.BoolVal(n.S == "true"))
	case "null":
		return val(cty.NullVal(cty.DynamicPseudoType))
	case "str":
		return val(cty.StringVal(n.S))
	case "var":
		v, ok := env.lookup(n.S)
		if !ok {
			return fail()
		}
		return val(v)
	case "item":
		return val(ev.item[len(ev.item)-1])
	case "un":
		return ev.unary(n, env)
	case "bin":
		return ev.binary(n, env)
	case "cond":
		return ev.conditional(ev.Expr(n.X[0], env), ev.Expr(n.X[1], env), ev.Expr(n.X[2], env))
	case "tuple":
		vals := []cty.Value{}
		var bad *Out
		for _, x := range n.X {
			o := ev.Expr(x, env)
			if !o.OK() && (bad == nil || bad.Err && o.Any) {
				bad = &Out{Err: o.Err, Any: o.Any}
			}
			vals = append(vals, o.V)
		}
		if bad != nil {
			if bad.Err {
				bad.T = cty.NilType
			}
			return *bad
		}
		return val(cty.TupleVal(vals))
	case "obj":
		return ev.object(n, env)
	case "attr":
		o := ev.Expr(n.X[0], env)
		if !o.OK() {
			return pass(o, cty.DynamicPseudoType)
		}
		return GetAttr(o.V, n.S)
	case "lidx":
		o := ev.Expr(n.X[0], env)
		if !o.OK() {
			return pass(o, cty.DynamicPseudoType)
		}
		return Index(o.V, Parse(n.S))
	case "idx":
		o, k := ev.Expr(n.X[0], env), ev.Expr(n.X[1], env)
		if o.Any || k.Any {
			return anything()
		}
		if o.Err || k.Err {
			return fail()
		}
		return Index(o.V, k.V)
	case "asplat", "fsplat":
		return ev.splat(n, env)
	case "for":
		return ev.forExpr(n, env)
	case "call":
		return ev.call(n, env)
	case "tmpl":
		return ev.Template(n.X, env)
	}
	panic("eval " + n.K)
}

func ratOf(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("number " + s)
	}
	return r
}

func number(r *big.Rat, prec uint) cty.Value {
	return cty.NumberVal(new(big.Float).SetPrec(prec).SetMode(big.ToNearestEven).SetRat(r))
}

func rat(v cty.Value) *big.Rat {
	f := v.AsBigFloat()
	r, _ := f.Rat(nil)
	if r == nil {
		r = new(big.Rat)
	}
	return r
}

func isInf(v cty.Value) bool { return v.AsBigFloat().IsInf() }

func prec(a, b cty.Value) uint {
	p, q := a.AsBigFloat().Prec(), b.AsBigFloat().Prec()
	if q > p {
		p = q
	}
	if p < 64 {
		p = 64
	}
	return p
}

// operand converts an operand to the type of its operator.
func operand(o Out, t cty.Type) Out {
	if !o.OK() {
		return o
	}
	v, err := convert.Convert(o.V, t)
	if err != nil || v.IsNull() {
		return fail()
	}
	return val(v)
}

func (ev *Eval) unary(n *Node, env *Env) Out {
	t := cty.Number
	if n.S == "!" {
		t = cty.Bool
	}
	o := operand(ev.Expr(n.X[0], env), t)
	if !o.OK() {
		return pass(o, t)
	}
	if n.S == "!" {
		return val(cty.BoolVal(o.V.False()))
	}
	if isInf(o.V) {
		return anything()
	}
	return val(number(new(big.Rat).Neg(rat(o.V)), prec(o.V, o.V)))
}

func (ev *Eval) binary(n *Node, env *Env) Out {
	a, b := ev.Expr(n.X[0], env), ev.Expr(n.X[1], env)
	res := cty.Bool
	switch n.S {
	case "+", "-", "*", "/", "%":
		res = cty.Number
	}
	if a.Any || b.Any {
		return anything()
	}
	if a.Err || b.Err {
		return failT(res)
	}
	switch n.S {
	case "==", "!=":
		if a.V.Type().HasDynamicTypes() && !a.V.IsNull() || b.V.Type().HasDynamicTypes() && !b.V.IsNull() {
			return anything()
		}
		eq := Same(a.V, b.V) || a.V.IsNull() && b.V.IsNull()
		return val(cty.BoolVal(eq == (n.S == "==")))
	}
	t := cty.Number
	if n.S == "&&" || n.S == "||" {
		t = cty.Bool
	}
	a, b = operand(a, t), operand(b, t)
	if a.Err || b.Err {
		return failT(res)
	}
	switch n.S {
	case "&&":
		return val(cty.BoolVal(a.V.True() && b.V.True()))
	case "||":
		return val(cty.BoolVal(a.V.True() || b.V.True()))
	}
	if isInf(a.V) || isInf(b.V) {
		return anything()
	}
	x, y := rat(a.V), rat(b.V)
	p := prec(a.V, b.V)
	switch n.S {
	case "<":
		return val(cty.BoolVal(x.Cmp(y) < 0))
	case "<=":
		return val(cty.BoolVal(x.Cmp(y) <= 0))
	case ">":
		return val(cty.BoolVal(x.Cmp(y) > 0))
	case ">=":
		return val(cty.BoolVal(x.Cmp(y) >= 0))
	case "+":
		return val(number(new(big.Rat).Add(x, y), p))
	case "-":
		return val(number(new(big.Rat).Sub(x, y), p))
	case "*":
		return val(number(new(big.Rat).Mul(x, y), p))
	case "/":
		if y.Sign() == 0 {
			if x.Sign() == 0 {
				return failT(res)
			}
			return anything() // an infinity or an error
		}
		return val(number(new(big.Rat).Quo(x, y), p))
	case "%":
		if y.Sign() == 0 {
			return anything()
		}
		for _, i := range []*big.Int{x.Num(), x.Denom(), y.Num(), y.Denom()} {
			if i.BitLen() > 160 {
				return anything() // the quotient is rounded
			}
			if i.BitLen() > 60 {
				ev.WideModulo = true
			}
		}
		q := new(big.Rat).Quo(x, y)
		tr := new(big.Int).Quo(q.Num(), q.Denom())
		m := new(big.Rat).Mul(y, new(big.Rat).SetInt(tr))
		return val(number(m.Sub(x, m), p))
	}
	panic(n.S)
}

func isNullLit(v cty.Value) bool {
	return v.IsNull() && v.Type() == cty.DynamicPseudoType
}

func (ev *Eval) conditional(c, a, b Out) Out {
	if c.Any || a.Any || b.Any {
		return anything()
	}
	var rt cty.Type
	ta, tb := a.T, b.T
	if a.OK() {
		ta = a.V.Type()
	}
	if b.OK() {
		tb = b.V.Type()
	}
	if ta == cty.NilType || tb == cty.NilType {
		return anything() // an error of a type that is not determined
	}
	if a.Err && b.Err {
		return failT(cty.NilType)
	}
	switch {
	case a.OK() && isNullLit(a.V):
		rt = tb
	case b.OK() && isNullLit(b.V):
		rt = ta
	default:
		rt, _ = convert.UnifyUnsafe([]cty.Type{ta, tb})
		if rt == cty.NilType {
			return failT(cty.NilType)
		}
	}
	et := rt // the type of an erroneous result
	if a.Err || b.Err {
		et = cty.NilType
	}
	if c.Err {
		return failT(cty.NilType)
	}
	cv, err := convert.Convert(c.V, cty.Bool)
	if err != nil || cv.IsNull() {
		return failT(et)
	}
	sel := b
	if cv.True() {
		sel = a
	}
	if sel.Err {
		return failT(et)
	}
	if a.Err || b.Err {
		ev.Dropped = true
	}
	if rt == cty.DynamicPseudoType {
		return sel
	}
	v, err := convert.Convert(sel.V, rt)
	if err != nil {
		return failT(et)
	}
	if !sel.V.Type().Equals(rt) {
		ev.CondConv = true
	}
	return val(v)
}

func (ev *Eval) object(n *Node, env *Env) Out {
	vals := map[string]cty.Value{}
	bad := Out{}
	dup := false
	for i := 0; i < len(n.X); i += 2 {
		var k Out
		kn := n.X[i]
		switch {
		case kn.K == "key":
			k = val(cty.StringVal(kn.S))
		case nakedTraversal(kn):
			k = fail()
		default:
			k = ev.Expr(kn, env)
		}
		v := ev.Expr(n.X[i+1], env)
		if k.Any || v.Any {
			bad.Any = true
			continue
		}
		if k.Err || v.Err {
			bad.Err = true
			continue
		}
		ks, err := convert.Convert(k.V, cty.String)
		if err != nil || ks.IsNull() {
			bad.Err = true
			continue
		}
		if _, exists := vals[ks.AsString()]; exists {
			dup = true
		}
		vals[ks.AsString()] = v.V
	}
	switch {
	case bad.Any:
		return anything()
	case bad.Err:
		return Out{Err: true}
	case dup:
		return anything()
	}
	return val(cty.ObjectVal(vals))
}

// nakedTraversal tells whether a key is a reference of several steps, which is
// ambiguous unless written in parentheses.
func nakedTraversal(n *Node) bool {
	switch n.K {
	case "attr", "lidx":
		return n.X[0].K == "var" || nakedTraversal(n.X[0])
	case "idx":
		k := n.X[1].K
		return (k == "num" || k == "str") && (n.X[0].K == "var" || nakedTraversal(n.X[0]))
	}
	return false
}

func GetAttr(v cty.Value, name string) Out {
	if v.IsNull() {
		return fail()
	}
	t := v.Type()
	switch {
	case t.IsObjectType():
		if !t.HasAttribute(name) {
			return fail()
		}
		return val(v.GetAttr(name))
	case t.IsMapType():
		x, ok := v.AsValueMap()[name]
		if !ok {
			return fail()
		}
		return val(x)
	}
	return fail()
}

func Index(v, k cty.Value) Out {
	if v.IsNull() || k.IsNull() {
		return fail()
	}
	t := v.Type()
	switch {
	case t.IsListType() || t.IsTupleType():
		kn, err := convert.Convert(k, cty.Number)
		if err != nil || kn.IsNull() {
			return fail()
		}
		r := rat(kn)
		if isInf(kn) || !r.IsInt() || r.Sign() < 0 || !r.Num().IsInt64() {
			return fail()
		}
		i := r.Num().Int64()
		es := elements(v)
		if i >= int64(len(es)) {
			return fail()
		}
		return val(es[i].v)
	case t.IsMapType() || t.IsObjectType():
		ks, err := convert.Convert(k, cty.String)
		if err != nil || ks.IsNull() {
			return fail()
		}
		return GetAttr(v, ks.AsString())
	}
	return fail()
}

type elem struct{ k, v cty.Value }

// elements lists the elements of a known collection in iteration order.
func elements(v cty.Value) []elem {
	var ret []elem
	t := v.Type()
	switch {
	case t.IsObjectType() || t.IsMapType():
		m := v.AsValueMap()
		var names []string
		for k := range m {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			ret = append(ret, elem{cty.StringVal(k), m[k]})
		}
	case t.IsListType() || t.IsTupleType():
		for i, x := range v.AsValueSlice() {
			ret = append(ret, elem{cty.NumberIntVal(int64(i)), x})
		}
	case t.IsSetType():
		for it := v.ElementIterator(); it.Next(); {
			_, x := it.Element()
			ret = append(ret, elem{x, x})
		}
	}
	return ret
}

func iterable(t cty.Type) bool {
	return t.IsListType() || t.IsTupleType() || t.IsSetType() || t.IsMapType() || t.IsObjectType()
}

func (ev *Eval) splat(n *Node, env *Env) Out {
	src := ev.Expr(n.X[0], env)
	if !src.OK() {
		return pass(src, cty.DynamicPseudoType)
	}
	t := src.V.Type()
	seq := t.IsListType() || t.IsTupleType() || t.IsSetType()
	if src.V.IsNull() {
		if seq {
			return fail()
		}
		ev.NullSplat = true
		return val(cty.EmptyTupleVal)
	}
	items := []cty.Value{src.V}
	if seq {
		items = nil
		for _, e := range elements(src.V) {
			items = append(items, e.v)
		}
	}
	vals := []cty.Value{}
	for _, it := range items {
		ev.item = append(ev.item, it)
		o := ev.Expr(n.X[1], env)
		ev.item = ev.item[:len(ev.item)-1]
		if !o.OK() {
			return pass(o, cty.DynamicPseudoType)
		}
		vals = append(vals, o.V)
	}
	if t.IsListType() || t.IsSetType() {
		if len(vals) == 0 {
			// the element type follows from the type of the source alone
			et := eachType(n.X[1], t.ElementType())
			if et == cty.NilType {
				return anything()
			}
			return val(cty.ListValEmpty(et))
		}
		for _, v := range vals[1:] {
			if !v.Type().Equals(vals[0].Type()) {
				return anything()
			}
		}
		return val(cty.ListVal(vals))
	}
	return val(cty.TupleVal(vals))
}

// eachType gives the type of the steps n applied to an item of type t, or
// NilType if it is an error or not determined.
func eachType(n *Node, t cty.Type) cty.Type {
	switch n.K {
	case "item":
		return t
	case "attr":
		t = eachType(n.X[0], t)
		switch {
		case t == cty.NilType:
		case t.IsObjectType() && t.HasAttribute(n.S):
			return t.AttributeType(n.S)
		case t.IsMapType():
			return t.ElementType()
		}
	}
	return cty.NilType
}

func (ev *Eval) forExpr(n *Node, env *Env) Out {
	coll := ev.Expr(n.X[0], env)
	if !coll.OK() {
		return pass(coll, cty.DynamicPseudoType)
	}
	if coll.V.IsNull() || !iterable(coll.V.Type()) {
		return fail()
	}
	es := elements(coll.V)
	if len(es) == 0 && n.X[3] != nil {
		return anything() // the condition may be checked in advance
	}
	vals := []cty.Value{}
	obj := map[string]cty.Value{}
	groups := map[string][]cty.Value{}
	bad := Out{}
	for _, e := range es {
		vars := map[string]cty.Value{}
		if n.N[0] != "" {
			vars[n.N[0]] = e.k
		}
		vars[n.N[1]] = e.v
		sub := env.child(vars)
		if n.X[3] != nil {
			c := operand(ev.Expr(n.X[3], sub), cty.Bool)
			if !c.OK() {
				bad.Any = bad.Any || c.Any
				bad.Err = bad.Err || c.Err
				continue
			}
			if c.V.False() {
				continue
			}
		}
		key := ""
		if n.B {
			k := ev.Expr(n.X[1], sub)
			if k.OK() {
				ks, err := convert.Convert(k.V, cty.String)
				if err != nil || ks.IsNull() {
					k = fail()
				} else {
					key = ks.AsString()
				}
			}
			if !k.OK() {
				bad.Any = bad.Any || k.Any
				bad.Err = bad.Err || k.Err
				continue
			}
		}
		v := ev.Expr(n.X[2], sub)
		if !v.OK() {
			bad.Any = bad.Any || v.Any
			bad.Err = bad.Err || v.Err
			continue
		}
		switch {
		case !n.B:
			vals = append(vals, v.V)
		case n.S != "":
			groups[key] = append(groups[key], v.V)
		default:
			if _, dup := obj[key]; dup {
				bad.Err = true
			}
			obj[key] = v.V
		}
	}
	switch {
	case bad.Any:
		return anything()
	case bad.Err:
		return fail()
	}
	if !n.B {
		return val(cty.TupleVal(vals))
	}
	for k, vs := range groups {
		obj[k] = cty.TupleVal(vs)
	}
	return val(cty.ObjectVal(obj))
}

func (ev *Eval) call(n *Node, env *Env) Out {
	f := env.fn(n.S)
	if f == nil {
		return fail()
	}
	var args []cty.Value
	bad := Out{}
	for i, x := range n.X {
		o := ev.Expr(x, env)
		if !o.OK() {
			bad.Any = bad.Any || o.Any
			bad.Err = bad.Err || o.Err
			continue
		}
		if n.B && i == len(n.X)-1 {
			t := o.V.Type()
			if !(t.IsListType() || t.IsTupleType() || t.IsSetType()) || o.V.IsNull() {
				bad.Err = true
				continue
			}
			for _, e := range elements(o.V) {
				args = append(args, e.v)
			}
			continue
		}
		args = append(args, o.V)
	}
	if bad.Any {
		return anything()
	}
	if bad.Err || len(args) < len(f.Params) || f.Variadic == nil && len(args) > len(f.Params) {
		return fail()
	}
	for i := range args {
		p := f.Variadic
		if i < len(f.Params) {
			p = &f.Params[i]
		}
		v, err := convert.Convert(args[i], p.Type)
		if err != nil || v.IsNull() && !p.AllowNull {
			return fail()
		}
		args[i] = v
	}
	ev.Calls = append(ev.Calls, CallRec{n.S, args})
	v, ok := f.Impl(args)
	if !ok {
		return fail()
	}
	return val(v)
}

// Template evaluates the parts of a template.
func (ev *Eval) Template(parts []*Node, env *Env) Out {
	return ev.template(parts, env, false)
}

// BareTemplate evaluates the parts of a stand-alone or heredoc template.
func (ev *Eval) BareTemplate(parts []*Node, env *Env) Out {
	return ev.template(parts, env, true)
}

func (ev *Eval) template(parts []*Node, env *Env, bare bool) Out {
	if len(parts) == 1 && parts[0].K == "interp" {
		return ev.Expr(parts[0].X[0], env)
	}
	return ev.parts(Strip(parts, bare), env)
}

func (ev *Eval) parts(parts []*Node, env *Env) Out {
	var b strings.Builder
	bad := Out{}
	for _, p := range parts {
		var o Out
		switch p.K {
		case "lit":
			o = val(cty.StringVal(p.S))
		case "interp":
			o = ev.Expr(p.X[0], env)
		case "if":
			els := val(cty.StringVal(""))
			then := ev.parts(p.X[1].X, env)
			if len(p.X) > 2 {
				els = ev.parts(p.X[2].X, env)
			}
			o = ev.conditional(ev.Expr(p.X[0], env), then, els)
		case "tfor":
			coll := ev.Expr(p.X[0], env)
			if !coll.OK() {
				o = pass(coll, cty.DynamicPseudoType)
				break
			}
			if coll.V.IsNull() || !iterable(coll.V.Type()) {
				o = fail()
				break
			}
			s := ""
			for _, e := range elements(coll.V) {
				vars := map[string]cty.Value{}
				if p.N[0] != "" {
					vars[p.N[0]] = e.k
				}
				vars[p.N[1]] = e.v
				x := ev.parts(p.X[1].X, env.child(vars))
				if !x.OK() {
					o.Any = o.Any || x.Any
					o.Err = o.Err || x.Err
					continue
				}
				s += x.V.AsString()
			}
			o.V = cty.StringVal(s)
		}
		if !o.OK() {
			bad.Any = bad.Any || o.Any
			bad.Err = bad.Err || o.Err
			continue
		}
		if o.V.IsNull() {
			bad.Err = true
			continue
		}
		s, err := convert.Convert(o.V, cty.String)
		if err != nil {
			bad.Err = true
			continue
		}
		b.WriteString(s.AsString())
	}
	switch {
	case bad.Any:
		return anything()
	case bad.Err:
		return failT(cty.String)
	}
	return val(cty.StringVal(b.String()))
}

// flat is a template written out as a sequence of literals and sequences.
type flat struct {
	lit *string
	// strip markers of a sequence
	l, r bool
}

// Strip applies the strip markers of a template to its literals and returns
// the parts without markers. A literal of a stand-alone or heredoc template
// reaches from one line break to the next.
func Strip(parts []*Node, bare bool) []*Node {
	if bare {
		parts = splitLines(parts)
	}
	var seq []flat
	out := stripCollect(parts, &seq)
	for i, f := range seq {
		if f.lit != nil {
			continue
		}
		if f.l && i > 0 && seq[i-1].lit != nil {
			*seq[i-1].lit = strings.TrimRightFunc(*seq[i-1].lit, unicode.IsSpace)
		}
		if f.r && i+1 < len(seq) && seq[i+1].lit != nil {
			*seq[i+1].lit = strings.TrimLeftFunc(*seq[i+1].lit, unicode.IsSpace)
		}
	}
	return out
}

// Merge joins adjacent literals.
func Merge(parts []*Node) []*Node {
	var out []*Node
	for _, p := range parts {
		if p.K == "lit" && len(out) > 0 && out[len(out)-1].K == "lit" {
			out[len(out)-1] = Lit(out[len(out)-1].S + p.S)
			continue
		}
		if len(p.X) > 0 && (p.K == "if" || p.K == "tfor") {
			c := *p
			c.X = append([]*Node(nil), p.X...)
			for i := 1; i < len(c.X); i++ {
				c.X[i] = Body(Merge(c.X[i].X)...)
			}
			p = &c
		}
		out = append(out, p)
	}
	return out
}

func splitLines(parts []*Node) []*Node {
	var out []*Node
	for _, p := range parts {
		switch {
		case p.K == "lit":
			for _, l := range strings.SplitAfter(p.S, "\n") {
				if l != "" {
					out = append(out, Lit(l))
				}
			}
			continue
		case p.K == "if" || p.K == "tfor":
			c := *p
			c.X = append([]*Node(nil), p.X...)
			for i := 1; i < len(c.X); i++ {
				c.X[i] = Body(splitLines(c.X[i].X)...)
			}
			p = &c
		}
		out = append(out, p)
	}
	return out
}

func stripCollect(parts []*Node, seq *[]flat) []*Node {
	var out []*Node
	add := func(l, r string) { *seq = append(*seq, flat{l: l != "", r: r != ""}) }
	for _, p := range parts {
		c := *p
		c.X = append([]*Node(nil), p.X...)
		out = append(out, &c)
		switch p.K {
		case "lit":
			*seq = append(*seq, flat{lit: &c.S})
		case "interp":
			add(marker(p, 0), marker(p, 1))
			c.N = nil
		case "if":
			add(marker(p, 0), marker(p, 1))
			c.X[1] = Body(stripCollect(p.X[1].X, seq)...)
			if len(p.X) > 2 {
				add(marker(p, 2), marker(p, 3))
				c.X[2] = Body(stripCollect(p.X[2].X, seq)...)
			}
			add(marker(p, 4), marker(p, 5))
			c.N = nil
		case "tfor":
			add(marker(p, 2), marker(p, 3))
			c.X[1] = Body(stripCollect(p.X[1].X, seq)...)
			add(marker(p, 4), marker(p, 5))
			c.N = p.N[:2]
		}
	}
	return out
}

// Same tells whether two known values are the same value of the same type,
// comparing numbers by value. A list type of unknown element type stands for
// any empty list.
func Same(a, b cty.Value) bool {
	if !a.IsKnown() || !b.IsKnown() {
		return a.IsKnown() == b.IsKnown() && a.Type().Equals(b.Type())
	}
	ta, tb := a.Type(), b.Type()
	if a.IsNull() || b.IsNull() {
		return a.IsNull() && b.IsNull() && ta.Equals(tb)
	}
	if ta.IsListType() && tb.IsListType() && a.LengthInt() == 0 && b.LengthInt() == 0 {
		if ta.ElementType() == cty.DynamicPseudoType || tb.ElementType() == cty.DynamicPseudoType {
			return true
		}
	}
	switch {
	case ta == cty.Number && tb == cty.Number:
		return a.AsBigFloat().Cmp(b.AsBigFloat()) == 0
	case ta.IsPrimitiveType() || tb.IsPrimitiveType():
		return a.RawEquals(b)
	case ta.IsTupleType() != tb.IsTupleType(), ta.IsListType() != tb.IsListType(), ta.IsSetType() != tb.IsSetType(),
		ta.IsMapType() != tb.IsMapType(), ta.IsObjectType() != tb.IsObjectType():
		return false
	}
	if ta.IsListType() || ta.IsSetType() || ta.IsMapType() {
		if !ta.Equals(tb) {
			return false
		}
	}
	if !iterable(ta) {
		return a.RawEquals(b)
	}
	ea, eb := elements(a), elements(b)
	if len(ea) != len(eb) {
		return false
	}
	for i := range ea {
		if !Same(ea[i].k, eb[i].k) || !Same(ea[i].v, eb[i].v) {
			return false
		}
	}
	return true
}

// Function turns a model function into one the implementation can call,
// reporting each call to record.
func (f *Fn) Function(name string, record func(CallRec)) function.Function {
	spec := &function.Spec{
		Type: func(args []cty.Value) (cty.Type, error) {
			for _, a := range args {
				if !a.IsWhollyKnown() {
					return cty.DynamicPseudoType, nil
				}
			}
			v, ok := f.Impl(args)
			if !ok {
				return cty.NilType, function.NewArgErrorf(0, "rejected")
			}
			return v.Type(), nil
		},
		Impl: func(args []cty.Value, ret cty.Type) (cty.Value, error) {
			if record != nil {
				record(CallRec{name, append([]cty.Value(nil), args...)})
			}
			v, _ := f.Impl(args)
			return v, nil
		},
	}
	for i, p := range f.Params {
		spec.Params = append(spec.Params, function.Parameter{Name: string(rune('a' + i)), Type: p.Type, AllowNull: p.AllowNull, AllowDynamicType: p.AllowNull})
	}
	if f.Variadic != nil {
		spec.VarParam = &function.Parameter{Name: "rest", Type: f.Variadic.Type, AllowNull: f.Variadic.AllowNull, AllowDynamicType: f.Variadic.AllowNull}
	}
	return function.New(spec)
}
