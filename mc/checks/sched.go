package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
)

// sched runs several threads one at a time, switching only at scheduling
// points, under the control of a sequence of choices.
type sched struct {
	resume  []chan bool
	yielded chan bool // true if the thread finished
	current int
	off     bool // scheduling points do nothing
}

// point is a scheduling point of the running thread.
func (s *sched) point() {
	if s.off {
		return
	}
	t := s.current
	s.yielded <- false
	<-s.resume[t]
}

// run executes the threads under the given choices, taking the first enabled
// thread once they are used up. It returns the number of alternatives there
// were at each step and the threads that were run.
func (s *sched) run(threads []func(), choices []int) (alts []int, trace []int) {
	s.yielded = make(chan bool)
	s.off = false
	defer func() { s.off = true }()
	s.resume = nil
	var enabled []int
	for i, f := range threads {
		i, f := i, f
		ch := make(chan bool)
		s.resume = append(s.resume, ch)
		enabled = append(enabled, i)
		go func() {
			<-ch
			f()
			s.yielded <- true
		}()
	}
	for step := 0; len(enabled) > 0; step++ {
		c := 0
		if step < len(choices) {
			c = choices[step]
		}
		alts = append(alts, len(enabled))
		s.current = enabled[c]
		trace = append(trace, s.current)
		s.resume[s.current] <- true
		if <-s.yielded {
			enabled = append(enabled[:c:c], enabled[c+1:]...)
		}
	}
	return alts, trace
}

// explore runs every schedule, up to max of them, and tells whether that was
// all of them. make builds fresh threads for a schedule; after is called when
// they have finished and ends the exploration by returning false.
func (s *sched) explore(max int, make func() []func(), after func(trace []int) bool) (n int, all bool) {
	var choices []int
	for {
		if n >= max {
			return n, false
		}
		alts, trace := s.run(make(), choices)
		n++
		if !after(trace) {
			return n, true
		}
		// next schedule in lexicographic order
		for len(choices) < len(alts) {
			choices = append(choices, 0)
		}
		i := len(choices) - 1
		for i >= 0 && choices[i]+1 >= alts[i] {
			i--
		}
		if i < 0 {
			return n, true
		}
		choices = append(choices[:i:i], choices[i]+1)
	}
}

// hookExpr calls a function before its expression is evaluated.
type hookExpr struct {
	hclsyntax.Expression
	before func()
}

func (h hookExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
	h.before()
	return h.Expression.Value(ctx)
}

var exprType = reflect.TypeOf((*hclsyntax.Expression)(nil)).Elem()

// hookItems makes every read of the current element of a splat call before.
func hookItems(e hclsyntax.Expression, before func()) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Interface:
			if v.IsNil() {
				return
			}
			if a, ok := v.Interface().(*hclsyntax.AnonSymbolExpr); ok {
				if v.Type() == exprType && v.CanSet() {
					v.Set(reflect.ValueOf(hookExpr{a, before}))
				}
				return
			}
			if _, ok := v.Interface().(hclsyntax.Expression); ok {
				walk(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			if !strings.Contains(v.Type().PkgPath(), "hclsyntax") {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.PkgPath == "" {
					walk(v.Field(i))
				}
			}
		}
	}
	walk(reflect.ValueOf(&e).Elem())
}

func traceStr(t []int) string { return fmt.Sprint(t) }
