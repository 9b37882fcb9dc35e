package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclparse"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
	"verif/mc/fw"
)

// A writer that takes the first Limit bytes and then fails: a write that does
// not fit is cut off there, or refused as a whole. It fails from then on, or
// only that once.
type faultWriter struct {
	limit       int
	whole, once bool
	got         []byte
	late        []byte // what was written after the failure
	failed      bool
	calls       int
}

var errFault = errors.New("no room left")

func (w *faultWriter) Write(b []byte) (int, error) {
	w.calls++
	if w.failed {
		w.late = append(w.late, b...)
		if w.once {
			return len(b), nil
		}
		return 0, errFault
	}
	if len(w.got)+len(b) <= w.limit {
		w.got = append(w.got, b...)
		return len(b), nil
	}
	w.failed = true
	n := w.limit - len(w.got)
	if w.whole {
		n = 0
	}
	w.got = append(w.got, b[:n]...)
	return n, errFault
}

type ioCase struct {
	Doc         int
	Via         string
	Limit       int
	Whole, Once bool
}

var ioDocs = []string{
	"", "a = 1\n", "a=1\nlonger_name   = [1,2] # c\n", "b \"l\" \"m\" {\n  a = \"x${y}\"\n  c {\n    d = <<E\n t\nE\n  }\n}\n",
	strings.Repeat("a", 50) + " = 1\nb = 2\nc {\n" + strings.Repeat("x", 90) + " = 1\ny = 2\n}\n",
	"# c\n\n/* d */ a = f(1, x...)\n", "b {}", "a = {\n  b = 1\n  \"é\" = \"𝄞\"\n}\n",
}

// ioTexts are the ways of writing a document.
var ioVias = []string{"file", "tokens", "body tokens", "value tokens"}

func ioWriter(doc int, via string) func(io.Writer) (int64, error) {
	f, _ := hclwrite.ParseConfig([]byte(ioDocs[doc]), "t.hcl", hcl.InitialPos)
	switch via {
	case "file":
		return f.WriteTo
	case "tokens":
		return f.BuildTokens(nil).WriteTo
	case "body tokens":
		f.Body().SetAttributeValue("new", cty.TupleVal([]cty.Value{cty.StringVal("x y"), cty.NumberIntVal(int64(doc))}))
		f.Body().AppendNewline()
		return f.Body().BuildTokens(nil).WriteTo
	}
	return hclwrite.TokensForValue(cty.ObjectVal(map[string]cty.Value{"doc": cty.StringVal(ioDocs[doc]), "n": cty.NumberIntVal(1)})).WriteTo
}

func runIO(r *fw.Rec, c ioCase) {
	var full bytes.Buffer
	n, err := ioWriter(c.Doc, c.Via)(&full)
	r.Op(1)
	if err != nil || n != int64(full.Len()) {
		r.Failf("", "writing %s of %q: %d bytes written, returned %d and %v", c.Via, ioDocs[c.Doc], full.Len(), n, err)
		return
	}
	for limit := 0; limit <= full.Len()+1; limit++ {
		if c.Limit >= 0 && limit != c.Limit {
			continue
		}
		w := &faultWriter{limit: limit, whole: c.Whole, once: c.Once}
		n, err := ioWriter(c.Doc, c.Via)(w)
		r.Op(1)
		r.Trace()
		r.State(c.Via, fmt.Sprint(limit), string(w.got))
		what := fmt.Sprintf("writing %s of %q to a writer that fails after %d bytes", c.Via, ioDocs[c.Doc], limit)
		if m := badWrite(w, err, full.Bytes()); m != "" {
			r.Failf("", "%s: %s", what, m)
			return
		}
		if n != int64(len(w.got)) {
			r.Failf("", "%s: returned the length %d, but %d bytes were written", what, n, len(w.got))
			return
		}
	}
}

func badWrite(w *faultWriter, err error, full []byte) string {
	switch {
	case w.once && len(w.late) != 0:
		return fmt.Sprintf("went on with %q", w.late)
	case w.failed && err == nil:
		return "the failure is not returned"
	case !w.failed && err != nil:
		return fmt.Sprintf("returned %v although nothing failed", err)
	case !w.failed && !bytes.Equal(w.got, full):
		return fmt.Sprintf("wrote %q instead of %q", w.got, full)
	case !bytes.HasPrefix(full, w.got):
		return fmt.Sprintf("wrote %q, which is not the beginning of %q", w.got, full)
	}
	return ""
}

// ioDiags are sets of diagnostics to be written.
func ioDiags(k int) (hcl.Diagnostics, map[string]*hcl.File) {
	src := "a = 1\nb = nope + x.zz\nlonger \"l\" {\n  c = f(y)\n}\n"
	p := hclparse.NewParser()
	f, ds := p.ParseHCL([]byte(src), "t.hcl")
	if ds.HasErrors() {
		panic(ds)
	}
	at := func(a, b int) *hcl.Range {
		for a > 0 && src[a-1] != '\n' {
			a--
		}
		line := 1 + strings.Count(src[:a], "\n")
		return &hcl.Range{Filename: "t.hcl", Start: hcl.Pos{Line: line, Column: 1, Byte: a}, End: hcl.Pos{Line: line, Column: 1 + b - a, Byte: b}}
	}
	one := &hcl.Diagnostic{Severity: hcl.DiagError, Summary: "One", Detail: "Some detail of the first one, which is long enough to be wrapped.", Subject: at(0, 5)}
	two := &hcl.Diagnostic{Severity: hcl.DiagWarning, Summary: "Two", Subject: at(6, 10), Context: at(6, 20)}
	three := &hcl.Diagnostic{Severity: hcl.DiagError, Summary: "Three"}
	elsewhere := &hcl.Diagnostic{Severity: hcl.DiagError, Summary: "Elsewhere", Detail: "d", Subject: &hcl.Range{Filename: "other.hcl", Start: hcl.Pos{Line: 3, Column: 1, Byte: 9}, End: hcl.Pos{Line: 3, Column: 2, Byte: 10}}}
	attrs := f.Body.(*hclsyntax.Body).Attributes
	_, eval := attrs["b"].Expr.Value(&hcl.EvalContext{Variables: map[string]cty.Value{"nope": cty.StringVal("q"), "x": cty.ObjectVal(map[string]cty.Value{"a": cty.True})}})
	_, eval2 := f.Body.(*hclsyntax.Body).Blocks[0].Body.Attributes["c"].Expr.Value(&hcl.EvalContext{})
	sets := []hcl.Diagnostics{nil, {one}, {two}, {three}, {elsewhere}, eval, eval2, {one, two}, {three, one, elsewhere}, append(append(hcl.Diagnostics{}, eval...), two, one), {two, nil, one}}
	if k < 0 {
		return make(hcl.Diagnostics, len(sets)), nil
	}
	return sets[k], p.Files()
}

type ioDiagCase struct {
	Set                int
	Width              uint
	Color, Whole, Once bool
	Each               bool
}

func runIODiags(r *fw.Rec, c ioDiagCase) {
	ds, files := ioDiags(c.Set)
	write := func(w io.Writer) error {
		dw := hcl.NewDiagnosticTextWriter(w, files, c.Width, c.Color)
		r.Op(1)
		if !c.Each {
			return dw.WriteDiagnostics(ds)
		}
		for _, d := range ds {
			if err := dw.WriteDiagnostic(d); err != nil {
				return err
			}
		}
		return nil
	}
	var full bytes.Buffer
	bad := write(&full)
	hasNil := false
	for _, d := range ds {
		hasNil = hasNil || d == nil
	}
	if hasNil != (bad != nil) {
		r.Failf("", "writing set %d: returned %v", c.Set, bad)
		return
	}
	for limit := 0; limit <= full.Len()+1; limit++ {
		w := &faultWriter{limit: limit, whole: c.Whole, once: c.Once}
		err := write(w)
		if !w.failed && hasNil {
			continue
		}
		r.Trace()
		r.State("diags", fmt.Sprint(limit), string(w.got))
		if m := badWrite(w, err, full.Bytes()); m != "" {
			r.Failf("", "writing set %d of diagnostics to a writer that fails after %d bytes: %s", c.Set, limit, m)
			return
		}
	}
}

// ioCmd is a run of a command that cannot read or write something.
type ioCmd struct {
	Name string
	Args []string
	Full bool // its output goes to a full device
	Fail bool
}

var ioCmds = func() (ret []ioCmd) {
	specs := []string{"attr.spec", "obj.spec", "lit.spec"}
	for _, s := range specs {
		for _, extra := range [][]string{nil, {"--with-type"}, {"--var-refs"}, {"--vars={\"x\":1}"}} {
			args := append([]string{"--spec=" + s}, extra...)
			for _, full := range []bool{false, true} {
				ret = append(ret, ioCmd{"hcldec", append(append([]string{}, args...), "a.hcl"), full, full})
				ret = append(ret, ioCmd{"hcldec", append(append([]string{}, args...), "--out=out.json", "a.hcl"), full, false})
			}
			for _, out := range []string{"/dev/full", "missing/out.json", "dir"} {
				ret = append(ret, ioCmd{"hcldec", append(append([]string{}, args...), "--out="+out, "a.hcl"), false, true})
			}
			for _, in := range [][]string{{"missing.hcl"}, {"dir"}, {"missing.json"}, {"a.hcl", "missing.hcl"}, {"missing.hcl", "a.hcl"}, {"dir.json"}, {"a.hcl", "dir"}} {
				ret = append(ret, ioCmd{"hcldec", append(append([]string{}, args...), in...), false, true})
			}
			for _, v := range []string{"missing.hcl", "dir", "missing.json", "dir.json"} {
				ret = append(ret, ioCmd{"hcldec", append(append([]string{}, args...), "--vars="+v, "a.hcl"), false, true})
			}
		}
	}
	for _, s := range []string{"missing.spec", "dir"} {
		ret = append(ret, ioCmd{"hcldec", []string{"--spec=" + s, "a.hcl"}, false, true})
	}
	for _, flags := range [][]string{nil, {"-check"}, {"-require-no-change"}, {"-check", "-require-no-change"}} {
		for _, full := range []bool{false, true} {
			for _, in := range [][]string{{"a.hcl"}, {"a.hcl", "b.hcl"}, {"b.hcl", "a.hcl", "b.hcl"}} {
				ret = append(ret, ioCmd{"hclfmt", append(append([]string{}, flags...), in...), full, full})
				ret = append(ret, ioCmd{"hclfmt", append(append(append([]string{}, flags...), "-w"), in...), full, false})
			}
			for _, in := range [][]string{{"missing.hcl"}, {"dir"}, {"a.hcl", "missing.hcl"}, {"missing.hcl", "a.hcl"}, {"a.hcl", "dir", "b.hcl"}} {
				ret = append(ret, ioCmd{"hclfmt", append(append([]string{}, flags...), in...), full, true})
				ret = append(ret, ioCmd{"hclfmt", append(append(append([]string{}, flags...), "-w"), in...), full, true})
			}
		}
	}
	return ret
}()

// deviceFull tells whether there is a device that is always full.
func deviceFull() bool {
	f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		return false
	}
	defer f.Close()
	_, err = f.Write([]byte("x"))
	return errors.Is(err, syscall.ENOSPC)
}

func runIOCmd(r *fw.Rec, k int) {
	c := ioCmds[k]
	if !deviceFull() && (c.Full || strings.Contains(strings.Join(c.Args, " "), "/dev/full")) {
		r.Count("no full device", 1)
		return
	}
	dir := cmdFiles(map[string]string{
		"a.hcl": "a = 1\n", "b.hcl": "a = 1\nb = 2\n",
		"attr.spec": "attr {\n  name = \"a\"\n  type = number\n}\n", "obj.spec": "object {\n  attr \"a\" {}\n}\n", "lit.spec": "object {\n  attr \"a\" {}\n  literal \"l\" {\n    value = \"x\"\n  }\n}\n",
	})
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "dir"), 0755)
	os.Mkdir(filepath.Join(dir, "dir.json"), 0755)
	p := exec.Command(cmdBuild(c.Name), c.Args...)
	p.Dir = dir
	p.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "GOMAXPROCS=1"}
	var o, e bytes.Buffer
	p.Stdout, p.Stderr = &o, &e
	if c.Full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		p.Stdout = f
	}
	if err := p.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(60*time.Second, func() { p.Process.Kill() })
	p.Wait()
	t.Stop()
	status := p.ProcessState.ExitCode()
	r.Op(1)
	r.Trace()
	r.State(append([]string{c.Name, fmt.Sprint(c.Full, status)}, c.Args...)...)
	what := fmt.Sprintf("%s %s", c.Name, strings.Join(c.Args, " "))
	if c.Full {
		what += " > /dev/full"
	}
	if c.Fail != (status != 0) {
		r.Failf("", "%s ends with status %d: %s", what, status, e.String())
		return
	}
	if c.Fail && e.Len() == 0 {
		r.Failf("", "%s ends with status %d and no message", what, status)
		return
	}
	if out, err := os.ReadFile(filepath.Join(dir, "out.json")); !c.Fail && err == nil && len(bytes.TrimSpace(out)) == 0 {
		r.Failf("", "%s writes nothing", what)
	}
	// Neither file changes but by being formatted, which these already are.
	for n, want := range map[string]string{"a.hcl": "a = 1\n", "b.hcl": "a = 1\nb = 2\n"} {
		if got, err := os.ReadFile(filepath.Join(dir, n)); err != nil || string(got) != want {
			r.Failf("", "%s leaves %q in %s (%v)", what, got, n, err)
		}
	}
}

func init() {
	bools := []bool{false, true}
	fw.Register(&fw.Check{
		ID:          "C51",
		Assumptions: []string{"a write to /dev/full fails; without that device the runs that use it are left out"},
		Suites: []fw.Suite{
			fw.S("files", fmt.Sprintf("%d documents, the tokens of them, of their edited bodies and of values made of them, written to writers that fail after every number of bytes, by cutting a write short or refusing it, once or from then on", len(ioDocs)),
				func(t fw.Tier, yield func(ioCase)) {
					for d := range ioDocs {
						for _, v := range ioVias {
							for _, whole := range bools {
								for _, once := range bools {
									yield(ioCase{d, v, -1, whole, once})
								}
							}
						}
					}
				}, runIO),
			fw.S("diagnostics", "11 sets of diagnostics, one at a time or together, at 4 widths, with and without colour, written to writers that fail after every number of bytes, by cutting a write short or refusing it, once or from then on",
				func(t fw.Tier, yield func(ioDiagCase)) {
					sets, _ := ioDiags(-1)
					for s := range sets {
						for _, width := range []uint{0, 20, 40, 80} {
							for _, color := range bools {
								for _, whole := range bools {
									for _, once := range bools {
										for _, each := range bools {
											yield(ioDiagCase{s, width, color, whole, once, each})
										}
									}
								}
							}
						}
					}
				}, runIODiags),
			fw.S("commands", fmt.Sprintf("%d runs of the decoder and the formatter with output that is full, missing directories and files, and directories in the place of files", len(ioCmds)),
				func(t fw.Tier, yield func(int)) {
					for i := range ioCmds {
						yield(i)
					}
				}, runIOCmd),
		},
	})
}
