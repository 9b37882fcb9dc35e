package checks

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hclparse"
	"verif/mc/fw"
)

// pOp is an operation on a parser or on the files it reads.
type pOp struct {
	K    string // native, json, native-file, json-file, add, write, remove
	Name string
	Src  int `json:",omitempty"`
}

func (o pOp) String() string {
	switch o.K {
	case "native", "json", "add", "write":
		return fmt.Sprintf("%s %s %q", o.K, o.Name, pSrcs[o.Src])
	}
	return o.K + " " + o.Name
}

var pSrcs = []string{"x = 1\n", `{"x": 2}`, "x = \n", "", "\xef\xbb\xbfx = 3\r\ny \"l\" {\n}\n", `{"y": [`}

func pOps(t fw.Tier) []pOp {
	var ret []pOp
	for _, n := range []string{"a", "b"} {
		for i := range pSrcs {
			if i < fw.Pick(t, 4, len(pSrcs)) {
				ret = append(ret, pOp{"native", n, i}, pOp{"json", n, i})
			}
		}
		ret = append(ret, pOp{"native-file", n, 0}, pOp{"json-file", n, 0}, pOp{"add", n, 0}, pOp{"add", n, 1}, pOp{"write", n, 1}, pOp{"write", n, 4}, pOp{"remove", n, 0})
	}
	return append(ret, pOp{"native", "A", 0}, pOp{"native-file", "./a", 0}, pOp{"json", "./a", 1}, pOp{"native-file", "missing", 0}, pOp{"json-file", "missing", 0}, pOp{"native-file", "dir", 0}, pOp{"json-file", "dir", 0})
}

// fileDump shows all that can be seen of a parsed file.
func fileDump(f *hcl.File, diags hcl.Diagnostics) string {
	if f == nil {
		return "no file: " + fmt.Sprint(diags.HasErrors())
	}
	body := "no body"
	if f.Body != nil {
		content, rest, ds := f.Body.PartialContent(&hcl.BodySchema{
			Attributes: []hcl.AttributeSchema{{Name: "x"}},
			Blocks:     []hcl.BlockHeaderSchema{{Type: "y", LabelNames: []string{"l"}}},
		})
		_ = rest
		body = fmt.Sprintf("%T %d blocks, %s, at %v", f.Body, len(content.Blocks), diagSet(ds), f.Body.MissingItemRange())
		if a := content.Attributes["x"]; a != nil {
			v, _ := a.Expr.Value(nil)
			body += fmt.Sprintf(" x=%#v at %v", v, a.Range)
		}
	}
	return fmt.Sprintf("%q %s; %s", f.Bytes, body, diagSet(diags))
}

type pCase struct {
	Prefix []pOp
	Depth  int
}

type pEntry struct {
	file  *hcl.File
	bytes string
}

// runHistory performs one sequence of operations on a new parser in dir.
func runHistory(r *fw.Rec, dir string, ops []pOp) {
	disk := map[string]string{"a": pSrcs[0], "b": pSrcs[1]}
	for n, s := range disk {
		ioutil.WriteFile(filepath.Join(dir, n), []byte(s), 0o644)
	}
	p := hclparse.NewParser()
	reg := map[string]pEntry{}
	for step, op := range ops {
		r.Op(1)
		name := dir + "/" + op.Name
		var got *hcl.File
		var diags hcl.Diagnostics
		src := []byte(pSrcs[op.Src])
		onDisk, readable := disk[strings.TrimPrefix(op.Name, "./")]
		fail := func(sig, format string, args ...interface{}) {
			r.Failf(sig, "after %v: %s", ops[:step+1], fmt.Sprintf(format, args...))
		}
		request := true
		var want string
		switch op.K {
		case "native":
			got, diags = p.ParseHCL(src, name)
			want = fileDump(hclsyntax.ParseConfig(src, name, hcl.Pos{Line: 1, Column: 1}))
		case "json":
			got, diags = p.ParseJSON(src, name)
			want = fileDump(json.Parse(src, name))
		case "native-file":
			got, diags = p.ParseHCLFile(name)
			want = fileDump(hclsyntax.ParseConfig([]byte(onDisk), name, hcl.Pos{Line: 1, Column: 1}))
			src = []byte(onDisk)
		case "json-file":
			got, diags = p.ParseJSONFile(name)
			want = fileDump(json.Parse([]byte(onDisk), name))
			src = []byte(onDisk)
		default:
			request = false
		}
		switch {
		case op.K == "add":
			f, _ := hclsyntax.ParseConfig(src, "added", hcl.Pos{Line: 1, Column: 1})
			p.AddFile(name, f)
			reg[name] = pEntry{f, string(src)}
		case op.K == "write":
			disk[op.Name] = string(src)
			ioutil.WriteFile(name, src, 0o644)
		case op.K == "remove":
			delete(disk, op.Name)
			os.Remove(name)
		case request && reg[name].file != nil:
			if got != reg[name].file {
				fail("not-cached", "the file returned is not the one already parsed")
			}
			if len(diags) > 0 {
				fail("cached-diags", "a file already parsed is returned with messages: %s", diagsStr(diags))
			}
		case request && !readable && (op.K == "native-file" || op.K == "json-file"):
			if !diags.HasErrors() {
				fail("unreadable", "a file that cannot be read is not reported")
			}
			if got != nil {
				fail("unreadable-file", "a file that cannot be read is returned")
			}
		case request:
			if got == nil {
				fail("no-file", "no file is returned: %s", diagsStr(diags))
				return
			}
			if s := fileDump(got, diags); s != want {
				fail("parsed", "the file returned is\n%s instead of\n%s", s, want)
			}
			if !bytes.Equal(got.Bytes, src) {
				fail("bytes", "the file has the bytes %q", got.Bytes)
			}
			reg[name] = pEntry{got, string(src)}
		}
		files, sources := p.Files(), p.Sources()
		if len(files) != len(reg) || len(sources) != len(reg) {
			fail("registry-size", "the registry has %d files and %d sources instead of %d", len(files), len(sources), len(reg))
		}
		for n, e := range reg {
			if files[n] != e.file {
				fail("registry-file", "the file registered for %s is not the one parsed", filepath.Base(n))
			}
			if s, ok := sources[n]; !ok || string(s) != e.bytes {
				fail("registry-source", "the source registered for %s is %q instead of %q", filepath.Base(n), s, e.bytes)
			}
			delete(sources, n) // the caller's own
		}
	}
}

func init() {
	fw.Register(&fw.Check{
		ID: "C30",
		Assumptions: []string{
			"the parsers of each syntax are those checked by C01 and C14; here only that the right one is used on the right bytes",
		},
		Suites: []fw.Suite{
			fw.S("histories", "all sequences of three (thorough: four) of the operations parse, parse file and add, in both syntaxes, on two names and four (thorough: six) sources, of writing and removing the files, and of reading a missing file and a directory, and a few with names that differ in spelling only", func(t fw.Tier, yield func(pCase)) {
				for _, a := range pOps(t) {
					for _, b := range pOps(t) {
						yield(pCase{Prefix: []pOp{a, b}, Depth: fw.Pick(t, 1, 2)})
					}
				}
			}, func(r *fw.Rec, c pCase) {
				dir, err := ioutil.TempDir("", "mc-parser")
				if err != nil {
					return
				}
				defer os.RemoveAll(dir)
				os.Mkdir(filepath.Join(dir, "dir"), 0o755)
				t := fw.Quick
				if c.Depth > 1 {
					t = fw.Thorough
				}
				alpha := pOps(t)
				eachSeq(len(alpha), c.Depth, c.Depth, func(ix []int) {
					ops := append([]pOp{}, c.Prefix...)
					for _, i := range ix {
						ops = append(ops, alpha[i])
					}
					r.State(fmt.Sprint(ops))
					r.Trace()
					runHistory(r, dir, ops)
				})
			}),
			fw.S("sizes", "as many names, each parsed once or twice, in either syntax, with "+sizesText, func(t fw.Tier, yield func(sizeCase)) {
				sizeGen(families("once twice mixed"), nil)(t, yield)
			}, func(r *fw.Rec, c sizeCase) {
				dir, err := ioutil.TempDir("", "mc-parser")
				if err != nil {
					return
				}
				defer os.RemoveAll(dir)
				var ops []pOp
				for k := 0; k < 2; k++ {
					for i := 0; i < c.N && (k == 0 || c.Fam != "once"); i++ {
						op := pOp{"native", fmt.Sprint("n", i), i % 4}
						if c.Fam == "mixed" {
							op.K = []string{"native", "json", "add", "native-file"}[(i+k)%4]
						}
						ops = append(ops, op)
					}
				}
				r.State(c.Fam, fmt.Sprint(c.N))
				r.Trace()
				runHistory(r, dir, ops)
			}),
		},
	})
}
