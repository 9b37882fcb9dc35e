package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"verif/mc/fw"
)

// fmtFiles are the files given to the formatter. The last two are a file that
// does not exist and a directory.
var fmtFiles = []string{
	"", "a = 1\n", "a=1\n", "a   =   1\nbb = 2\n", "b {\n  a = 1\n}\n", "b {\na=1\n}", "# c\n\n\n", "a = <<E\n x\nE\n", "a=1\r\nb=2\r\n",
	"a = \n", "b {\n", "a=1\na =2 =\n", "a = \"${\"\n", "\xef\xbb\xbfa=1\n", "\xff\xfe", "b   \"x\"  {}", "a = [\n1,\n2,\n]\n", "a=1 b=2", "missing", "directory",
}

// fmtCase is a run of the formatter.
type fmtCase struct {
	Files                 []int
	Check, NoChange, Over bool
}

func runFmt(r *fw.Rec, c fmtCase) {
	dir := cmdFiles(nil)
	defer os.RemoveAll(dir)
	var args []string
	flags := []string{}
	for _, f := range []struct {
		on   bool
		name string
	}{{c.Check, "-check"}, {c.NoChange, "-require-no-change"}, {c.Over, "-w"}} {
		if f.on {
			flags = append(flags, f.name)
		}
	}
	stdin := len(c.Files) == 1 && c.Files[0] < len(fmtFiles)-2
	for _, way := range []string{"stdin", "files"} {
		if way == "stdin" && !stdin {
			continue
		}
		names := []string{}
		want := map[string]string{}
		args = append([]string{}, flags...)
		input := ""
		for i, f := range c.Files {
			name := string('a'+rune(i)) + ".hcl"
			src := fmtFiles[f]
			if way == "stdin" {
				input = src
				continue
			}
			names = append(names, name)
			args = append(args, name)
			if src == "missing" {
				continue
			}
			if src == "directory" {
				os.Mkdir(filepath.Join(dir, name), 0755)
				continue
			}
			os.WriteFile(filepath.Join(dir, name), []byte(src), 0600)
			want[name] = src
		}
		// The expected outcome.
		out := ""
		stopped, checkErrs, changed := false, false, false
		var bad []string
		process := func(name, src string) {
			if c.Check {
				if _, diags := hclsyntax.ParseConfig([]byte(src), name, hcl.InitialPos); diags.HasErrors() {
					checkErrs = true
					bad = append(bad, name)
					return
				}
			}
			f := string(hclwrite.Format([]byte(src)))
			changed = changed || f != src
			if c.Over {
				want[name] = f
			} else {
				out += f
			}
		}
		if way == "stdin" {
			if c.Over {
				stopped = true
			} else {
				process("<stdin>", input)
			}
		}
		for i, name := range names {
			if c.Files[i] >= len(fmtFiles)-2 {
				stopped = true
				break
			}
			process(name, fmtFiles[c.Files[i]])
		}
		status := 0
		if stopped || checkErrs || c.NoChange && changed {
			status = 1
		}
		r.Op(1)
		r.Trace()
		r.State(way, strings.Join(args, " "), fmt.Sprint(c.Files), out, strings.Join(bad, " "))
		st, so, se := cmdRun("hclfmt", dir, input, args...)
		if st != status || so != out || (se != "") != (status != 0) {
			r.Failf("run", "arguments %q, input %q, files %q: status %d, output %q, messages %q instead of status %d and %q", args, input, want, st, so, se, status, out)
		}
		for _, b := range bad {
			if !strings.Contains(se, "on "+b+" line ") {
				r.Failf("diags", "arguments %q: no errors for %s in the messages %q", args, b, se)
			}
		}
		for i, name := range names {
			src, ok := want[name]
			if !ok {
				continue
			}
			p := filepath.Join(dir, name)
			got, err := os.ReadFile(p)
			if err != nil || !bytes.Equal(got, []byte(src)) {
				r.Failf("file", "arguments %q: file %s was %q and is %q (%v) instead of %q", args, name, fmtFiles[c.Files[i]], got, err, src)
			}
			if st, err := os.Stat(p); err != nil || st.Mode() != 0600 {
				r.Failf("mode", "arguments %q: file %s has a new mode", args, name)
			}
		}
		ents, _ := os.ReadDir(dir)
		for _, e := range ents {
			p := filepath.Join(dir, e.Name())
			if _, ok := want[e.Name()]; !ok && !e.IsDir() {
				r.Failf("extra", "arguments %q: made the file %s", args, e.Name())
			}
			os.RemoveAll(p)
		}
	}
}

func init() {
	fw.Register(&fw.Check{
		ID: "C39",
		Assumptions: []string{
			"the expected text is that of the formatting function, which other properties describe",
			"the command is run as a process of its own in a scratch directory; no file is named twice",
		},
		Suites: []fw.Suite{
			fw.S("runs", "all sequences of at most two (thorough: three) of 18 sources, a missing file and a directory, with every combination of the three flags; single sources also on standard input", func(t fw.Tier, yield func(fmtCase)) {
				eachSeq(len(fmtFiles), 1, fw.Pick(t, 2, 3), func(ix []int) {
					for f := 0; f < 8; f++ {
						yield(fmtCase{append([]int{}, ix...), f&1 != 0, f&2 != 0, f&4 != 0})
					}
				})
			}, runFmt),
		},
	})
}
