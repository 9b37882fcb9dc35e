package checks

import (
	"fmt"
	"os"
	"strings"

	"verif/mc/fw"
)

// inFile is an input file of the decoding command. In its text, % stands for
// the place of the file among the others.
type inFile struct {
	text, json string
	attr       string // attribute that it sets
	blocks     int
	bad        bool
}

var kInFiles = []inFile{
	{text: "", json: "{}"},
	{text: "a = \"v%\"\n", json: `{"a": "v%"}`, attr: "a"},
	{text: "b = \"v%\"\n", json: `{"b": "v%"}`, attr: "b"},
	{text: "x {\n  c = \"v%\"\n}\n", json: `{"x": {"c": "v%"}}`, blocks: 1},
	{text: "x {\n  c = \"v%\"\n}\nb = \"v%\"\nx {\n  c = \"v%\"\n}\n", json: `{"x": [{"c": "v%"}, {"c": "v%"}], "b": "v%"}`, attr: "b", blocks: 2},
	{text: "a = \n", json: `{"a": }`, bad: true},
	{text: "a = \"v%\"\nx {\n", json: `{"a": "v%"`, bad: true},
	{text: "z = \"v%\"\n", json: `{"z": "v%"}`, bad: true},
	{text: "x {\n}\n", json: `{"x": {}}`, bad: true},
}

// kVarFiles are variable arguments that are no use.
var kVarFiles = []string{"", `{"v": `, "[]", "absent", "badvars", "badvars.json", "{"}

// inCase is a sequence of input files, the last bits of which say whether they
// are JSON, with some of them absent (-1), and a variable argument.
type inCase struct {
	Files []int
	Vars  int
}

func runInFiles(r *fw.Rec, c inCase) {
	r.State(fmt.Sprint(c))
	files := map[string]string{
		"s":            "object {\n  attr \"a\" {\n    type = string\n  }\n  attr \"b\" {\n    type = string\n  }\n  block_list \"x\" {\n    attr {\n      name = \"c\"\n      type = string\n      required = true\n    }\n  }\n}\n",
		"badvars":      "v = \n",
		"badvars.json": `{"v": 1`,
	}
	args := []string{"--spec=s"}
	want := map[string]interface{}{}
	xs := []interface{}{}
	fail := false
	if v := kVarFiles[c.Vars]; v != "" {
		args = append(args, "--vars", `{"w": 1}`, "--vars="+v)
		fail = true
	}
	for i, ix := range c.Files {
		if ix < 0 {
			args = append(args, "absent")
			fail = true
			continue
		}
		f, name, text := kInFiles[ix>>1], fmt.Sprint("f", i), kInFiles[ix>>1].text
		if ix&1 == 1 {
			name, text = name+".json", f.json
		}
		v := fmt.Sprint("v", i)
		files[name] = strings.Replace(text, "%", fmt.Sprint(i), -1)
		args = append(args, name)
		fail = fail || f.bad
		if f.attr != "" {
			fail = fail || want[f.attr] != nil
			want[f.attr] = v
		}
		for j := 0; j < f.blocks; j++ {
			xs = append(xs, v)
		}
	}
	want["x"] = xs
	r.Op(1)
	r.Trace()
	dir := cmdFiles(files)
	status, stdout, stderr := cmdRun("hcldec", dir, "", args...)
	os.RemoveAll(dir)
	desc := fmt.Sprintf("arguments %q, files %q", args, files)
	if fail {
		kFail(r, desc, status, stdout, stderr)
	} else {
		kGood(r, desc, want, status, stdout, stderr)
	}
}

func init() {
	n := len(kInFiles) * 2
	fw.Extend("C38", fw.S("files", fmt.Sprintf("all sequences of one or two (thorough: three, without the last two) input files out of %d, good and bad ones, natively or in JSON, or absent, and every input file with each of %d variable arguments that are no use", n, len(kVarFiles)-1), func(t fw.Tier, yield func(inCase)) {
		eachSeq(n+1, 1, 2, func(ix []int) {
			c := inCase{}
			for _, i := range ix {
				c.Files = append(c.Files, i-1)
			}
			yield(c)
			for v := 1; v < len(kVarFiles) && len(ix) == 1; v++ {
				yield(inCase{c.Files, v})
			}
		})
		if t == fw.Thorough {
			eachSeq(n-4, 3, 3, func(ix []int) { yield(inCase{append([]int{}, ix...), 0}) })
		}
	}, runInFiles))
}
