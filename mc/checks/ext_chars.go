package checks

import (
	"fmt"
	"unicode/utf8"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"

	"verif/mc/fw"
)

// Alphabets have a few characters of each kind; these suites have all of them.

// charBlock is the number of a block of 256 characters.
type charBlock int

func eachCharBlock(t fw.Tier, yield func(charBlock)) {
	for b := 0; b <= utf8.MaxRune>>8; b++ {
		// The large uniform parts: ideographs, syllables and private use.
		uniform := b > 0x34 && b < 0x9f || b > 0xac && b < 0xd7 || b > 0xe0 && b < 0xf8 || b > 0x170 && b < 0x18a || b >= 0x200 && b&0xff > 1 && b&0xff != 0xff
		if t == fw.Thorough || !uniform {
			yield(charBlock(b))
		}
	}
}

func (b charBlock) each(f func(c rune)) {
	for c := rune(b) << 8; c < rune(b+1)<<8; c++ {
		if utf8.ValidRune(c) {
			f(c)
		}
	}
}

const charBounds = "every Unicode character (quick: without the insides of the blocks of ideographs, Hangul and private use, and with the ends of the other planes)"

func runCharLex(r *fw.Rec, b charBlock) {
	b.each(func(c rune) {
		s := string(c)
		runLex(r, lexCase{fw.StrCase(s), 0, lexStarts[0]})
		runLex(r, lexCase{fw.StrCase("a" + s + "b = " + s), 0, lexStarts[1]})
		runLex(r, lexCase{fw.StrCase("\"" + s + "a\" #" + s), 0, lexStarts[0]})
		runLex(r, lexCase{fw.StrCase(s + "${a}" + s), 2, lexStarts[0]})
	})
}

func runCharText(r *fw.Rec, b charBlock) {
	b.each(func(c rune) {
		s := string(c)
		if c != '\n' && c != '\r' && c != '$' && c != '%' {
			if c != 0xfeff {
				runEscapes(r, fw.StrCase(s))
			}
			runEscapes(r, fw.StrCase("x"+s+"${n}"+s))
		}
		if c < 0x10000 {
			runEscapes(r, fw.StrCase(fmt.Sprintf("\\u%04x", c)))
			runEscapes(r, fw.StrCase(fmt.Sprintf("1\\u%04X2", c)))
		}
		runEscapes(r, fw.StrCase(fmt.Sprintf("\\U%08xf", c)))
	})
}

func runCharJSON(r *fw.Rec, b charBlock) {
	b.each(func(c rune) {
		s := string(c)
		checkJSON(r, `{"a": "x`+s+`x"}`)
		checkJSON(r, s)
		if c < 0x10000 {
			checkJSON(r, fmt.Sprintf(`{"a": ["\u%04x", "\u%04X0"]}`, c, c))
		} else {
			v := c - 0x10000
			checkJSON(r, fmt.Sprintf(`{"a": "\u%04x\u%04X"}`, 0xd800+v>>10, 0xdc00+v&0x3ff))
		}
	})
}

func runCharGen(r *fw.Rec, b charBlock) {
	b.each(func(c rune) {
		s := string(c)
		checkGen(r, cty.TupleVal([]cty.Value{cty.StringVal(s), cty.StringVal("${" + s + "a" + s + "0")}))
		checkGen(r, cty.ObjectVal(map[string]cty.Value{s: cty.True, "a" + s: cty.False, s + "0b": cty.Zero}))
		// A name is valid as such exactly when it is read as one.
		for _, name := range []string{s, "a" + s, s + "-1"} {
			f, diags := hclsyntax.ParseConfig([]byte(name+" = 1"), "t", hcl.InitialPos)
			attrs, _ := f.Body.JustAttributes()
			read := !diags.HasErrors() && len(attrs) == 1 && attrs[name] != nil
			r.Op(1)
			if valid := hclsyntax.ValidIdentifier(name); valid != read && c != 0xfeff && c != ' ' && c != '\t' && c != '\n' && c != '\r' {
				r.Failf("", "%q is valid as an identifier: %v; read as an argument's name: %v", name, valid, read)
				return
			}
			if read {
				t := hcl.Traversal{hcl.TraverseRoot{Name: name}, hcl.TraverseAttr{Name: name}, hcl.TraverseIndex{Key: cty.StringVal(s)}}
				src := hclwrite.TokensForTraversal(t).Bytes()
				got, diags := hclsyntax.ParseTraversalAbs(src, "t", hcl.InitialPos)
				if diags.HasErrors() || travStr(got, false) != travStr(t, false) {
					r.Failf("", "the reference %s is written as %q, which is %s %s", travStr(t, false), src, travStr(got, false), diagsStr(diags))
					return
				}
			}
		}
	})
}

func init() {
	fw.Extend("C02", fw.S("every character", charBounds+", alone, in names, strings, comments and templates", eachCharBlock, runCharLex))
	fw.Extend("C06", fw.S("every character", charBounds+", as itself and as escape sequences in both cases, alone and with others", eachCharBlock, runCharText))
	fw.Extend("C14", fw.S("every character", charBounds+", as itself and as an escape sequence in a string, and outside of one", eachCharBlock, runCharJSON))
	fw.Extend("C20", fw.S("every character", charBounds+", in strings, keys, names and indexes", eachCharBlock, runCharGen))
}
