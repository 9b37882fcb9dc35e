package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/apparentlymart/go-textseg/textseg"
	"github.com/hashicorp/hcl2/hcl"
)

// eachString yields every concatenation of at most max pieces of the alphabet,
// shortest first.
func eachString(alphabet []string, min, max int, yield func(string)) {
	var rec func(prefix string, n int)
	rec = func(prefix string, n int) {
		if n == 0 {
			yield(prefix)
			return
		}
		for _, a := range alphabet {
			rec(prefix+a, n-1)
		}
	}
	for l := min; l <= max; l++ {
		rec("", l)
	}
}

// eachSeq yields every sequence of indices in [0,n) whose length is within
// [min,max], shortest first. The slice is only valid during the call.
func eachSeq(n, min, max int, yield func([]int)) {
	for l := min; l <= max; l++ {
		idx := make([]int, l)
		var rec func(i int)
		rec = func(i int) {
			if i == l {
				yield(idx)
				return
			}
			for k := 0; k < n; k++ {
				idx[i] = k
				rec(i + 1)
			}
		}
		rec(0)
	}
}

// advance gives the position after b, counting line breaks and grapheme
// clusters.
func advance(p hcl.Pos, b []byte) hcl.Pos {
	for len(b) > 0 {
		n, seq, _ := textseg.ScanGraphemeClusters(b, true)
		p.Byte += n
		if seq[len(seq)-1] == '\n' {
			p.Line++
			p.Column = 1
		} else {
			p.Column++
		}
		b = b[n:]
	}
	return p
}

// clusterStarts returns the set of offsets in b at which a grapheme cluster
// starts, including len(b).
func clusterStarts(b []byte) []bool {
	ret := make([]bool, len(b)+1)
	ofs := 0
	for ofs < len(b) {
		ret[ofs] = true
		n, _, _ := textseg.ScanGraphemeClusters(b[ofs:], true)
		ofs += n
	}
	ret[len(b)] = true
	return ret
}

// badDiag describes what is wrong with a diagnostic about the given source, or
// is empty.
func badDiag(d *hcl.Diagnostic, start, end int) string {
	if d == nil {
		return "nil diagnostic"
	}
	if d.Severity != hcl.DiagError && d.Severity != hcl.DiagWarning {
		return fmt.Sprintf("diagnostic %q has no severity", d.Summary)
	}
	if d.Summary == "" {
		return "diagnostic without summary: " + d.Detail
	}
	if d.Subject == nil {
		return fmt.Sprintf("diagnostic %q has no subject", d.Summary)
	}
	if m := badRange(*d.Subject, start, end); m != "" {
		return fmt.Sprintf("subject of %q (%s): %s", d.Summary, d.Detail, m)
	}
	if d.Context != nil {
		if m := badRange(*d.Context, start, end); m != "" {
			return fmt.Sprintf("context of %q (%s): %s", d.Summary, d.Detail, m)
		}
	}
	return ""
}

func badRange(r hcl.Range, start, end int) string {
	if r.Start.Byte < start || r.End.Byte > end || r.Start.Byte > r.End.Byte {
		return fmt.Sprintf("range %#v outside source [%d,%d]", r, start, end)
	}
	return ""
}

func diagsStr(diags hcl.Diagnostics) string {
	var b strings.Builder
	for i, d := range diags {
		if i > 0 {
			b.WriteString("; ")
		}
		if d == nil {
			b.WriteString("<nil>")
			continue
		}
		subj := "-"
		if d.Subject != nil {
			subj = d.Subject.String()
		}
		fmt.Fprintf(&b, "%d %s: %s (%s)", d.Severity, subj, d.Summary, d.Detail)
	}
	return b.String()
}

func sortedStr(s []string) string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return strings.Join(s, "; ")
}

// travStr shows a traversal, with the ranges of its steps if wanted.
func travStr(t hcl.Traversal, ranges bool) string {
	var b strings.Builder
	for _, s := range t {
		rng := s.SourceRange()
		switch s := s.(type) {
		case hcl.TraverseRoot:
			b.WriteString(s.Name)
		case hcl.TraverseAttr:
			b.WriteString("." + s.Name)
		case hcl.TraverseIndex:
			fmt.Fprintf(&b, "[%#v]", s.Key)
		default:
			fmt.Fprintf(&b, "?%T", s)
		}
		if ranges {
			fmt.Fprintf(&b, "@%s", rng)
		}
	}
	return b.String()
}
