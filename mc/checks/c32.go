package checks

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/apparentlymart/go-textseg/textseg"
	"github.com/hashicorp/hcl2/hcl"
	"verif/mc/fw"
)

var errSplit = errors.New("split failed")

type splitter struct {
	name string
	fn   func() bufio.SplitFunc
}

// The splitting functions only yield pieces that begin where the previous
// advance ended and that consist of whole grapheme clusters, which is what the
// scanner requires of them.
var splitters = []splitter{
	{"lines", func() bufio.SplitFunc { return bufio.ScanLines }},
	{"graphemes", func() bufio.SplitFunc { return textseg.ScanGraphemeClusters }},
	{"two-graphemes", func() bufio.SplitFunc {
		return func(data []byte, atEOF bool) (int, []byte, error) {
			n := 0
			for i := 0; i < 2 && n < len(data); i++ {
				adv, _, _ := textseg.ScanGraphemeClusters(data[n:], true)
				n += adv
			}
			return n, data[:n], nil
		}
	}},
	{"skip-second", func() bufio.SplitFunc {
		// yields one cluster and skips the next one
		return func(data []byte, atEOF bool) (int, []byte, error) {
			n, _, _ := textseg.ScanGraphemeClusters(data, true)
			tok := data[:n]
			if n < len(data) {
				adv, _, _ := textseg.ScanGraphemeClusters(data[n:], true)
				n += adv
			}
			return n, tok, nil
		}
	}},
	{"all", func() bufio.SplitFunc {
		return func(data []byte, atEOF bool) (int, []byte, error) { return len(data), data, nil }
	}},
	{"lines-keep-end", func() bufio.SplitFunc {
		return func(data []byte, atEOF bool) (int, []byte, error) {
			if i := bytes.IndexByte(data, '\n'); i >= 0 {
				return i + 1, data[:i+1], nil
			}
			return len(data), data, nil
		}
	}},
	{"error-after-two", func() bufio.SplitFunc {
		n := 0
		return func(data []byte, atEOF bool) (int, []byte, error) {
			n++
			if n == 3 {
				return 0, nil, errSplit
			}
			adv, tok, err := textseg.ScanGraphemeClusters(data, true)
			return adv, tok, err
		}
	}},
	{"stops", func() bufio.SplitFunc {
		n := 0
		return func(data []byte, atEOF bool) (int, []byte, error) {
			n++
			if n >= 3 {
				return 0, nil, nil
			}
			return textseg.ScanGraphemeClusters(data, true)
		}
	}},
}

type scanCase struct {
	Buf   fw.StrCase
	Split int
	Start hcl.Pos
	Whole bool // use NewRangeScanner
}

func (c scanCase) String() string {
	return fmt.Sprintf("%q split=%s start=%v whole=%v", []byte(c.Buf), splitters[c.Split].name, c.Start, c.Whole)
}

func init() {
	alphabet := []string{"a", "\n", "\r\n", "é", "é", "\U0001F600", " ", "́", "x", "\t", "\U0001F468‍\U0001F469", "\xff"}
	starts := []hcl.Pos{{Byte: 0, Line: 1, Column: 1}, {Byte: 17, Line: 4, Column: 6}, {Byte: 1, Line: 1, Column: 2}}
	fw.Register(&fw.Check{
		ID:          "C32",
		Assumptions: []string{"splitting functions yield whole grapheme clusters starting where the previous advance ended, as the documentation of the scanner requires", "a lone carriage return is left out: it is no line break to the parser"},
		Suites: []fw.Suite{
			fw.S("buffers", "all buffers of up to 5 (thorough 6) pieces of 12, 8 splitting functions, 3 start positions",
				func(t fw.Tier, yield func(scanCase)) {
					eachString(alphabet, 0, fw.Pick(t, 5, 6), func(s string) {
						for k := range splitters {
							yield(scanCase{fw.StrCase(s), k, hcl.InitialPos, true})
							for _, st := range starts {
								yield(scanCase{fw.StrCase(s), k, st, false})
							}
						}
					})
				}, runScan),
			fw.S("long-buffers", "buffers around the 4096 and 65536 byte boundaries made of each piece, with each phase",
				func(t fw.Tier, yield func(scanCase)) {
					for _, unit := range alphabet {
						for _, size := range []int{4096, 8192, 65536} {
							for phase := 0; phase < 5; phase++ {
								s := strings.Repeat("z", phase) + strings.Repeat(unit, size/len(unit)+2)
								for _, k := range []int{0, 4, 5} {
									yield(scanCase{fw.StrCase(s), k, starts[1], false})
								}
							}
						}
					}
				}, runScan),
		},
	})
}

func runScan(r *fw.Rec, c scanCase) {
	buf := append([]byte(nil), c.Buf...)
	r.StateB(fmt.Sprint(c.Split, c.Start, c.Whole), buf)
	var sc *hcl.RangeScanner
	start := c.Start
	if c.Whole {
		sc = hcl.NewRangeScanner(buf, "f", splitters[c.Split].fn())
		start = hcl.InitialPos
	} else {
		sc = hcl.NewRangeScannerFragment(buf, "f", start, splitters[c.Split].fn())
	}
	split := splitters[c.Split].fn()
	bound := clusterStarts(buf)
	pos := start
	ofs := 0
	var wantErr error
	for ofs < len(buf) {
		adv, tok, err := split(buf[ofs:], true)
		if err != nil {
			wantErr = err
			break
		}
		if adv == 0 && tok == nil {
			break
		}
		if !bound[ofs] || !bound[ofs+len(tok)] || !bound[ofs+adv] {
			// the piece splits a cluster: outside what the scanner supports
			r.Op(1)
			return
		}
		r.Op(1)
		if !sc.Scan() {
			r.Failf("", "scan ended before piece %q at %v", tok, pos)
			return
		}
		if !bytes.Equal(sc.Bytes(), tok) {
			r.Failf("", "piece is %q, want %q", sc.Bytes(), tok)
		}
		wantRange := hcl.Range{Filename: "f", Start: pos, End: advance(pos, tok)}
		if sc.Range() != wantRange {
			r.Failf("", "piece %q has range %#v, want %#v", tok, sc.Range(), wantRange)
		}
		pos = advance(pos, buf[ofs:ofs+adv])
		ofs += adv
	}
	for i := 0; i < 2; i++ {
		r.Op(1)
		if sc.Scan() {
			r.Failf("", "scan goes on with %q at %#v after the end", sc.Bytes(), sc.Range())
			return
		}
	}
	if wantErr != nil && (len(sc.Bytes()) != 0 || sc.Range() != (hcl.Range{Filename: "f", Start: pos, End: pos})) {
		r.Failf("", "after the error at %v there is the piece %q at %#v", pos, sc.Bytes(), sc.Range())
	}
	if sc.Err() != wantErr {
		r.Failf("", "error is %v, want %v", sc.Err(), wantErr)
	}
	if !bytes.Equal(buf, c.Buf) {
		r.Failf("", "buffer was modified")
	}
	r.Trace()
}
