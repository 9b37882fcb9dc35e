package checks

import (
	"bytes"
	"fmt"

	"github.com/hashicorp/hcl2/hcl"
	"verif/mc/fw"
)

// posAt gives positions in a notional file with a line break before every third
// offset, so that lines and columns must be carried along correctly.
func posAt(ofs int) hcl.Pos {
	return hcl.Pos{Byte: ofs, Line: 1 + ofs/3, Column: 1 + ofs%3}
}

func mkRange(file string, a, b int) hcl.Range {
	return hcl.Range{Filename: file, Start: posAt(a), End: posAt(b)}
}

type rangePair struct {
	A1, A2, B1, B2 int
	SameFile       bool
}

func init() {
	span := func(t fw.Tier) int { return fw.Pick(t, 9, 16) }
	fw.Register(&fw.Check{
		ID: "C31",
		Suites: []fw.Suite{
			fw.S("pairs", "all pairs of well-ordered ranges over offsets 0..9 (thorough 0..16), same and different files, against sets of offsets",
				func(t fw.Tier, yield func(rangePair)) {
					n := span(t)
					for a1 := 0; a1 <= n; a1++ {
						for a2 := a1; a2 <= n; a2++ {
							for b1 := 0; b1 <= n; b1++ {
								for b2 := b1; b2 <= n; b2++ {
									yield(rangePair{a1, a2, b1, b2, true})
									yield(rangePair{a1, a2, b1, b2, false})
								}
							}
						}
					}
				}, runRangePair),
			fw.S("slicing", "all ranges with offsets -3..10 in either order times buffers of length 0..8",
				func(t fw.Tier, yield func([3]int)) {
					hi, bl := fw.Pick(t, 10, 24), fw.Pick(t, 8, 20)
					for l := 0; l <= bl; l++ {
						for a := -3; a <= hi; a++ {
							for b := -3; b <= hi; b++ {
								yield([3]int{a, b, l})
							}
						}
					}
				}, runSlice),
		},
	})
}

func runRangePair(r *fw.Rec, c rangePair) {
	fileB := "f"
	if !c.SameFile {
		fileB = "g"
	}
	a, b := mkRange("f", c.A1, c.A2), mkRange(fileB, c.B1, c.B2)
	r.State(fmt.Sprint(c))
	const max = 20
	in := func(x hcl.Range, i int) bool { return x.Start.Byte <= i && i < x.End.Byte }
	well := func(x hcl.Range, what string) bool {
		if x.Filename != "f" || x.Start != posAt(x.Start.Byte) || x.End != posAt(x.End.Byte) || x.Start.Byte > x.End.Byte {
			r.Failf("", "%s of %v and %v is not a well-formed range: %#v", what, a, b, x)
			return false
		}
		return true
	}
	for i := -1; i < max; i++ {
		r.Op(2)
		if got := a.ContainsOffset(i); got != in(a, i) {
			r.Failf("", "%v ContainsOffset(%d) = %v", a, i, got)
		}
		if i >= 0 {
			if got := a.ContainsPos(posAt(i)); got != in(a, i) {
				r.Failf("", "%v ContainsPos(%d) = %v", a, i, got)
			}
		}
	}
	r.Op(2)
	if a.Empty() != (c.A1 == c.A2) {
		r.Failf("", "%v Empty() = %v", a, a.Empty())
	}
	if p := a.Ptr(); p == nil || *p != a {
		r.Failf("", "Ptr of %v gives %v", a, p)
	}
	common := false
	if c.SameFile {
		for i := 0; i < max; i++ {
			if in(a, i) && in(b, i) {
				common = true
			}
		}
	}
	r.Op(1)
	if got := a.Overlaps(b); got != common {
		r.Failf("", "%v Overlaps %v = %v", a, b, got)
	}
	ov := a.Overlap(b)
	r.Op(1)
	if well(ov, "Overlap") {
		for i := 0; i < max; i++ {
			if in(ov, i) != (c.SameFile && in(a, i) && in(b, i)) {
				r.Failf("", "%v Overlap %v = %v", a, b, ov)
				break
			}
		}
		if ov.Start.Byte < a.Start.Byte || ov.End.Byte > a.End.Byte {
			r.Failf("", "%v Overlap %v = %v which is not within the receiver", a, b, ov)
		}
	}
	before, mid, after := a.PartitionAround(b)
	r.Op(1)
	if well(before, "partition before") && well(mid, "partition overlap") && well(after, "partition after") {
		if !common {
			if !before.Empty() || !mid.Empty() || !after.Empty() {
				r.Failf("", "%v PartitionAround %v = %v %v %v", a, b, before, mid, after)
			}
		} else {
			if mid != ov || before.Start != a.Start || before.End != mid.Start || after.Start != mid.End || after.End != a.End {
				r.Failf("", "%v PartitionAround %v = %v %v %v", a, b, before, mid, after)
			}
		}
	}
	if c.SameFile {
		over := hcl.RangeOver(a, b)
		r.Op(1)
		if well(over, "RangeOver") {
			var want hcl.Range
			switch {
			case a.Empty():
				want = b
			case b.Empty():
				want = a
			default:
				lo, hi := c.A1, c.A2
				if c.B1 < lo {
					lo = c.B1
				}
				if c.B2 > hi {
					hi = c.B2
				}
				want = mkRange("f", lo, hi)
			}
			if over != want {
				r.Failf("", "RangeOver(%v, %v) = %v", a, b, over)
			}
		}
		if c.A2 <= c.B1 {
			bt := hcl.RangeBetween(a, b)
			r.Op(1)
			if bt != mkRange("f", c.A1, c.B2) {
				r.Failf("", "RangeBetween(%v, %v) = %v", a, b, bt)
			}
		}
	}
	r.Trace()
}

func runSlice(r *fw.Rec, c [3]int) {
	buf := make([]byte, c[2], c[2]+8)
	for i := range buf {
		buf[i] = byte('a' + i)
	}
	full := buf[:cap(buf)]
	for i := len(buf); i < len(full); i++ {
		full[i] = '!'
	}
	r.State("slice", fmt.Sprint(c))
	rng := hcl.Range{Filename: "f", Start: hcl.Pos{Byte: c[0]}, End: hcl.Pos{Byte: c[1]}}
	var want []byte
	inside := true
	for i := c[0]; i < c[1]; i++ {
		if i >= 0 && i < len(buf) {
			want = append(want, buf[i])
		}
	}
	if c[0] < 0 || c[1] < 0 || c[0] > len(buf) || c[1] > len(buf) || c[0] > c[1] {
		inside = false
	}
	r.Op(2)
	if got := rng.SliceBytes(buf); !bytes.Equal(got, want) {
		r.Failf("", "[%d,%d) of %q gives %q", c[0], c[1], buf, got)
	}
	if got := rng.CanSliceBytes(buf); got != inside {
		r.Failf("", "CanSliceBytes [%d,%d) of %q = %v", c[0], c[1], buf, got)
	}
	r.Trace()
}
