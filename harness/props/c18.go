package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// span is a segment together with what the harness knows about it.
type span struct {
	seg  tok.Segment
	a, b int
}

func anySpan(info string) span {
	a, b := vp.Int(), vp.Int()
	vp.Assume(0 <= a && a <= b)
	return span{seg(info, a, b), a, b}
}

func (x span) covers(y span) bool { return x.a <= y.a && y.b <= x.b }
func (x span) same(y span) bool   { return x.a == y.a && x.b == y.b }
func (x span) apart(y span) bool  { return x.b <= y.a || y.b <= x.a }
func (x span) clashes(y span) bool {
	return !x.apart(y) && !x.covers(y) && !y.covers(x)
}

// precedes: x has to stand before y.
func (x span) precedes(y span) bool {
	if x.same(y) {
		return false
	}
	if x.covers(y) {
		return true
	}
	return !y.covers(x) && x.b <= y.a
}

func find(spans []span, g tok.Segment) int {
	for i, x := range spans {
		if x.seg == g {
			return i
		}
	}
	return -1
}

// checkSorted requires out to be a sorted permutation of the spans, which have different infos.
func checkSorted(spans []span, out []tok.Segment, name string) []int {
	vp.Assert(len(out) == len(spans), name+" keeps the number of segments")
	idx := []int{}
	used := make([]bool, len(spans))
	for _, g := range out {
		i := find(spans, g)
		vp.Assert(i >= 0 && !used[i], name+" keeps the segments")
		used[i] = true
		idx = append(idx, i)
	}
	for i := range idx {
		for j := i + 1; j < len(idx); j++ {
			vp.Assert(!spans[idx[j]].precedes(spans[idx[i]]), name+": covering before covered, left before right")
		}
	}
	return idx
}

func clashFree(n int, info func(i int) string) []span {
	spans := []span{}
	for i := 0; i < n; i++ {
		x := anySpan(info(i))
		for _, y := range spans {
			vp.Assume(!x.clashes(y))
		}
		spans = append(spans, x)
	}
	return spans
}

// C18_sort: SortSegments over all lists of up to 3 (4) segments without clashes, over all non-negative markers, empty and equal segments included.
func C18_sort() {
	n := vp.Choose(vp.Bound(3, 4) + 1)
	spans := clashFree(n, func(i int) string { return "abcdef"[i : i+1] })
	out := []tok.Segment{}
	for _, x := range spans {
		out = append(out, x.seg)
	}
	tok.SortSegments(out)
	idx := checkSorted(spans, out, "SortSegments")
	for i := range idx {
		for j := i + 1; j < len(idx); j++ {
			if spans[idx[i]].same(spans[idx[j]]) {
				vp.Assert(idx[i] < idx[j], "SortSegments keeps the relative order of equal segments")
			}
		}
	}
}

func position(order []string, info string) int {
	for i, o := range order {
		if o == info {
			return i
		}
	}
	return -1
}

// C18_order: SortSegmentsByOrder over all lists of up to 3 segments without clashes, with different one-byte infos, and all order lists of up to 3 different one-byte infos.
func C18_order() {
	n := vp.Choose(vp.Bound(2, 3) + 1)
	infos := []string{}
	for i := 0; i < n; i++ {
		c := vp.Str(1)
		vp.Assume(position(infos, c) < 0)
		infos = append(infos, c)
	}
	spans := clashFree(n, func(i int) string { return infos[i] })
	order := []string{}
	for i := vp.Choose(3); i >= 0; i-- {
		c := vp.Str(1)
		vp.Assume(position(order, c) < 0)
		order = append(order, c)
	}
	out := []tok.Segment{}
	for _, x := range spans {
		out = append(out, x.seg)
	}
	tok.SortSegmentsByOrder(out, order)
	checkByOrder(spans, out, order)
}

func checkByOrder(spans []span, out []tok.Segment, order []string) {
	idx := checkSorted(spans, out, "SortSegmentsByOrder")
	for i := range idx {
		for j := i + 1; j < len(idx); j++ {
			x, y := spans[idx[i]], spans[idx[j]]
			if !x.same(y) {
				continue
			}
			px, py := position(order, x.seg.Info), position(order, y.seg.Info)
			if px >= 0 && py >= 0 {
				vp.Assert(px < py, "SortSegmentsByOrder puts equal tokens into the given order")
			}
			if px < 0 && py < 0 {
				vp.Assert(idx[i] < idx[j], "SortSegmentsByOrder keeps the relative order otherwise")
			}
		}
	}
}

// C18_equal: SortSegmentsByOrder over 3 (4) segments with at most two different tokens, different infos, and an order list of any one or two of the infos.
func C18_equal() {
	n := vp.Bound(3, 4)
	a, b := anySpan("x"), anySpan("y")
	vp.Assume(!a.clashes(b))
	names := []string{"p", "q", "r", "s", "t"}
	spans := []span{}
	for i := 0; i < n; i++ {
		x := a
		if vp.Bool() {
			x = b
		}
		x.seg.Info = names[i]
		spans = append(spans, x)
	}
	order := []string{}
	for i := vp.Choose(2); i >= 0; i-- {
		c := names[vp.Choose(n)]
		vp.Assume(position(order, c) < 0)
		order = append(order, c)
	}
	out := []tok.Segment{}
	for _, x := range spans {
		out = append(out, x.seg)
	}
	tok.SortSegmentsByOrder(out, order)
	checkByOrder(spans, out, order)
}

// C18_many: SortSegments and SortSegmentsByOrder over 13, 25 and 40 segments that stand from left to right, nested or with equal tokens, given in ascending, descending or mixed order, one of them with an arbitrary token (among 40: one of 48) that clashes with none.
func C18_many() {
	n := pickInt(13, 25, 40)
	shape := vp.Choose(3)
	spans := []span{}
	for i := 0; i < n; i++ {
		var a, b int
		switch shape {
		case 0: // side by side, every third one empty
			a, b = 2*i, 2*i+2
			if i%3 == 2 {
				b = a
			}
		case 1: // nested
			a, b = i, 300-i
		case 2: // four different tokens
			a, b = 10*(i%4), 10*(i%4)+5
		}
		info := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[i : i+1]
		spans = append(spans, span{seg(info, a, b), a, b})
	}
	mixed := []span{}
	switch vp.Choose(3) {
	case 0:
		mixed = spans
	case 1:
		for i := n - 1; i >= 0; i-- {
			mixed = append(mixed, spans[i])
		}
	case 2:
		for i := 0; i < n; i++ {
			mixed = append(mixed, spans[i*7%n])
		}
	}
	for _, k := range []int{n / 3} {
		x := anySpan(mixed[k].seg.Info)
		if n > 25 {
			a := pickInt(0, 2*(n/2), 2*n-3, 240) + vp.Choose(3)
			b := a + pickInt(0, 1, 2, 60)
			x = span{seg(mixed[k].seg.Info, a, b), a, b}
		}
		for j, y := range mixed {
			if j != k {
				vp.Assume(!x.clashes(y))
			}
		}
		mixed[k] = x
	}
	out := segsOf(mixed)
	if vp.Choose(2) == 0 {
		tok.SortSegments(out)
		idx := checkSorted(mixed, out, "SortSegments")
		for i := range idx {
			for j := i + 1; j < len(idx); j++ {
				if mixed[idx[i]].same(mixed[idx[j]]) {
					vp.Assert(idx[i] < idx[j], "SortSegments keeps the relative order of equal segments")
				}
			}
		}
		return
	}
	order := []string{}
	from := n - 1
	if vp.Bool() {
		from = -1 // none is listed
	}
	for i := from; i >= 0; i-- {
		order = append(order, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[i:i+1])
	}
	tok.SortSegmentsByOrder(out, order)
	checkByOrder(mixed, out, order)
}
