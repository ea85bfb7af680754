package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// refTile is the expected tiling of [a,b).
func refTile(info string, a, b int, spans []span) ([]tok.Segment, bool) {
	res := []tok.Segment{}
	for _, x := range spans {
		if x.a < a || x.b > b {
			return nil, false
		}
		if x.a > a {
			res = append(res, seg(info, a, x.a))
		}
		res = append(res, x.seg)
		a = x.b
	}
	if a < b {
		res = append(res, seg(info, a, b))
	}
	return res, true
}

func tile(n int) []span {
	spans := []span{}
	for i := 0; i < n; i++ {
		spans = append(spans, anySpan("abcdef"[i:i+1]))
	}
	return spans
}

func segsOf(spans []span) []tok.Segment {
	res := []tok.Segment{}
	for _, x := range spans {
		res = append(res, x.seg)
	}
	return res
}

func checkTiles(res []tok.Segment, err error, want []tok.Segment, ok bool) {
	vp.Assert((err == nil) == ok, "an error exactly if a segment is out of order, overlaps or leaves the range")
	if ok {
		vp.Assert(sameSegs(res, want), "the result is the segments in order with every gap filled")
	}
}

// C19_segment: Segmentate of an arbitrary segment with up to 4 (5) arbitrary segments over all non-negative markers.
func C19_segment() {
	s := anySpan(text(1))
	spans := tile(vp.Choose(vp.Bound(4, 5) + 1))
	want, ok := refTile(s.seg.Info, s.a, s.b, spans)
	in := segsOf(spans)
	res, err := s.seg.Segmentate(in)
	checkTiles(res, err, want, ok)
	vp.Assert(sameSegs(in, segsOf(spans)), "the given segments are not changed")
}

// C19_scanner: Segmentate of a scanner over texts of up to 3 bytes at any position with up to 3 (4) arbitrary segments.
func C19_scanner() {
	t := blank(vp.Choose(4))
	s, _ := start(t)
	spans := tile(vp.Choose(vp.Bound(3, 4) + 1))
	want, ok := refTile("", 0, len(t), spans)
	res, err := s.Segmentate(segsOf(spans))
	checkTiles(res, err, want, ok)
}

// C19_many: 9, 17, 33, 70 and 140 segments side by side with gaps, one of them arbitrary.
func C19_many() {
	n := pickInt(9, 17, 33, 70, 140)
	spans := []span{}
	for i := 0; i < n; i++ {
		a, b := 4*i+1, 4*i+3
		if i%3 == 1 {
			b = a + 4
		}
		spans = append(spans, span{seg("x", a, b), a, b})
	}
	k := pickInt(0, 8, n-1)
	spans[k] = anySpan("y")
	e := within(4*n, 4*n+4)
	s := span{seg("s", 0, e), 0, e}
	want, ok := refTile("s", 0, e, spans)
	res, err := s.seg.Segmentate(segsOf(spans))
	checkTiles(res, err, want, ok)
}
