package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

func anyToken() (tok.Token, int, int) {
	a, b := vp.Int(), vp.Int()
	t := tok.MakeToken(tok.Marker(a), tok.Marker(b))
	if a > b {
		a, b = b, a
	}
	return t, a, b
}

func mkToken(a, b int) tok.Token { return tok.MakeToken(tok.Marker(a), tok.Marker(b)) }

// C16_relations covers all tokens over all 64-bit markers, two at a time.
func C16_relations() {
	t, a, b := anyToken()
	u, c, d := anyToken()
	vp.Assert(t == mkToken(b, a), "the order of the markers does not matter")
	vp.Assert(t.Before(u) == (b <= c), "Before: ends at or before the start")
	vp.Assert(t.After(u) == (a >= d), "After: starts at or after the end")
	vp.Assert(t.After(u) == u.Before(t), "Before and After mirror each other")
	vp.Assert(t.Covers(u) == (a <= c && d <= b), "Covers: contains the interval")
	overlap := max(a, c) < min(b, d)
	cov := a <= c && d <= b || c <= a && b <= d
	vp.Assert(t.Clashes(u) == (overlap && !cov), "Clashes: overlap without covering")
	vp.Assert(t.Clashes(u) == u.Clashes(t), "Clashes is symmetric")
	m := t.Merge(u)
	vp.Assert(m == mkToken(min(a, c), max(b, d)), "Merge is the smallest covering token")
	vp.Assert(m == u.Merge(t), "Merge is symmetric")
	vp.Assert((t == u) == (a == c && b == d), "tokens are equal exactly if their markers are")
}

// C16_order covers all triples of tokens over all 64-bit markers.
func C16_order() {
	t, a, b := anyToken()
	u, c, d := anyToken()
	v, _, _ := anyToken()
	vp.Assert(t.Covers(t), "Covers is reflexive")
	vp.Assert(!(t.Covers(u) && u.Covers(t)) || t == u, "Covers is antisymmetric")
	vp.Assert(!(t.Covers(u) && u.Covers(v)) || t.Covers(v), "Covers is transitive")
	vp.Assert(!(t.Before(u) && u.Before(v)) || t.Before(v), "Before is transitive")
	m := t.Merge(u)
	vp.Assert(m.Covers(t) && m.Covers(u), "Merge covers both")
	vp.Assert(!(v.Covers(t) && v.Covers(u)) || v.Covers(m), "nothing smaller than Merge covers both")
	n := 0
	if t.Before(u) || t.After(u) {
		n++
	} else {
		if t.Covers(u) || u.Covers(t) {
			n++
		}
		if t.Clashes(u) {
			n++
		}
	}
	vp.Assert(n == 1, "apart, covering or clashing: exactly one holds")
	vp.Assert(t.Len() == b-a && u.Len() == d-c, "Len is the distance of the markers")
}

// C16_split covers all tokens over all 64-bit markers and all separators, inside or not.
func C16_split() {
	t, a, b := anyToken()
	u, c, d := anyToken()
	l, r := t.Split(u)
	if !t.Covers(u) {
		vp.Assert(l == mkToken(min(a, c), max(a, c)) && r == mkToken(min(b, d), max(b, d)), "the parts never end before they start")
		return
	}
	vp.Assert(l == mkToken(a, c), "the left part runs from the start to the separator")
	vp.Assert(r == mkToken(d, b), "the right part runs from the separator to the end")
	vp.Assert(l.Before(u) && u.Before(r), "the parts are at the sides of the separator")
	vp.Assert(l.Merge(u).Merge(r) == t, "the parts and the separator make up the token")
	info, sep := text(2), text(1)
	sl, sr := tok.Segment{Info: info, Token: t}.Split(tok.Segment{Info: sep, Token: u})
	vp.Assert(sl.Token == l && sr.Token == r && sl.Info == info && sr.Info == info, "segments split like tokens and keep their info")
	vp.Assert(tok.Segment{Info: info, Token: t}.Known() == (info != ""), "a segment is known exactly if it has an info")
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
