package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// inside asserts the position invariant.
func inside(s *tok.Scanner, t string) {
	p := pos(s)
	vp.Assert(0 <= p && p <= len(t), "position inside the text")
	vp.Assert(s.Head() == t[:p] && s.Tail() == t[p:], "Head and Tail are the two parts of the text")
	vp.Assert(s.AtStart() == (p == 0), "AtStart tells position 0")
	vp.Assert(s.AtEnd() == (p == len(t)), "AtEnd tells the end")
}

const nMoves = 7

// moveOp is one arbitrary movement.
func moveOp(s *tok.Scanner, t string) {
	p := pos(s)
	switch vp.Choose(nMoves) {
	case 0:
		n := vp.Int()
		ok := s.Move(n)
		in := n >= -p && n <= len(t)-p
		vp.Assert(ok == in, "Move succeeds exactly inside the text")
		if in {
			vp.Assert(pos(s) == p+n, "Move moves by n")
		} else {
			vp.Assert(pos(s) == p, "a refused Move does not move")
		}
	case 1:
		n := vp.Int()
		ok := s.MoveRunes(n)
		if !ok {
			vp.Assert(pos(s) == p, "a refused MoveRunes does not move")
		}
	case 2:
		m := vp.Int()
		ok := s.ToMarker(tok.Marker(m))
		in := 0 <= m && m <= len(t)
		vp.Assert(ok == in, "ToMarker succeeds exactly inside the text")
		if in {
			vp.Assert(pos(s) == m, "ToMarker moves to the marker")
		} else {
			vp.Assert(pos(s) == p, "a refused ToMarker does not move")
		}
	case 3:
		s.ToEnd()
		vp.Assert(pos(s) == len(t), "ToEnd goes to the end")
	case 4:
		s.ToStart()
		vp.Assert(pos(s) == 0, "ToStart goes to the start")
	case 5:
		s.ScanString(vp.Int())
	case 6:
		_, e := s.ReadRune()
		if e == nil {
			s.RevReadRune()
		} else {
			s.RevReadRune()
		}
	}
}

// C01_move: all texts of up to 4 bytes (thorough 5), every position, Move/MoveRunes/ToMarker/ToEnd/ToStart/ScanString/ReadRune with any 64-bit argument, two operations in a row.
func C01_move() {
	t := text(vp.Bound(4, 5))
	s, _ := at(t)
	moveOp(s, t)
	inside(s, t)
	moveOp(s, t)
	inside(s, t)
	vp.ObserveInt("pos", pos(s))
}

// C01_literal: texts of up to 4 bytes (5), patterns of up to 3 bytes (4), every position, all literal and folding scans.
func C01_literal() {
	t := text(vp.Bound(4, 5))
	s, _ := at(t)
	switch vp.Choose(6) {
	case 0:
		s.If(text(vp.Bound(3, 4)))
	case 1:
		s.IfAny(text(2), text(2))
	case 2:
		s.To(text(vp.Bound(3, 4)))
	case 3:
		s.RevIf(text(vp.Bound(3, 4)))
	case 4:
		s.RevIfAny([]string{text(2), text(2)})
	case 5:
		s.RevTo(text(vp.Bound(3, 4)))
	}
	inside(s, t)
	vp.ObserveInt("pos", pos(s))
}

// C01_fold: texts of up to 3 bytes (4), patterns of up to 4 bytes (5), so also patterns longer than the text, every position, IfFold/ToFold/RevIfFold/RevToFold.
func C01_fold() {
	t := text(vp.Bound(3, 4))
	s, _ := at(t)
	pat := text(vp.Bound(4, 5))
	switch vp.Choose(4) {
	case 0:
		s.IfFold(pat)
	case 1:
		s.ToFold(pat)
	case 2:
		s.RevIfFold(pat)
	case 3:
		s.RevToFold(pat)
	}
	inside(s, t)
	vp.ObserveInt("pos", pos(s))
}

// C01_class: texts of up to 4 bytes (5), every position, all forward and backward rune-class scans with any rune, range, uninterpreted predicate or a set of up to 2 bytes (3).
func C01_class() {
	t := text(vp.Bound(4, 5))
	s, _ := at(t)
	classOp(s)
	inside(s, t)
	vp.ObserveInt("pos", pos(s))
}

func classOp(s *tok.Scanner) {
	switch vp.Choose(4) {
	case 0:
		r := vp.Rune()
		switch vp.Choose(6) {
		case 0:
			s.IfRune(r)
		case 1:
			s.ToRune(r)
		case 2:
			s.WhileRune(r)
		case 3:
			s.RevIfRune(r)
		case 4:
			s.RevToRune(r)
		case 5:
			s.RevWhileRune(r)
		}
	case 1:
		set := text(vp.Bound(2, 3))
		switch vp.Choose(6) {
		case 0:
			s.IfAnyRune(set)
		case 1:
			s.ToAnyRune(set)
		case 2:
			s.WhileAnyRune(set)
		case 3:
			s.RevIfAnyRune(set)
		case 4:
			s.RevToAnyRune(set)
		case 5:
			s.RevWhileAnyRune(set)
		}
	case 2:
		a, b := vp.Rune(), vp.Rune()
		switch vp.Choose(6) {
		case 0:
			s.IfBetween(a, b)
		case 1:
			s.ToBetween(a, b)
		case 2:
			s.WhileBetween(a, b)
		case 3:
			s.RevIfBetween(a, b)
		case 4:
			s.RevToBetween(a, b)
		case 5:
			s.RevWhileBetween(a, b)
		}
	case 3:
		f := vp.RunePred()
		switch vp.Choose(6) {
		case 0:
			s.IfMatch(f)
		case 1:
			s.ToMatch(f)
		case 2:
			s.WhileMatch(f)
		case 3:
			s.RevIfMatch(f)
		case 4:
			s.RevToMatch(f)
		case 5:
			s.RevWhileMatch(f)
		}
	}
}

// C01_read: texts of up to 4 bytes (6), every position, ReadBool, ReadInt and ReadUint with every base, size and format of up to 2 bytes, LineCol, then one more movement.
func C01_read() {
	t := text(vp.Bound(4, 6))
	s, p := at(t)
	switch vp.Choose(4) {
	case 0:
		s.ReadBool(text(2))
	case 1:
		s.ReadInt(vp.Int(), vp.Int())
	case 2:
		s.ReadUint(vp.Int(), vp.Int())
	case 3:
		s.LineCol(vp.Int())
		vp.Assert(pos(s) == p, "LineCol does not move")
	}
	inside(s, t)
	vp.ObserveInt("pos", pos(s))
}

// C01_long: texts of 70 bytes with two arbitrary ones in the middle, at both ends and three places between, one arbitrary movement with any 64-bit argument.
func C01_long() {
	u := unit()
	t := rep(u, 32/len(u)) + vp.Str(2) + rep(u, 32/len(u))
	s, _ := atOf(t, 0, len(u), len(t)/2, len(t)-len(u), len(t))
	moveOp(s, t)
	inside(s, t)
	vp.ObserveInt("pos", pos(s))
}

// C01_far: texts of 300 characters of every width with an arbitrary byte among them, movements by, to and over about 64, 128, 255, 256 and all of them from both ends, to both ends and one step beyond.
func C01_far() {
	u := unit()
	k := pickInt(0, 127, 299)
	t := rep(u, k) + vp.Str(1) + rep(u, 299-k)
	s, p := atOf(t, 0, len(t))
	d := pickInt(64, 128, 255, 256, 299) + vp.Choose(3)
	switch vp.Choose(5) {
	case 0:
		d = d * pickInt(1, len(u))
		if p > 0 {
			d = -d
		}
		ok := s.Move(d)
		in := 0 <= p+d && p+d <= len(t)
		vp.Assert(ok == in, "Move succeeds exactly inside the text")
		if in {
			vp.Assert(pos(s) == p+d, "Move moves by n")
		} else {
			vp.Assert(pos(s) == p, "a refused Move does not move")
		}
	case 1:
		if p > 0 {
			d = -d
		}
		if !s.MoveRunes(d) {
			vp.Assert(pos(s) == p, "a refused MoveRunes does not move")
		}
	case 2:
		d = d * pickInt(1, len(u))
		ok := s.ToMarker(tok.Marker(d))
		vp.Assert(ok == (d <= len(t)), "ToMarker succeeds exactly inside the text")
		if ok {
			vp.Assert(pos(s) == d, "ToMarker moves to the marker")
		} else {
			vp.Assert(pos(s) == p, "a refused ToMarker does not move")
		}
	case 3:
		s.ScanString(d)
	case 4:
		if vp.Bool() {
			s.ToEnd()
			vp.Assert(pos(s) == len(t), "ToEnd goes to the end")
		} else {
			s.ToStart()
			vp.Assert(pos(s) == 0, "ToStart goes to the start")
		}
	}
	inside(s, t)
	vp.ObserveInt("pos", pos(s))
}

// C01_new: a new scanner over any text of up to 4 (5) bytes starts at the start, a new reverse scanner at the end.
func C01_new() {
	t := text(vp.Bound(4, 5))
	s, r := tok.NewScanner(t), tok.NewRevScanner(t)
	vp.Assert(pos(s) == 0, "a new scanner is at the start")
	vp.Assert(pos(r) == len(t), "a new reverse scanner is at the end")
	inside(s, t)
	inside(r, t)
	vp.Assert(s.ToEnd() && r.ToStart(), "both ends can be reached")
	vp.Assert(pos(s) == len(t) && pos(r) == 0, "ToEnd and ToStart move to the ends")
}
