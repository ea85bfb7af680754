package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// class is an arbitrary rune class: 0 one rune, 1 a set, 2 a range, 3 a predicate.
type class struct {
	kind int
	r    rune
	set  string
	a, b rune
	f    func(rune) bool
	long bool // the known finding of WhileAnyRune is left to C04_set
}

func anyClass(kind, maxSet int) class {
	c := class{kind: kind}
	switch kind {
	case 0:
		c.r = vp.Rune()
	case 1:
		c.set = text(maxSet)
	case 2:
		c.a, c.b = vp.Rune(), vp.Rune()
	case 3:
		c.f = vp.RunePred()
	}
	return c
}

// has is membership by definition.
func (c class) has(r rune) bool {
	switch c.kind {
	case 0:
		return r == c.r
	case 1:
		return inSet(c.set, r)
	case 2:
		return c.a <= r && r <= c.b
	}
	return c.f(r)
}

func inSet(set string, r rune) bool {
	for i := 0; i < len(set); {
		x, n := dec(set, i)
		if x == r {
			return true
		}
		i += n
	}
	return false
}

func (c class) If(s *tok.Scanner) bool {
	switch c.kind {
	case 0:
		return s.IfRune(c.r)
	case 1:
		return s.IfAnyRune(c.set)
	case 2:
		return s.IfBetween(c.a, c.b)
	}
	return s.IfMatch(c.f)
}

func (c class) To(s *tok.Scanner) bool {
	switch c.kind {
	case 0:
		return s.ToRune(c.r)
	case 1:
		return s.ToAnyRune(c.set)
	case 2:
		return s.ToBetween(c.a, c.b)
	}
	return s.ToMatch(c.f)
}

func (c class) While(s *tok.Scanner) bool {
	switch c.kind {
	case 0:
		return s.WhileRune(c.r)
	case 1:
		return s.WhileAnyRune(c.set)
	case 2:
		return s.WhileBetween(c.a, c.b)
	}
	return s.WhileMatch(c.f)
}

func (c class) RevIf(s *tok.Scanner) bool {
	switch c.kind {
	case 0:
		return s.RevIfRune(c.r)
	case 1:
		return s.RevIfAnyRune(c.set)
	case 2:
		return s.RevIfBetween(c.a, c.b)
	}
	return s.RevIfMatch(c.f)
}

func (c class) RevTo(s *tok.Scanner) bool {
	switch c.kind {
	case 0:
		return s.RevToRune(c.r)
	case 1:
		return s.RevToAnyRune(c.set)
	case 2:
		return s.RevToBetween(c.a, c.b)
	}
	return s.RevToMatch(c.f)
}

func (c class) RevWhile(s *tok.Scanner) bool {
	switch c.kind {
	case 0:
		return s.RevWhileRune(c.r)
	case 1:
		return s.RevWhileAnyRune(c.set)
	case 2:
		return s.RevWhileBetween(c.a, c.b)
	}
	return s.RevWhileMatch(c.f)
}

var fwdIf = [4]string{"IfRune", "IfAnyRune", "IfBetween", "IfMatch"}
var fwdTo = [4]string{"ToRune", "ToAnyRune", "ToBetween", "ToMatch"}
var fwdWhile = [4]string{"WhileRune", "WhileAnyRune", "WhileBetween", "WhileMatch"}

// WhileAnyRuneRest is the label of a known finding.
const WhileAnyRuneRest = "WhileAnyRune moves when every rune up to the end is in the set"

func forward(t string, c class) {
	s, p := at(t)
	forwardAt(s, p, t, c)
}

func forwardAt(s *tok.Scanner, p int, t string, c class) {
	switch vp.Choose(3) {
	case 0:
		ok := c.If(s)
		want := -1
		if r, n := dec(t, p); n > 0 && c.has(r) {
			want = p + n
		}
		checkStep(ok, pos(s), p, want, fwdIf[c.kind])
	case 1:
		ok := c.To(s)
		want := -1
		for i := p; i < len(t); {
			r, n := dec(t, i)
			if c.has(r) {
				want = i
				break
			}
			i += n
		}
		checkStep(ok, pos(s), p, want, fwdTo[c.kind])
	case 2:
		ok := c.While(s)
		i := p
		for i < len(t) {
			r, n := dec(t, i)
			if !c.has(r) {
				break
			}
			i += n
		}
		if i == p {
			i = -1
		}
		if c.kind == 1 && i == len(t) {
			vp.Assert(ok, "WhileAnyRune: succeeds")
			if c.long && pos(s) == p {
				return
			}
			if pos(s) == p {
				vp.Assert(false, WhileAnyRuneRest)
			} else {
				vp.Assert(pos(s) == i, "WhileAnyRune: stops at the right place")
			}
			return
		}
		checkStep(ok, pos(s), p, i, fwdWhile[c.kind])
	}
}

// C04_rune: all texts of up to 5 bytes (thorough 7), every position, every rune.
func C04_rune() { forward(text(vp.Bound(5, 7)), anyClass(0, 0)) }

// C04_set: all texts of up to 4 bytes (5), every position, every set of up to 3 bytes (4).
func C04_set() { forward(text(vp.Bound(4, 5)), anyClass(1, vp.Bound(3, 4))) }

// C04_range: all texts of up to 5 bytes (7), every position, every range.
func C04_range() { forward(text(vp.Bound(5, 7)), anyClass(2, 0)) }

// C04_match: all texts of up to 5 bytes (6), every position, every predicate.
func C04_match() { forward(text(vp.Bound(5, 6)), anyClass(3, 0)) }

// longClass is a class of an arbitrary rune, set, range or predicate; the sets have up to 40 members of which up to one is arbitrary.
func longClass() class {
	k := vp.Choose(4)
	c := class{kind: k, long: true}
	switch k {
	case 0:
		c.r = vp.Rune()
	case 1:
		c.set = pick("", "bcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNO", "\u00E8\u20AC") + text(1) + pick("", "\U0001F600\u00E9", "0123456789a")
	case 2:
		c.a, c.b = vp.Rune(), vp.Rune()
	case 3:
		c.f = vp.RunePred()
	}
	return c
}

// C04_long: runs of 9 (36) equal characters of every width between texts of up to one arbitrary byte, all classes (sets of up to 40 members), all operations, from the start, behind one character and from the end.
func C04_long() {
	u := unit()
	n := vp.Bound(9, 36)
	t := text(1) + rep(u, n) + text(1)
	s, p := atOf(t, 0, len(u), len(t)-len(u), len(t))
	forwardAt(s, p, t, longClass())
}

// farClass is a class with one member or with many.
func farClass() class {
	switch vp.Choose(4) {
	case 0:
		return class{kind: 0, long: true, r: vp.Rune()}
	case 1:
		return class{kind: 1, long: true, set: pick("a", rep("bcdefghijk", 7)+"a") + "\u00E9\u20AC\U0001F600"}
	case 2:
		return class{kind: 2, long: true, a: vp.Rune(), b: 0x1F600}
	}
	return class{kind: 3, long: true, f: vp.RunePred()}
}

// C04_far: a run of 270 equal characters of every width and one arbitrary byte, all classes (sets of up to 74 members), all operations from the start.
func C04_far() {
	u := unit()
	t := rep(u, 270) + vp.Str(1)
	s, p := atOf(t, 0)
	forwardAt(s, p, t, farClass())
}

// C04_gap: as C04_long, with an arbitrary byte in the middle of the run and one at the end.
func C04_gap() {
	u := unit()
	n := vp.Bound(5, 18)
	t := rep(u, n) + vp.Str(1) + rep(u, n) + text(1)
	s, p := atOf(t, 0, len(u))
	forwardAt(s, p, t, longClass())
}
