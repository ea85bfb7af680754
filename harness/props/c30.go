package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// C30_linecol: every text of up to 5 (7) bytes, every position, every tab width up to 64.
func C30_linecol() {
	t := text(vp.Bound(5, 7))
	s, p := at(t)
	checkLineCol(s, p, t)
}

func checkLineCol(s *tok.Scanner, p int, t string) {
	tab := vp.Int()
	vp.Assume(tab >= 0 && tab <= 64)
	line, col := s.LineCol(tab)
	wl, bytes, tabs := 1, 0, 0
	for i := 0; i < p; i++ {
		if t[i] == '\n' {
			wl++
			bytes, tabs = 0, 0
			continue
		}
		if t[i] == '\t' {
			tabs++
		} else {
			bytes++
		}
	}
	vp.ObserveInt("line", line)
	vp.Assert(line == wl, "the line is 1 plus the number of line breaks before the position")
	vp.Assert(col == bytes+tabs*tab+1, "the column is 1 plus the width since the last line break")
	vp.Assert(pos(s) == p, "asking for the line does not move")
}

// C30_template: lines of fixed length with arbitrary bytes at the line ends and at the position, so that line breaks of both kinds, tabs and other bytes meet; texts of 9 (12) bytes.
func C30_template() {
	t := "ab" + vp.Str(2) + "c" + vp.Str(vp.Bound(2, 3)) + "de" + vp.Str(vp.Bound(0, 2))
	s := tok.NewScanner(t)
	s.ToEnd()
	line, col := s.LineCol(4)
	wl, wc := 1, 1
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '\n':
			wl++
			wc = 1
		case '\t':
			wc += 4
		default:
			wc++
		}
	}
	vp.Assert(line == wl, "the line is 1 plus the number of line breaks")
	vp.Assert(col == wc, "the column is 1 plus the width of the last line")
}

// C30_long: texts of 12 and 40 lines of up to 20 characters with both kinds of line breaks, tabs and characters of several bytes, with an arbitrary byte in the middle, at the end and at several places between.
func C30_long() {
	t := ""
	n := pickInt(12, 40)
	b := vp.Str(1)
	ps := []int{0}
	for i := 0; i < n; i++ {
		if i == n/2 {
			t += b
			ps = append(ps, len(t))
		}
		t += rep("x\u00e9\t", i*3%7) + pick2(i%3 == 1, "\r\n", "\n")
		if i == n/2 || i == n-1 {
			ps = append(ps, len(t)-1, len(t))
		}
	}
	t += "\t\ta" + vp.Str(1)
	ps = append(ps, len(t)-1, len(t))
	s, p := atOf(t, ps...)
	checkLineCol(s, p, t)
}

func pick2(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

// C30_far: texts of 300 lines, and lines of 300 characters of every width or tabs, with an arbitrary byte in front of them, among them and behind them; any tab width.
func C30_far() {
	u := pick("\n", "\r\n", "x\n", "a", "\u00e9", "\u20ac", "\U0001F600", "\t")
	b := vp.Str(1)
	t, n := "", 300
	ps := []int{}
	switch vp.Choose(3) {
	case 0:
		t = b + rep(u, n)
	case 1:
		t = rep(u, n/2) + b + rep(u, n/2)
		ps = append(ps, n/2*len(u), n/2*len(u)+1)
	case 2:
		t = rep(u, n) + b
		ps = append(ps, len(t)-1)
	}
	s, p := atOf(t, append(ps, 260*len(u), len(t))...)
	checkLineCol(s, p, t)
}
