package props

import (
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// C29_history: the two readers of a pair used in any order for 3 (4) steps at arbitrary positions of every text of up to 3 (4) bytes; the first reader matches what an arbitrary sub-reader matches, the second is used directly, in look-ahead or in a search.
func C29_history() {
	t := text(vp.Bound(3, 4))
	st := &stub{n: len(t), tame: true}
	beg, end := tok.Janus("x", st.reader())
	cur := ""
	steps := vp.Bound(3, 4)
	for i := 0; i < steps; i++ {
		s, p := at(t)
		op := vp.Choose(4)
		if i == 0 {
			vp.Assume(op == 0)
		}
		switch op {
		case 0:
			err := s.Use(beg)
			o := st.at(p)
			vp.Assert((err == nil) == o.ok, "the first reader succeeds when its reader does")
			if o.ok {
				vp.Assert(pos(s) == o.end, "the first reader reads what its reader reads")
				cur = t[p:o.end]
			} else {
				vp.Assert(pos(s) == p, "a failing first reader does not move")
			}
		case 1:
			err := s.Use(end)
			want := strings.HasPrefix(t[p:], cur)
			vp.Assert((err == nil) == want, "the second reader succeeds exactly where the captured text stands")
			if err == nil {
				vp.Assert(pos(s) == p+len(cur), "the second reader reads the captured text")
			} else {
				vp.Assert(pos(s) == p, "a failing second reader does not move")
			}
		case 2:
			err := s.Use(tok.At(end))
			vp.Assert((err == nil) == strings.HasPrefix(t[p:], cur), "looking ahead succeeds exactly where the captured text stands")
			vp.Assert(pos(s) == p, "looking ahead does not move")
		case 3:
			err := s.Use(tok.To(end))
			q := p
			for q < len(t) && !strings.HasPrefix(t[q:], cur) {
				_, w := dec(t, q)
				q += w
			}
			found := strings.HasPrefix(t[q:], cur)
			vp.Assert((err == nil) == found, "searching succeeds exactly if the captured text follows")
			if found {
				vp.Assert(pos(s) == q, "searching stops at the captured text")
			}
		}
	}
}

// C29_pair: a whole bracket read with one pair: beg, a separator, end, end again; every text of up to 6 (8) bytes, the captured text being a run of one arbitrary rune.
func C29_pair() {
	t := text(vp.Bound(6, 8))
	c := vp.Byte()
	vp.Assume(c < 0x80)
	beg, end := tok.Janus("x", tok.Zom(rune(c)))
	r := tok.Seq(beg, ":", end, ":", end)
	s := tok.NewScanner(t)
	err := s.Use(r)
	n := 0
	for n < len(t) && t[n] == c {
		n++
	}
	want := t[:n] + ":" + t[:n] + ":" + t[:n]
	vp.Assert((err == nil) == strings.HasPrefix(t, want), "both ends stand for the same text")
	if err == nil {
		vp.Assert(pos(s) == len(want), "the whole bracket is read")
	}
}

// C29_long: captured texts of up to 300 bytes, with an arbitrary byte in it or behind it, looked for in a text that has a long prefix of it first.
func C29_long() {
	n := pickInt(8, 17, 40, 70, 130, 300)
	w := rep("ab", 150)[:n]
	i := pickInt(0, n/2, n-1)
	w = w[:i] + vp.Str(1) + w[i+1:]
	beg, end := tok.Janus("x", tok.Past(';'))
	t := w + ";" + w + w[:n-1] + vp.Str(1) + w + ";" + w + ";"
	s := tok.NewScanner(t)
	err := s.Use(beg)
	vp.Assert(err == nil, "the first reader succeeds when its reader does")
	k := 0
	for t[k] != ';' {
		k++
	}
	cur := t[:k+1]
	vp.Assert(pos(s) == len(cur), "the first reader reads what its reader reads")
	for round := 0; round < 2; round++ {
		s.ToMarker(tok.Marker(k + 1))
		err = s.Use(tok.Past(end))
		q := k + 1
		for q < len(t) && !strings.HasPrefix(t[q:], cur) {
			_, x := dec(t, q)
			q += x
		}
		found := strings.HasPrefix(t[q:], cur)
		vp.Assert((err == nil) == found, "searching succeeds exactly if the captured text follows")
		if found {
			vp.Assert(pos(s) == q+len(cur), "searching stops behind the captured text")
		}
	}
}
