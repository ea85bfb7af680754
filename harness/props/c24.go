package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

// diary is what a log should record: it notes beneath every monitored reader what happens.
type diary struct {
	log     *tok.Log
	entries []tok.LogEntry
	level   int
	resets  int
}

func (d *diary) monitored(r tok.Reader, info string) tok.Reader {
	return tok.Monitor(tok.Wrap("diary", func(s *tok.Scanner) error {
		d.level++
		i, n := len(d.entries), d.resets
		d.entries = append(d.entries, tok.LogEntry{EnterAt: pos(s), Info: info, Level: d.level})
		err := r.Read(s)
		if n == d.resets {
			d.entries[i].ExitAt = pos(s)
			d.entries[i].Error = err
			d.level--
		}
		return err
	}), d.log, info)
}

// reset empties the log in the middle of a read.
func (d *diary) reset() {
	d.log.Reset()
	vp.Assert(len(d.log.Entries) == 0, "Reset empties the log")
	d.entries, d.level = nil, 0
	d.resets++
}

func sameError(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, ok1 := a.(tok.ReadError)
	y, ok2 := b.(tok.ReadError)
	return ok1 == ok2 && x == y
}

func (d *diary) check() {
	es := d.log.Entries
	vp.ObserveInt("entries", len(es))
	vp.Assert(len(es) == len(d.entries), "one entry per attempt")
	if len(es) != len(d.entries) {
		return
	}
	for i, e := range es {
		w := d.entries[i]
		vp.Assert(e.Info == w.Info && e.EnterAt == w.EnterAt, "entries are in the order in which the attempts began")
		vp.Assert(e.Level == w.Level, "an entry has the nesting level of its attempt")
		vp.Assert(e.ExitAt == w.ExitAt, "an entry tells where its attempt ended")
		vp.Assert(sameError(e.Error, w.Error), "an entry has the error of its attempt")
	}
	d.log.Reset()
	vp.Assert(len(d.log.Entries) == 0, "Reset empties the log")
}

// C24_nested: a monitored combinator over monitored combinators over monitored arbitrary readers; texts of 2 bytes, two reads in a row.
func C24_nested() {
	const n = 2
	t := blank(n)
	d := &diary{log: &tok.Log{}}
	leafs := func(i string) tok.Reader {
		return d.monitored((&stub{n: n, fwd: true}).reader(), i)
	}
	two := func(k int, a, b tok.Reader) tok.Reader {
		switch k {
		case 0:
			return tok.Seq(a, b)
		case 1:
			return tok.Any(a, b)
		case 2:
			return tok.Seq(tok.Opt(a), tok.Zom(b))
		case 3:
			return tok.Any(tok.Not(a), tok.Many(b))
		}
		return tok.Seq(tok.At(a), tok.Past(b))
	}
	k1, k2 := vp.Choose(5), vp.Choose(5)
	inner := d.monitored(two(k1, leafs("a"), leafs("b")), "inner")
	r := d.monitored(two(k2, inner, leafs("c")), "outer")
	s := tok.NewScanner(t)
	s.Use(r)
	d.check()
}

// C24_repeat: a monitored repetition whose element is attempted up to 9 (10) times, so that the log grows meanwhile; then a second read continues or, after a Reset, restarts the log.
func C24_repeat() {
	n := vp.Bound(8, 9)
	t := blank(n)
	d := &diary{log: &tok.Log{}}
	el := d.monitored((&stub{n: n, tame: true, some: true}).reader(), "el")
	r := d.monitored(tok.Zom(el), "zom")
	s := tok.NewScanner(t)
	s.Use(r)
	if vp.Bool() {
		d.check()
		d.entries = nil
	}
	s.ToStart()
	s.Use(r)
	d.check()
}

// C24_rules: rules of a grammar monitored through MonitorGrammar.
func C24_rules() {
	const n = 2
	d := &diary{}
	g := &twoRules{}
	note := func(info string, r tok.Reader) tok.Reader {
		return tok.Wrap("diary", func(s *tok.Scanner) error {
			d.level++
			i := len(d.entries)
			d.entries = append(d.entries, tok.LogEntry{EnterAt: pos(s), Info: info, Level: d.level})
			err := r.Read(s)
			d.entries[i].ExitAt = pos(s)
			d.entries[i].Error = err
			d.level--
			return err
		})
	}
	g.B = tok.Rule{Name: "b", Reader: note("b", (&stub{n: n, fwd: true}).reader())}
	g.A = tok.Rule{Name: "a", Reader: note("a", tok.Seq(tok.Opt(&g.B), tok.Any(&g.B, tok.Not(&g.B))))}
	d.log = tok.MonitorGrammar(g)
	s := tok.NewScanner(blank(n))
	s.Use(g)
	d.check()
}

type twoRules struct {
	A tok.Rule `name:"a"`
	B tok.Rule `name:"b"`
}

func (g *twoRules) Read(s *tok.Scanner) error { return g.A.Read(s) }
func (g *twoRules) What() string              { return "two" }
func (g *twoRules) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

// C24_again: up to 4 (5) reads in a row, successful or not, with the same log and with or without Reset between them: a monitored pair of monitored arbitrary readers, and a monitored leaf; texts of 2 bytes.
func C24_again() {
	const n = 2
	d := &diary{log: &tok.Log{}}
	a := d.monitored((&stub{n: n, fwd: true, other: true}).reader(), "a")
	b := d.monitored((&stub{n: n, fwd: true}).reader(), "b")
	r := d.monitored(tok.Seq(tok.Any(a, b), b), "pair")
	s := tok.NewScanner(blank(n))
	for i := 2 + vp.Choose(vp.Bound(2, 3)+1); i > 0; i-- {
		if vp.Bool() {
			s.Use(r)
		} else {
			r.Read(s)
		}
		if i > 1 {
			if vp.Bool() {
				d.log.Reset()
				d.entries = nil
			}
			s.ToStart()
		}
	}
	d.check()
}

// C24_deep: monitored readers nested up to 12 (40), 70, 140 and 270 levels deep, the innermost read succeeds or fails.
func C24_deep() {
	d := &diary{log: &tok.Log{}}
	r := tok.Lit("a")
	k := 1 + vp.Choose(vp.Bound(12, 40)+1)
	if k > vp.Bound(12, 40) {
		k = pickInt(70, 140, 270)
	}
	for i := 0; i < k; i++ {
		r = d.monitored(r, "level")
		if i%3 == 2 {
			r = tok.Seq(tok.At(r), r)
		}
		if i == 8 {
			break
		}
	}
	for i := 9; i < k; i++ {
		r = d.monitored(r, "deep")
	}
	s := tok.NewScanner(text(1))
	s.Use(r)
	d.check()
}

// C24_far: a monitored repetition whose element is read 70 and 270 times, so that the log has as many entries, then once more or not.
func C24_far() {
	d := &diary{log: &tok.Log{}}
	el := d.monitored(tok.Lit("a"), "el")
	r := d.monitored(tok.Zom(el), "zom")
	s := tok.NewScanner(rep("a", pickInt(70, 270)) + text(1))
	s.Use(r)
	d.check()
}

// C24_midway: a log that is reset by a mapped reader in the middle of nested monitored reads, up to twice, then read again: it has the attempts that began since, with levels counted from there; arbitrary readers, texts of 3 (4) bytes.
func C24_midway() {
	n := vp.Bound(3, 4)
	d := &diary{log: &tok.Log{}}
	a := d.monitored((&stub{n: n, fwd: true}).reader(), "a")
	cut := tok.Map(tok.Opt("a"), func(tok.Token) { d.reset() })
	var r tok.Reader
	switch vp.Choose(5) {
	case 0:
		r = tok.Seq(a, cut, a)
	case 1:
		r = tok.Seq(d.monitored(tok.Seq(a, cut), "in"), a)
	case 2:
		r = tok.Seq(cut, tok.Zom(a))
	case 3:
		r = tok.Any(tok.Seq(d.monitored(cut, "in"), a, d.monitored(d.monitored(tok.Seq(cut, a), "in2"), "in3")), a)
	case 4:
		r = tok.Seq(d.monitored(d.monitored(cut, "in"), "in2"), tok.Opt(a), tok.Not(a))
	}
	r = d.monitored(r, "out")
	s := tok.NewScanner(blankOf('a', n))
	s.Use(r)
	if vp.Bool() {
		s.Use(a)
	}
	d.check()
}
