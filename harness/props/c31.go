package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/zzverif/vp"
)

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func validName(t string) bool {
	if len(t) == 0 || !letter(t[0]) {
		return false
	}
	for i := 1; i < len(t); i++ {
		c := t[i]
		if !letter(c) && !(c >= '0' && c <= '9') && c != '+' && c != '-' && c != '.' && c != '_' {
			return false
		}
	}
	return true
}

// C31_name: every name of up to 5 (7) bytes.
func C31_name() {
	t := text(vp.Bound(5, 7))
	vp.Assert((tok.CheckRuleName(t) == nil) == validName(t), "CheckRuleName accepts exactly the valid names")
}

// C31_read: the reader for rule names reads the longest valid name at any position of every text of up to 4 (5) bytes.
func C31_read() {
	t := text(vp.Bound(4, 5))
	s, p := at(t)
	err := s.Use(tok.RuleName())
	q := p
	for q < len(t) && validName(t[p:q+1]) {
		q++
	}
	vp.Assert((err == nil) == (q > p), "a rule name is read exactly if one stands there")
	vp.Assert(pos(s) == q, "the longest rule name is read")
}

type threeRules struct {
	A     tok.Rule `name:"a"`
	Other int
	B     tok.Rule `name:"b-2"`
	C     tok.Rule
	D     *tok.Rule `name:"d"`
}

func (g *threeRules) Read(s *tok.Scanner) error { return g.A.Read(s) }
func (g *threeRules) What() string              { return "three" }
func (g *threeRules) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type badTag struct {
	A tok.Rule `name:"a"`
	B tok.Rule `name:"b c"`
	C tok.Rule `name:"c"`
}

func (g *badTag) Read(s *tok.Scanner) error { return g.A.Read(s) }
func (g *badTag) What() string              { return "bad" }
func (g *badTag) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

// C31_check: CheckRules over grammars of three rules with arbitrary names of up to 2 (3) bytes and present or missing readers.
func C31_check() {
	g := &threeRules{}
	ok := true
	for _, r := range []*tok.Rule{&g.A, &g.B, &g.C} {
		r.Name = text(vp.Bound(2, 3))
		if vp.Bool() {
			r.Reader = tok.Lit("x")
		}
		if !validName(r.Name) || r.Reader == nil {
			ok = false
		}
	}
	vp.Assert((tok.CheckRules(g) == nil) == ok, "CheckRules accepts exactly grammars whose rules have a valid name and a reader")
}

// C31_tags: SetRuleNames and CollectRules on grammars with tagged and untagged rule fields, other fields, and an invalid tag; earlier names are arbitrary.
func C31_tags() {
	g := &threeRules{}
	old := text(2)
	g.A.Name, g.B.Name, g.C.Name = old, old, old
	err := tok.SetRuleNames(g)
	vp.Assert(err == nil, "valid tags are no error")
	vp.Assert(g.A.Name == "a" && g.B.Name == "b-2", "rules get the name of their tag")
	vp.Assert(g.C.Name == old && g.Other == 0 && g.D == nil, "other fields are left alone")
	rs := tok.CollectRules(g)
	vp.Assert(len(rs) == 3 && rs[0] == &g.A && rs[1] == &g.B && rs[2] == &g.C, "the rule fields are collected in order")
	b := &badTag{}
	vp.Assert(tok.SetRuleNames(b) != nil, "an invalid tag is reported")
}

// C31_long: names of up to 300 bytes with an arbitrary byte at the front, in the middle or at the end, given to CheckRuleName, and to CheckRules as the name of one of up to 3 rules.
func C31_long() {
	n := pickInt(7, 8, 15, 16, 31, 32, 40, 64, 130, 300)
	base := rep("aZ9+-._", 43)[:n]
	k := pickInt(0, n/2, n-1, n)
	t := base[:k] + vp.Str(1) + base[k:]
	vp.Assert((tok.CheckRuleName(t) == nil) == validName(t), "CheckRuleName accepts exactly the valid names")
	g := &threeRules{}
	rs := []*tok.Rule{&g.A, &g.B, &g.C}
	for _, r := range rs {
		r.Name, r.Reader = base, tok.Lit("x")
	}
	rs[vp.Choose(3)].Name = t
	vp.Assert((tok.CheckRules(g) == nil) == validName(t), "CheckRules accepts exactly grammars whose rules have a valid name and a reader")
}

// C31_must: MustCheckRules and MustSetRuleNames panic exactly if the error is there, GrammarLines has one line per rule.
func C31_must() {
	g := &threeRules{}
	name := text(2)
	g.A = tok.Rule{Name: "a", Reader: tok.Lit("x")}
	g.B = tok.Rule{Name: name, Reader: tok.Lit("y")}
	g.C = tok.Rule{Name: "c", Reader: tok.Lit("z")}
	if vp.Bool() {
		g.C.Reader = nil
	}
	ok := tok.CheckRules(g) == nil
	vp.Assert(panics(func() { tok.MustCheckRules(g) }) == !ok, "MustCheckRules panics exactly if CheckRules reports an error")
	vp.Assert(!panics(func() { tok.MustSetRuleNames(&threeRules{}) }), "MustSetRuleNames does not panic for valid tags")
	vp.Assert(panics(func() { tok.MustSetRuleNames(&badTag{}) }), "MustSetRuleNames panics for an invalid tag")
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// hiddenParts is a grammar with state of its own.
type hiddenParts struct {
	depth int
	A     tok.Rule `name:"a"`
	skip  tok.Rule `name:"skip"`
	inner struct{ n int }
	B     tok.Rule `name:"b"`
	last  *tok.Rule
	C     tok.Rule `json:"x" name:"c.1"`
	E     tok.Reader
}

func (g *hiddenParts) Read(s *tok.Scanner) error { return g.A.Read(s) }
func (g *hiddenParts) What() string              { return "hidden" }
func (g *hiddenParts) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

// C31_hidden: grammars whose struct also has unexported fields: the exported rules get their names, are collected in order, checked, picked and monitored.
func C31_hidden() {
	g := &hiddenParts{}
	g.depth, g.inner.n, g.last = 1, 2, &g.A
	vp.Assert(tok.SetRuleNames(g) == nil, "valid tags are no error")
	vp.Assert(g.A.Name == "a" && g.B.Name == "b" && g.C.Name == "c.1", "rules get the name of their tag")
	rs := []*tok.Rule{}
	p := panics(func() { rs = tok.CollectRules(g) })
	vp.Assert(!p, "CollectRules does not panic on other fields")
	vp.Assert(len(rs) == 3 && rs[0] == &g.A && rs[1] == &g.B && rs[2] == &g.C, "the rule fields are collected in order")
	if len(rs) != 3 {
		return
	}
	ok := true
	for _, r := range rs {
		if vp.Bool() {
			r.Reader = tok.Lit("x")
		} else {
			ok = false
		}
	}
	vp.Assert((tok.CheckRules(g) == nil) == ok, "CheckRules accepts exactly grammars whose rules have a valid name and a reader")
	vp.Assert(g.depth == 1 && g.inner.n == 2 && g.last == &g.A && g.skip.Name == "", "other fields are left alone")
}
