package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
	"github.com/aiq/tok/zzverif/vp"
)

// luaInfos are the constructs that are compared.
var luaInfos = []string{
	"Name", "Numeral", "LiteralString", "unop", "binop", "field", "tableconstructor", "funcparams", "funcbody", "funcdef", "funcargs",
	"funccall", "explist", "namelist", "varlist", "funcname", "label", "retstat", "attnamelist", "break", "goto", "do", "while",
	"repeat", "ifelse", "for", "foreach", "func", "localfunc", "localatt", "stat",
}

func among(w string, list []string) bool {
	for _, x := range list {
		if x == w {
			return true
		}
	}
	return false
}

// luaPicks reads t; if it is read to its end, the picks of the infos are compared with the constructs of the text.
func luaPicks(g tok.Grammar, t string, infos []string, all bool) {
	s := tok.NewScanner(t)
	var b *tok.Basket
	if all {
		b = s.NewBasketFor(g)
	} else {
		b = s.NewBasket()
		for _, r := range g.Grammar() {
			if among(r.Name, infos) {
				r.Pick(b)
			}
		}
	}
	if s.Use(g) != nil || !s.AtEnd() {
		return
	}
	ref := &luaRef{t: t, pick: func(info string) bool { return among(info, infos) }}
	if !ref.chunk() {
		return // see C34
	}
	vp.Cover("a chunk with picks")
	picked := b.Picked()
	segs := []tok.Segment{}
	for _, seg := range picked {
		if seg.Len() > 0 && among(seg.Info, infos) {
			segs = append(segs, seg)
		}
	}
	vp.ObserveInt("picks", len(segs))
	same := len(segs) == len(ref.spans)
	for i := 0; same && i < len(segs); i++ {
		a, r := segs[i], ref.spans[i]
		lo, hi := ref.around(r.from, r.to)
		same = a.Info == r.info && a.Covers(mkToken(r.from, r.to)) && mkToken(lo, hi).Covers(a.Token)
	}
	vp.Assert(same, "the picks are exactly the constructs of the program")
	graph := tok.NewGraph("lua")
	ok := true
	for _, seg := range segs {
		_, in := graph.Append(seg)
		ok = ok && in
	}
	vp.Assert(ok, "the graph accepts all picks")
}

// C35_edit: the chunks of C34_edit with all compared rules picked (thorough: also all rules, or a few).
func C35_edit() {
	g := grammar.Lua()
	t := luaEdited()
	switch vp.Choose(vp.Bound(1, 3)) {
	case 0:
		luaPicks(g, t, luaInfos, false)
	case 1:
		luaPicks(g, t, luaInfos, true)
	case 2:
		luaPicks(g, t, []string{"Name", "stat", "funcname", "funcargs"}, false)
	}
}

// C35_blanks: the chunks of C34_blanks; the comments alone or all rules as NewBasketFor picks them.
func C35_blanks() {
	g := grammar.Lua()
	t := luaSpaced()
	if vp.Bool() {
		luaPicks(g, t, []string{"Comment"}, false)
	} else {
		luaPicks(g, t, luaInfos, true)
	}
}

// C35_any: every sequence of up to 3 (4) tokens.
func C35_any() {
	g := grammar.Lua()
	t := ""
	for i := vp.Choose(vp.Bound(3, 4) + 1); i > 0; i-- {
		t += luaTok()
	}
	luaPicks(g, t, luaInfos, false)
}

// C35_runs: the chunks of C34_runs with all compared rules picked.
func C35_runs() {
	g := grammar.Lua()
	t := luaRuns(vp.Bound(6, 9))
	if vp.Bool() {
		t = squeeze(t)
	}
	luaPicks(g, t, luaInfos, false)
}
