package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
	"github.com/aiq/tok/zzverif/vp"
)

func sameTree(ns []*tok.Node, ref []*jsonNode) bool {
	if len(ns) != len(ref) {
		return false
	}
	for i, n := range ns {
		if n.Segment != ref[i].seg || !sameTree(n.Nodes, ref[i].sub) {
			return false
		}
	}
	return true
}

// jsonPicks reads t with the rules of the mask picked.
func jsonPicks(t string, mask int) {
	g := grammar.JSON()
	rules := []*tok.Rule{&g.Value, &g.Object, &g.Member, &g.Key, &g.Array, &g.Element, &g.String, &g.Number, &g.Bool, &g.Null,
		&g.Members, &g.Elements, &g.Character, &g.Escape, &g.Hex, &g.Integer, &g.OneNine, &g.Digits,
		&g.Characters, &g.Fraction, &g.Exponent, &g.Sign, &g.WS}
	names := []string{"value", "object", "member", "key", "array", "element", "string", "number", "bool", "null",
		"members", "elements", "character", "escape", "hex", "integer", "onenine", "digits",
		"characters", "fraction", "exponent", "sign", "ws"}
	s := tok.NewScanner(t)
	b := s.NewBasket()
	ref := &jsonRef{t: t, pick: func(info string) bool {
		for i, n := range names {
			if n == info {
				return mask&(1<<i) != 0
			}
		}
		return false
	}}
	for i, r := range rules {
		if mask&(1<<i) != 0 {
			if i%2 == 0 {
				r.Pick(b)
			} else {
				b.PickWith(r)
			}
		}
	}
	if s.Use(g) != nil || !s.AtEnd() {
		return
	}
	vp.Assert(ref.element(0) == len(t), "only JSON texts are read to their end")
	picked := []tok.Segment{}
	for _, seg := range b.Picked() {
		if seg.Len() > 0 { // the last five rules may be read without reading anything
			picked = append(picked, seg)
		}
	}
	if len(picked) >= 5 {
		vp.Cover("a document with five picks is accepted")
	}
	vp.ObserveInt("picks", len(picked))
	vp.Assert(sameSegs(picked, ref.spans), "the picks are exactly the spans of the picked constructs")
	graph := tok.NewGraph("doc")
	all := true
	for _, seg := range picked {
		_, ok := graph.Append(seg)
		all = all && ok
	}
	vp.Assert(all, "the graph accepts all picks")
	vp.Assert(sameTree(graph.Root.Nodes, ref.done), "the graph nests the picks like the document")
	built := tok.BuildGraph("doc", picked)
	vp.Assert(sameTree(built.Root.Nodes, ref.done), "a graph built at once nests the picks like the document")
}

const demoMask = 0x3DA
const allMask = 1<<23 - 1
const partMask = allMask &^ 1023

// mask selects all rules, all but one, one alone, or the ones of the demo.
func mask() int {
	k := vp.Choose(20)
	switch {
	case k < 8:
		return 1 << k
	case k < 16:
		return 1023 &^ (1 << (k - 8))
	case k == 16:
		return demoMask
	case k == 17:
		return 1023
	case k == 18:
		return 0xC00
	}
	return allMask
}

// C26_structure: every accepted text of up to 6 (8) characters out of the structural characters, a quote, a digit and a blank.
func C26_structure() {
	jsonPicks(mostOf("{}[],:\"1 ", vp.Bound(6, 7)), mask())
}

// jb is n arbitrary characters of those that matter to the structure, or one that is wrong everywhere outside of strings.
func jb(n int) string {
	t := ""
	for ; n > 0; n-- {
		t += oneOf("{}[],:\"1 \tx")
	}
	return t
}

// C26_nested: nested documents with arbitrary structural characters at the places where blanks, separators, brackets and scalars stand.
func C26_nested() {
	t := ""
	switch vp.Choose(5) {
	case 0:
		t = jb(1) + "[" + jb(1) + "[" + jb(1) + "]" + jb(1) + "2" + jb(1) + "]"
	case 1:
		t = "{" + jb(1) + "\"a\"" + jb(1) + ":" + jb(1) + "{" + jb(1) + "}" + jb(1) + "}"
	case 2:
		t = "{\"a\":" + jb(2) + "," + jb(1) + "\"b\":[" + jb(2) + "]" + jb(1) + "}"
	case 3:
		t = "[{" + jb(4) + "1}" + jb(1) + "]"
	case 4:
		t = "[" + jb(1) + "1" + jb(3) + "1" + jb(1) + "]"
	}
	jsonPicks(t, []int{1023, 0xC00, 0x400001}[vp.Choose(3)])
}

// C26_words: documents with words, strings and numbers of more than one character, arbitrary bytes between them.
func C26_words() {
	t := "[" + vp.Str(1) + "true" + vp.Str(1) + "-1" + vp.Str(1) + "0,\"" + vp.Str(2) + "\",{\"k\":null}" + vp.Str(1) + "]"
	vp.Assume(valid(t))
	jsonPicks(t, []int{1023, demoMask, 256, 512, 0x3F, partMask}[vp.Choose(6)])
}

// C26_long: the long and deep documents of C25_long.
func C26_long() {
	t := longJSON()
	vp.Assume(valid(t))
	jsonPicks(t, []int{1023, demoMask, 1, allMask}[vp.Choose(4)])
}

// C26_any: every valid UTF-8 text of up to 3 (5) bytes that is accepted.
func C26_any() {
	t := text(vp.Bound(3, 5))
	vp.Assume(valid(t))
	jsonPicks(t, []int{1023, demoMask}[vp.Choose(2)])
}

// C26_parts: the parts of strings and numbers: strings of up to 3 (4) arbitrary bytes, escapes with arbitrary bytes, numbers of up to 6 (8) characters, as value and as key.
func C26_parts() {
	t := ""
	switch vp.Choose(4) {
	case 0:
		t = "\"" + text(vp.Bound(3, 4)) + "\""
	case 1:
		t = "{\"\\u" + vp.Str(4) + "\":" + vp.Str(1) + "}"
	case 2:
		t = mostOf("+-.eE019", vp.Bound(6, 8))
	case 3:
		t = "[\"\\" + vp.Str(1) + "\\" + vp.Str(1) + "\",-" + vp.Str(1) + "3.0" + vp.Str(1) + "]"
	}
	vp.Assume(valid(t))
	jsonPicks(t, []int{allMask, partMask, 0x3000, 0x10000, 0x7C0000}[vp.Choose(5)])
}
