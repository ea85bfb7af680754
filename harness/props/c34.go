package props

import (
	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
	"github.com/aiq/tok/zzverif/vp"
)

func sym8(n int) byte {
	k := vp.Byte()
	vp.Assume(int(k) < n)
	return k
}

// luaAccept compares what the Lua grammar reads to its end with what the manual allows.
func luaAccept(g tok.Grammar, t string) {
	s := tok.NewScanner(t)
	err := s.Use(g)
	ok := err == nil && s.AtEnd()
	ref := &luaRef{t: t}
	vp.ObserveBool("ok", ok)
	if ref.chunk() {
		vp.Cover("a chunk")
		vp.Assert(ok, "every chunk is read to its end")
	} else {
		vp.Assert(!ok, "only chunks are read to their end")
	}
}

var luaTokens = append([]string{
	"a", "1", "\"s\"", "notx", "+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<", "..", "<", "<=", ">", ">=", "==", "~=", "#",
	"=", "(", ")", "{", "}", "[", "]", "::", ";", ":", ",", ".", "...",
}, luaReserved...)

func luaTok() string { return slot(luaTokens) }

// C34_any: every sequence of up to 3 (4) tokens.
func C34_any() {
	g := grammar.Lua()
	t := ""
	for i := vp.Choose(vp.Bound(3, 4) + 1); i > 0; i-- {
		t += luaTok()
	}
	luaAccept(g, t)
}

// luaPrograms are chunks that together use every production of the grammar; every token ends with a blank.
var luaPrograms = []string{
	"if a then b ( ) elseif not c then else return 1 ; end ",
	"while a do break end ; do return end ",
	"for i = 1 , 2 , 3 do a . b = i end ",
	"for k , v in pairs ( t ) do f { k } end ",
	"repeat goto l :: l :: until a or b ",
	"function a . b : c ( d , ... ) return ... end ",
	"local function f ( ) end f \"s\" ",
	"local a < const > , b = 1 , nil ",
	"a , b [ 1 ] = - 1 , # c .. d ",
	"a = { [ 1 ] = 2 , b = 3 ; 4 , } ",
	"a : b ( c ) . d [ e ] = f ( ) ( 1 , 2 ) ",
	"( a or b ) . c = ( d ) ~= true ",
	"return function ( a , b ) c ( ) end , a // 2 >> 1 ",
	"( a ) . b ( ) : c { } . d = ( e ) [ f ] \"s\" . g ",
}

// C34_edit: chunks with every construct in which one token is replaced by an arbitrary token, dropped, or preceded by one (thorough: two tokens replaced).
func C34_edit() { luaAccept(grammar.Lua(), luaEdited()) }

func luaEdited() string {
	t := luaPrograms[vp.Choose(len(luaPrograms))]
	ends := []int{}
	for i := 0; i < len(t); i++ {
		if t[i] == ' ' {
			ends = append(ends, i+1)
		}
	}
	k := vp.Choose(len(ends))
	from := 0
	if k > 0 {
		from = ends[k-1]
	}
	to := ends[k]
	in := luaTok()
	switch vp.Choose(vp.Bound(3, 4)) {
	case 0:
	case 1:
		to = from
	case 2:
		in = ""
	case 3:
		in += luaTok()
		if k+1 < len(ends) {
			to = ends[k+1]
		}
	}
	return t[:from] + in + t[to:]
}

// tight tells if the blank at t[i] is needed to keep the tokens around it apart.
func tight(t string, i int) bool {
	if i == 0 || i+1 == len(t) {
		return false
	}
	a, b := t[i-1], t[i+1]
	if luaAlpha(a) || luaDigit(a) {
		return luaAlpha(b) || luaDigit(b) || luaDigit(a) && b == '.'
	}
	return isOneOf(a, "-.<>=~/:[") && isOneOf(b, "-.<>=~/:[") || a == '.' && luaDigit(b)
}

// C34_blanks: the chunks of C34_edit, with one blank or with none between all tokens, and at one of the places white space of any kind or a comment with an arbitrary byte in it (thorough: two).
func C34_blanks() { luaAccept(grammar.Lua(), luaSpaced()) }

func luaSpaced() string {
	t := luaPrograms[vp.Choose(len(luaPrograms))]
	none := vp.Bool()
	gaps := []int{0}
	for i := 0; i < len(t); i++ {
		if t[i] == ' ' {
			gaps = append(gaps, i)
		}
	}
	g := gaps[vp.Choose(len(gaps))]
	fill := ""
	c := vp.Str(vp.Bound(1, 2))
	switch vp.Choose(3) {
	case 0:
		fill = oneOf(" \t\r\n")
	case 1:
		vp.Assume(c[0] != '[' && c[len(c)-1] != '\n')
		fill = "--" + c + "\n"
	case 2:
		fill = "--[[" + c + "]]"
		vp.Assume(c != "]]")
		if g > 0 {
			fill = " " + fill
		}
	}
	u := ""
	from := 0
	for i := 0; i < len(t); i++ {
		if i == g {
			u += t[from:i] + fill
			from = i
			if t[i] == ' ' {
				from++
			}
		} else if t[i] == ' ' && none && !tight(t, i) {
			u += t[from:i]
			from = i + 1
		}
	}
	return u + t[from:]
}

// squeeze drops the blanks of t that keep no tokens apart.
func squeeze(t string) string {
	u := ""
	from := 0
	for i := 0; i < len(t); i++ {
		if t[i] == ' ' && !tight(t, i) {
			u += t[from:i]
			from = i + 1
		}
	}
	return u + t[from:]
}

// luaRuns is a chunk in which a run of up to n tokens stands twice or is left out.
func luaRuns(n int) string {
	t := luaPrograms[vp.Choose(len(luaPrograms))]
	ends := []int{0}
	for i := 0; i < len(t); i++ {
		if t[i] == ' ' {
			ends = append(ends, i+1)
		}
	}
	from := vp.Choose(len(ends) - 1)
	k := 1 + vp.Choose(n)
	vp.Assume(from+k < len(ends))
	a, b := ends[from], ends[from+k]
	if vp.Bool() {
		return t[:b] + t[a:]
	}
	return t[:a] + t[b:]
}

// C34_runs: the chunks of C34_edit in which a run of up to 6 (9) tokens stands twice or is left out, with a blank between all tokens or none where none is needed.
func C34_runs() {
	g := grammar.Lua()
	t := luaRuns(vp.Bound(6, 9))
	if vp.Bool() {
		t = squeeze(t)
	}
	luaAccept(g, t)
}

// C34_tight: the chunks of C34_edit without blanks where none is needed, one token replaced or preceded by one of 18 tokens.
func C34_tight() {
	g := grammar.Lua()
	t := luaPrograms[vp.Choose(len(luaPrograms))]
	ends := []int{0}
	for i := 0; i < len(t); i++ {
		if t[i] == ' ' {
			ends = append(ends, i+1)
		}
	}
	k := vp.Choose(len(ends))
	to := ends[k]
	if k+1 < len(ends) && vp.Bool() {
		to = ends[k+1]
	}
	luaAccept(g, squeeze(t[:ends[k]] + pick(";", ",", ":", ".", "=", "(", ")", "{", "}", "[", "]", "::", "...", "-", "a", "1", "\"s\"", "end") + " " + t[to:]))
}

// C34_names: words of up to 4 (6) arbitrary letters, digits and underscores, and the reserved words cut short, with one arbitrary such byte behind them or in place of the last one, in the places where names, values and statements stand.
func C34_names() {
	g := grammar.Lua()
	w := ""
	if vp.Bool() {
		w = vp.Str(vp.Choose(vp.Bound(4, 6)) + 1)
	} else {
		w = luaReserved[vp.Choose(len(luaReserved))]
		switch vp.Choose(3) {
		case 0:
			w += vp.Str(1)
		case 1:
			w = w[:len(w)-1] + vp.Str(1)
		case 2:
			w = w[:len(w)-1]
		}
	}
	for i := 0; i < len(w); i++ {
		vp.Assume(luaAlpha(w[i]) || luaDigit(w[i]))
	}
	vp.Assume(luaAlpha(w[0]))
	switch vp.Choose(6) {
	case 0:
		w = w + "()"
	case 1:
		w = "a = " + w
	case 2:
		w = "return " + w
	case 3:
		w = "a = 1 " + w + " a = 2"
	case 4:
		w = "local a = b " + w + " c"
	case 5:
		w = "do a." + w + " = 1 " + w + " end"
	}
	luaAccept(g, w)
}

func luaWords(words []string, n int) string {
	t := ""
	for ; n > 0; n-- {
		t += slot(words)
	}
	return t
}

// C34_suffix: every sequence of 4 to 5 (7) tokens out of a name, a string and the tokens of calls, indices and assignments.
func C34_suffix() {
	luaAccept(grammar.Lua(), luaWords([]string{"a", "(", ")", ".", ":", "[", "]", "{", "}", "=", ",", "'s'"}, pickInt(4, vp.Bound(5, 6), vp.Bound(5, 7))))
}

// C34_value: an assignment of every sequence of 3 (5) tokens out of the tokens of values, and of 5 (6) tokens out of fewer ones.
func C34_value() {
	g := grammar.Lua()
	if vp.Bool() {
		luaAccept(g, "a = " + luaWords([]string{"a", "1", "(", ")", ".", ":", "[", "]", "{", "}", "=", ",", "-", "~", "..", "...", "function", "end"}, vp.Bound(3, 5)))
	} else {
		luaAccept(g, "a = " + luaWords([]string{"a", "(", ")", ".", "[", "]", "{", "}", ",", "-"}, vp.Bound(5, 6)))
	}
}

// C34_script: the script rule on first lines with and without #! and with an arbitrary byte, and a chunk: it reads the first line if it begins with #! and ends in a line break, and then as far as the chunk rule does.
func C34_script() {
	t := pick("", "#", "#!", "#!/bin/lua", "--") + text(1) + pick("", "\n", "\r\n", "x\n\n", "\rx\n") + pick("", "return", ";\n#!;\n")
	q := 0
	if hasAt(t, 0, "#!") {
		for i := 2; i < len(t); i++ {
			if t[i] == '\n' || t[i] == '\r' {
				q = i
				break
			}
		}
	}
	s, c := tok.NewScanner(t), tok.NewScanner(t)
	g := grammar.Lua()
	err := s.Use(&g.Script)
	c.ToMarker(tok.Marker(q))
	want := c.Use(g)
	vp.ObserveInt("pos", pos(s))
	vp.Assert((err == nil) == (want == nil), "a script is read exactly if a chunk stands behind its first line")
	vp.Assert(err != nil || pos(s) == pos(c), "a script is read as far as its chunk")
}
