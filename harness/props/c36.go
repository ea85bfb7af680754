package props

import (
	"strconv"
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
	"github.com/aiq/tok/zzverif/vp"
)

// someInt is a number that needs 1 to 20 digits.
func someInt() int {
	return pickInt(0, 1, 7, 9, 10, 64, 99, 100, 101, 255, 256, 999, 1000, 65536, 1<<31, 1<<40, 1<<63-1)
}

// C36_token: Token.String, Segment.String and Basket.String with markers of 1 to 20 digits and arbitrary infos of up to 2 bytes, up to 3 segments.
func C36_token() {
	a := someInt()
	b := a + vp.Choose(3)
	vp.Assume(b >= a)
	want := "[" + strconv.Itoa(a) + "-" + strconv.Itoa(b) + ")"
	k := mkToken(a, b)
	vp.Assert(k.String() == want, "a token is shown with its markers")
	info := text(2)
	g := tok.Segment{Info: info, Token: k}
	vp.Assert(g.String() == info+want, "a segment is shown with its info and token")
	vp.Assert(g.Known() == (info != ""), "a segment is known exactly if it has an info")
	bk := &tok.Basket{}
	vp.Assert(bk.String() == "", "an empty basket shows nothing")
	n := vp.Choose(3)
	list := info + want
	bk.Add(g)
	for i := 0; i < n; i++ {
		x := text(1)
		bk.Add(tok.Segment{Info: x, Token: mkToken(b, b+i)})
		list += ";" + x + "[" + strconv.Itoa(b) + "-" + strconv.Itoa(b+i) + ")"
	}
	vp.Assume(b < 1<<62)
	vp.Assert(bk.String() == list, "a basket shows its segments in order")
}

// C36_error: ErrorFor and ErrorIfFalse with arbitrary names of up to 3 bytes at any position of a text of up to 4 (5) bytes.
func C36_error() {
	t := text(vp.Bound(4, 5))
	s, p := at(t)
	name := text(3)
	err := s.ErrorFor(name)
	e, ok := err.(tok.ReadError)
	vp.Assert(ok && int(e.Marker) == p && e.What == name, "ErrorFor holds the position and the name")
	msg := "not able to read " + name + " at " + strconv.Itoa(p)
	vp.Assert(err != nil && err.Error() == msg, "an error tells what and where")
	c := vp.Bool()
	err = s.ErrorIfFalse(c, name)
	vp.Assert((err == nil) == c, "ErrorIfFalse is an error exactly if it is false")
	if !c {
		vp.Assert(err == error(e), "ErrorIfFalse is the error of ErrorFor")
	}
	vp.Assert(pos(s) == p, "making errors does not move")
}

// C36_message: the message of an error with a marker of 1 to 20 digits and an arbitrary name of up to 2 bytes; Later for any two markers.
func C36_message() {
	n, name := someInt(), text(2)
	f := tok.ReadError{Marker: tok.Marker(n), What: name}
	vp.Assert(f.Error() == "not able to read "+name+" at "+strconv.Itoa(n), "an error tells what and where")
	x, y := vp.Int(), vp.Int()
	vp.Assume(x >= 0 && y >= 0)
	gx, gy := tok.ReadError{Marker: tok.Marker(x)}, tok.ReadError{Marker: tok.Marker(y)}
	vp.Assert(gx.Later(gy) || gy.Later(gx), "one of two errors is not earlier than the other")
	if x > y {
		vp.Assert(gx.Later(gy) && !gy.Later(gx), "Later compares the positions")
	}
}

// C36_log: the printed log of up to 3 entries with arbitrary infos of up to 2 bytes, levels up to 12 and positions at every character of texts with characters of every width and an arbitrary ASCII byte, with previews of up to 5 characters.
func C36_log() {
	t := pick("", "a\u00e9", "\u20acb\U0001F600", "\n\"x") + ascii(vp.Str(1)) + pick("", "\u00e9\u00e9z", "qrst")
	ps := []int{}
	for i := 0; i <= len(t); {
		ps = append(ps, i)
		_, w := dec(t, i)
		if w == 0 {
			w = 1
		}
		i += w
	}
	l := &tok.Log{}
	n := vp.Choose(4)
	k := vp.Choose(6)
	plain, full := "", ""
	for i := 0; i < n; i++ {
		p := ps[i*2%len(ps)]
		e := tok.LogEntry{EnterAt: p, Info: "i", Level: 5 * i, ExitAt: len(t)}
		if i == 0 {
			e.Info, e.Level = text(2), pickInt(1, 2, 12)
			e.EnterAt = pickInt(ps...)
			p = e.EnterAt
		}
		l.Entries = append(l.Entries, e)
		line := strconv.Itoa(e.Level) + strings.Repeat(".", e.Level) + "@ " + strconv.Itoa(p) + " " + e.Info
		vp.Assert(e.String() == line, "an entry shows its level, position and info")
		q := p
		for j := 0; j < k; j++ {
			_, w := dec(t, q)
			q += w
		}
		plain += line + "\n"
		full += line + " > " + strconv.Quote(t[p:q]) + "\n"
	}
	vp.Assert(vp.Capture(l.Print) == plain, "Print shows the entries in order")
	vp.Assert(vp.Capture(func() { l.PrintWithPreview(t, k) }) == full, "PrintWithPreview shows the text that follows the position of the entry")
	if n == 1 {
		e := l.Entries[0]
		out := vp.Capture(func() { l.PrintWithPreview(t[:pickInt(0, e.EnterAt)], k) })
		vp.Assert(out == plain[:len(plain)-1]+" > \"\"\n", "nothing of a text that ends before the entry is shown")
	}
}

// C36_logdirect: Enter and Exit called directly, nested up to 4 deep, entries get levels and positions in order.
func C36_logdirect() {
	l := &tok.Log{}
	n := 1 + vp.Choose(4)
	ps := []int{}
	for i := 0; i < n; i++ {
		p := vp.Int()
		ps = append(ps, p)
		e := l.Enter(text(1), p)
		vp.Assert(e != nil && e.Level == i+1 && e.EnterAt == p, "Enter returns the entry of the next level")
	}
	var err error = tok.ReadError{Marker: 1, What: "x"}
	for i := n - 1; i >= 0; i-- {
		q := vp.Int()
		l.Exit(&l.Entries[i], q, err)
		vp.Assert(l.Entries[i].ExitAt == q && l.Entries[i].Error == err, "Exit notes the position and the error")
		vp.Assert(l.Entries[i].EnterAt == ps[i] && l.Entries[i].Level == i+1, "Exit keeps the rest")
		err = nil
	}
	vp.Assert(len(l.Entries) == n, "one entry per Enter")
	e := l.Enter("again", 3)
	vp.Assert(e.Level == 1, "after all exits the level is 1 again")
	l.Exit(e, 4, nil)
	l.Enter("open", 3)
	l.Reset()
	vp.Assert(len(l.Entries) == 0, "Reset empties the log")
	vp.Assert(l.Enter("new", 0).Level == 1, "Reset restarts at level 1")
}

// sub is a reader with an arbitrary description.
func sub(w string) tok.Reader { return tok.Named(w, tok.Lit("x")) }

// C36_combinator: the description of every combinator over readers with arbitrary descriptions of up to 2 bytes.
func C36_combinator() {
	x, y, z := text(2), text(1), "z"
	rx, ry, rz := sub(x), sub(y), sub(z)
	bk, lg := &tok.Basket{}, &tok.Log{}
	rule := &tok.Rule{Name: y, Reader: rx}
	var r tok.Reader
	want := ""
	switch vp.Choose(33) {
	case 0:
		r, want = tok.Any(rx, ry, rz), "[ "+x+" "+y+" z ]"
	case 1:
		r, want = tok.Any(rx), "[ "+x+" ]"
	case 2:
		r, want = tok.Any(), "[  ]"
	case 3:
		r, want = tok.Seq(rx, ry, rz), x+" "+y+" z"
	case 4:
		r, want = tok.Seq(rx), x
	case 5:
		r, want = tok.SkipSeq(rz, rx, ry), "(>z> "+x+" "+y+" )"
	case 6:
		r, want = tok.SkipSeq(rx, ry), "(>"+x+"> "+y+" )"
	case 7:
		r, want = tok.At(rx), "@"+x
	case 8:
		r, want = tok.AtEnd(), "@END"
	case 9:
		r, want = tok.Body(rx, ry), "-("+x+"-"+y+")-"
	case 10:
		r, want = tok.BodyTail(rx, ry), "-("+x+"-+"+y+")-"
	case 11:
		r, _ = tok.Janus(y, rx)
		want = "$" + y + "<" + x
	case 12:
		_, r = tok.Janus(x, ry)
		want = "$" + x
	case 13:
		r, want = tok.Many(rx), "+"+x
	case 14:
		r, want = tok.Zom(rx), "*"+x
	case 15:
		r, want = tok.Not(rx), "!"+x
	case 16:
		r, want = tok.Opt(rx), "?"+x
	case 17:
		r, want = tok.Past(rx), "-->"+x
	case 18:
		r, want = tok.To(rx), "->"+x
	case 19:
		n := someInt()
		r, want = tok.Times(n, rx), strconv.Itoa(n)+"*"+x
	case 20:
		r, want = tok.Map(rx, func(tok.Token) {}), x
	case 21:
		r, want = tok.Pick(rx, bk, y), x
	case 22:
		r, want = tok.Monitor(rx, lg, y), x
	case 23:
		r, want = tok.Named(y, rx), y
	case 24:
		r, want = tok.Match(x, func(rune) bool { return true }), x
	case 25:
		r, want = tok.Wrap(x, func(*tok.Scanner) error { return nil }), x
	case 26:
		r, want = rule, y
		vp.Assert(rule.Rule() == y+": "+x, "a rule shows its name and reader")
	case 27:
		rule.Map(func(tok.Token) {})
		r, want = rule, y
		vp.Assert(rule.Rule() == y+": "+x, "a mapped rule shows its name and reader")
	case 28:
		rule.Pick(bk)
		r, want = rule, y
		vp.Assert(rule.Rule() == y+": "+x, "a picked rule shows its name and reader")
	case 29:
		rule.Monitor(lg)
		r, want = rule, y
		vp.Assert(rule.Rule() == y+": "+x, "a monitored rule shows its name and reader")
	case 30:
		r, want = tok.Seq(rule, tok.Opt(tok.Any(rx, rule))), y+" ?[ "+x+" "+y+" ]"
	case 31:
		r, want = tok.InvalidReader("a %s b %d", x, 7), "::INVALID-READER::{a "+x+" b 7}"
		err := r.Read(tok.NewScanner("x"))
		vp.Assert(err != nil && err.Error() == "INVALID-READER: a "+x+" b 7", "the error of an invalid reader tells why")
	case 32:
		r, want = tok.RuleName(), "rulename"
	}
	vp.Assert(r.What() == want, "a reader is described by its parts")
}

// lit is a text of up to 2 arbitrary ASCII bytes with or without wider characters.
func lit() string { return pick("", "\u00e9", "\U0001F600\u200b\u3000") + ascii(text(vp.Bound(1, 2))) }

// asciiRune is an arbitrary ASCII character or one of several others.
func asciiRune() rune {
	if vp.Bool() {
		return rune(ascii(vp.Str(1))[0])
	}
	return []rune{0x80, 0xE9, 0x20AC, 0xFFFD, 0x1F600, 0x10FFFF, 0x200B, 0x3000, 0xA0, 0xD800, -1}[vp.Choose(11)]
}

func bound(r rune) string {
	q := strconv.QuoteRuneToGraphic(r)
	return q[1 : len(q)-1]
}

// C36_leaf: the description of every leaf reader for arbitrary ASCII texts and bounds, quoted as in Go, with and without wider characters; a string or rune given to a combinator stands for Lit or Rune.
func C36_leaf() {
	var r tok.Reader
	want := ""
	switch vp.Choose(17) {
	case 0:
		l := lit()
		r, want = tok.Lit(l), strconv.QuoteToGraphic(l)
	case 1:
		l := lit()
		r, want = tok.Fold(l), "~"+strconv.QuoteToGraphic(l)
	case 2:
		l := lit()
		r, want = tok.AnyRune(l), "["+strconv.QuoteToGraphic(l)+"]"
	case 3:
		x := asciiRune()
		r, want = tok.Rune(x), strconv.QuoteRuneToGraphic(x)
	case 4:
		a, b := asciiRune(), pick3('0', 'z', 0x1F600)
		vp.Assume(a != b)
		r, want = tok.Between(a, b), "<"+bound(a)+bound(b)+">"
	case 5:
		a := asciiRune()
		r, want = tok.Between(a, a), strconv.QuoteRuneToGraphic(a)
	case 6:
		a := asciiRune()
		r, want = tok.BuildBetweenAny(a, 'z', 'A', 'A'), "[< "+bound(a)+"z AA >]"
	case 7:
		l := lit()
		vp.Assume(l != "")
		r, want = tok.Set("a-f0-9", l), "[< af 09 "+strconv.QuoteToGraphic(l)+" >]"
	case 8:
		c := ascii(vp.Str(1))
		r, want = tok.BetweenAny(c+"-zA-Z"), "[< "+bound(rune(c[0]))+"z AZ >]"
	case 9:
		l, a := lit(), asciiRune()
		vp.Assume(a != 'z')
		r, want = tok.Holey(a, 'z', l), "(<"+bound(a)+"z> - "+strconv.QuoteToGraphic(l)+")"
	case 10:
		f := ascii(text(2))
		r, want = tok.Bool(f), "bool{"+strconv.QuoteToGraphic(f)+"}"
	case 11:
		b, n := pickInt(8, 10, 16), pickInt(8, 16, 32, 64)
		r, want = tok.Int(b, n), "int{"+strconv.Itoa(b)+","+strconv.Itoa(n)+"}"
	case 12:
		b, n := pickInt(8, 10, 16), pickInt(8, 16, 32, 64)
		r, want = tok.Uint(b, n), "uint{"+strconv.Itoa(b)+","+strconv.Itoa(n)+"}"
	case 13:
		l := lit()
		r, want = tok.AnyFold(l, "b"), "[ ~"+strconv.QuoteToGraphic(l)+" ~\"b\" ]"
	case 14:
		l, x := lit(), asciiRune()
		r, want = tok.Seq(l, x), strconv.QuoteToGraphic(l)+" "+strconv.QuoteRuneToGraphic(x)
	case 15:
		l := lit()
		r, want = tok.Any(tok.Opt(l), tok.To(l)), "[ ?"+strconv.QuoteToGraphic(l)+" ->"+strconv.QuoteToGraphic(l)+" ]"
	case 16:
		switch vp.Choose(4) {
		case 0:
			r, want = tok.NL(), "[ \"\\n\" \"\\r\\n\" ]"
		case 1:
			r, want = tok.WS(), "[\" \\r\\n\\t\"]"
		case 2:
			r, want = tok.Digit(), "<09>"
		case 3:
			r, want = tok.HexDigit(), "[< 09 af AF >]"
		}
	}
	vp.Assert(r.What() == want, "a leaf reader is described by its values")
}

func pick3(l ...rune) rune { return l[vp.Choose(len(l))] }

// C36_failure: a leaf, repetition or search that fails names itself in its error; ASCII texts of up to 2 bytes at any position.
func C36_failure() {
	x := text(1)
	rx := tok.Named(x, tok.Lit("q"))
	var r tok.Reader
	switch vp.Choose(14) {
	case 0:
		r = tok.Lit("ab")
	case 1:
		r = tok.Fold("Ab")
	case 2:
		r = tok.Rune('a')
	case 3:
		r = tok.AnyRune("ab")
	case 4:
		r = tok.Between('a', 'f')
	case 5:
		r = tok.Set("a-f0-9", "xy")
	case 6:
		r = tok.Holey('a', 'f', "b")
	case 7:
		r = tok.Match(x, func(r rune) bool { return r == 'a' })
	case 8:
		r = tok.AtEnd()
	case 9:
		r = tok.Many(rx)
	case 10:
		r = tok.To(rx)
	case 11:
		r = tok.Past(rx)
	case 12:
		r = tok.Body(rx, tok.Lit("w"))
	case 13:
		r = tok.BodyTail(rx, tok.Lit("w"))
	}
	s, _ := at(ascii(text(2)))
	if err := r.Read(s); err != nil {
		e, ok := err.(tok.ReadError)
		vp.Assert(ok && e.What == r.What(), "the error names the reader")
	}
}

// C36_lines: GrammarLines of up to 3 rules with arbitrary names of up to 2 bytes and readers with arbitrary descriptions.
func C36_lines() {
	rs := []*tok.Rule{}
	want := []string{}
	for i := vp.Choose(4); i > 0; i-- {
		n, x := text(2), text(1)
		rs = append(rs, &tok.Rule{Name: n, Reader: sub(x)})
		want = append(want, n+": "+x)
	}
	got := tok.GrammarLines(rs)
	vp.Assert(len(got) == len(want), "one line per rule")
	for i := range want {
		if i < len(got) {
			vp.Assert(got[i] == want[i], "the line of a rule is its name and reader")
		}
	}
}

// C36_segmentate: the error of Segmentate names the segment that does not fit; infos of up to 2 bytes.
func C36_segmentate() {
	g := tok.Segment{Info: text(2), Token: mkToken(pickInt(2, 7, 30), pickInt(12, 31))}
	_, err := seg("s", pickInt(0, 10), 11).Segmentate([]tok.Segment{seg("x", 10, 10), g})
	vp.Assert(err != nil, "a segment that does not fit is refused")
	if err != nil {
		vp.Assert(err.Error() == "invalid token "+g.String(), "the message names the segment")
	}
}

// C36_grammar: a grammar that fails tells its language and the error of its first rule; documents with an arbitrary byte in front, and every text of up to 2 bytes.
func C36_grammar() {
	t := text(2)
	if vp.Bool() {
		t = vp.Str(1) + pick("[1,{\"a\":2}]", "// a -->\nb", "return 1")
	}
	var err, sub error
	name := ""
	s, in := tok.NewScanner(t), tok.NewScanner(t)
	switch vp.Choose(3) {
	case 0:
		name, err, sub = "json", s.Use(grammar.JSON()), in.Use(&grammar.JSON().Element)
	case 1:
		name, err, sub = "lua", s.Use(grammar.Lua()), in.Use(&grammar.Lua().Chunk)
	case 2:
		name, err, sub = "mxt", s.Use(grammar.MXT()), in.Use(&grammar.MXT().Chunks)
	}
	vp.Assert((err == nil) == (sub == nil) && pos(s) == pos(in), "a grammar reads what its first rule reads")
	if err != nil && sub != nil {
		vp.Assert(err.Error() == name+" parse error: "+sub.Error(), "the error of a grammar tells the language and what failed")
	}
	vp.ObserveInt("pos", pos(s))
}

// C36_long: descriptions, rule lines, messages, baskets and logs of 20, 70 and 270 parts, one of them with an arbitrary byte; names and previews of up to 300 characters; a level of 70.
func C36_long() {
	n := pickInt(20, 70, 270)
	at := pickInt(0, n/2, n-1)
	odd := text(1)
	nth := func(i int) string {
		if i == at {
			return odd
		}
		return "p" + strconv.Itoa(i)
	}
	switch vp.Choose(6) {
	case 0:
		list, what := []interface{}{}, []string{}
		for i := 0; i < n; i++ {
			list, what = append(list, sub(nth(i))), append(what, nth(i))
		}
		all := strings.Join(what, " ")
		vp.Assert((&tok.Rule{Name: "r", Reader: tok.Seq(list...)}).Rule() == "r: "+all, "a long sequence is described in full")
		vp.Assert(tok.Any(list...).What() == "[ "+all+" ]", "a long list of alternatives is described in full")
		vp.Assert(tok.SkipSeq(sub("s"), list...).What() == "(>s> "+all+" )", "a long skipping sequence is described in full")
		err := tok.To(tok.Seq(list...)).Read(tok.NewScanner("b"))
		vp.Assert(err != nil && err.Error() == "not able to read ->"+all+" at 0", "a long message tells the whole name")
	case 1:
		x := rep("x", n) + odd
		vp.Assert(tok.Named(x, tok.WS()).What() == x, "a long name is told in full")
		vp.Assert(tok.NewScanner("").ErrorFor(x).Error() == "not able to read "+x+" at 0", "a message tells a long name in full")
		vp.Assert(tok.Lit(rep("x", n)).What() == "\""+rep("x", n)+"\"", "a long literal is quoted in full")
	case 2:
		b, want := &tok.Basket{}, []string{}
		for i := 0; i < n; i++ {
			b.Add(seg(nth(i), i, i+1))
			want = append(want, nth(i)+"["+strconv.Itoa(i)+"-"+strconv.Itoa(i+1)+")")
		}
		vp.Assert(b.String() == strings.Join(want, ";"), "a full basket shows all segments")
	case 3:
		rs, want := []*tok.Rule{}, ""
		for i := 0; i < n; i++ {
			rs = append(rs, &tok.Rule{Name: "n" + strconv.Itoa(i), Reader: sub(nth(i))})
			want += "n" + strconv.Itoa(i) + ": " + nth(i) + "\n"
		}
		vp.Assert(strings.Join(tok.GrammarLines(rs), "\n")+"\n" == want, "many rules have a line each")
	case 4:
		l, plain, full := &tok.Log{}, "", ""
		t := rep("abcdefg", 43)
		for i := 0; i < n; i++ {
			l.Entries = append(l.Entries, tok.LogEntry{EnterAt: i, Info: nth(i), Level: 1 + i%70})
			line := strconv.Itoa(1+i%70) + rep(".", 1+i%70) + "@ " + strconv.Itoa(i) + " " + nth(i)
			plain += line + "\n"
			full += line + " > \"" + t[i:i+9] + "\"\n"
		}
		vp.Assert(vp.Capture(l.Print) == plain, "Print shows all entries of a long log")
		vp.Assert(vp.Capture(func() { l.PrintWithPreview(t, 9) }) == full, "PrintWithPreview shows all entries of a long log")
	case 5:
		t := rep("x", 300)
		l := &tok.Log{Entries: []tok.LogEntry{{Info: odd, Level: 1, EnterAt: 3}}}
		vp.Assert(vp.Capture(func() { l.PrintWithPreview(t, n) }) == "1.@ 3 "+odd+" > \""+rep("x", n)+"\"\n", "a preview is as long as asked for")
	}
}
