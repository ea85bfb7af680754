package props

// luaRef recognises Lua chunks by the grammar of the Lua 5.4 manual (9, with the lexical
// conventions of 3.1) and notes the spans of the constructs.
type luaRef struct {
	t     string
	p     int  // begin of the current token
	e     int  // end of the current token
	last  int  // end of the token before
	kind  byte // 'n' name, 'k' reserved word, '0' numeral, 's' string, 'o' other, 0 end, 'x' none of Lua's
	pick  func(info string) bool
	spans []luaSpan
}

var luaReserved = []string{
	"and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in",
	"local", "nil", "not", "or", "repeat", "return", "then", "true", "until", "while",
}

func isReserved(w string) bool {
	for _, r := range luaReserved {
		if r == w {
			return true
		}
	}
	return false
}

func luaAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }

func luaDigit(c byte) bool { return c >= '0' && c <= '9' }

func (l *luaRef) at(i int, c byte) bool { return i < len(l.t) && l.t[i] == c }

// long returns the end of a long bracket at i, -1 if there is none.
func (l *luaRef) long(i int) int {
	if !l.at(i, '[') {
		return -1
	}
	n := 0
	for l.at(i+1+n, '=') {
		n++
	}
	if !l.at(i+1+n, '[') {
		return -1
	}
	for k := i + 2 + n; k < len(l.t); k++ {
		if l.t[k] == ']' {
			m := 0
			for m < n && l.at(k+1+m, '=') {
				m++
			}
			if m == n && l.at(k+1+n, ']') {
				return k + 2 + n
			}
		}
	}
	return -1
}

// next moves to the next token.
func (l *luaRef) next() {
	l.last = l.e
	i := l.e
	for i < len(l.t) {
		c := l.t[i]
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			i++
		} else if c == '-' && l.at(i+1, '-') {
			from := i
			if e := l.long(i + 2); e >= 0 {
				i = e
			} else {
				for i < len(l.t) && l.t[i] != '\n' {
					i++
				}
			}
			l.add("Comment", from, i)
		} else {
			break
		}
	}
	l.p = i
	if i >= len(l.t) {
		l.kind, l.e = 0, i
		return
	}
	c := l.t[i]
	switch {
	case luaAlpha(c):
		for i < len(l.t) && (luaAlpha(l.t[i]) || luaDigit(l.t[i])) {
			i++
		}
		l.kind = 'n'
		if isReserved(l.t[l.p:i]) {
			l.kind = 'k'
		}
	case luaDigit(c):
		for i < len(l.t) && luaDigit(l.t[i]) {
			i++
		}
		l.kind = '0'
	case c == '"' || c == '\'':
		i++
		for i < len(l.t) && l.t[i] != c && l.t[i] != '\n' && l.t[i] != '\r' && l.t[i] != '\\' {
			i++
		}
		if !l.at(i, c) {
			l.kind, l.e = 'x', len(l.t)
			return
		}
		i++
		l.kind = 's'
	default:
		if e := l.long(i); e >= 0 {
			l.kind, l.e = 's', e
			return
		}
		l.kind = 'o'
		d := byte(0)
		if i+1 < len(l.t) {
			d = l.t[i+1]
		}
		switch {
		case c == '.' && d == '.':
			i += 2
			if l.at(i, '.') {
				i++
			}
		case (c == '<' || c == '>' || c == '=' || c == '~') && d == '=', c == '<' && d == '<', c == '>' && d == '>',
			c == '/' && d == '/', c == ':' && d == ':':
			i += 2
		default:
			i++
			if !isOneOf(c, "+-*/%^#&~|<>=(){}[];:,.") {
				l.kind = 'x'
			}
		}
	}
	l.e = i
}

func isOneOf(c byte, set string) bool {
	for i := 0; i < len(set); i++ {
		if set[i] == c {
			return true
		}
	}
	return false
}

func (l *luaRef) is(w string) bool {
	return (l.kind == 'o' || l.kind == 'k') && l.t[l.p:l.e] == w
}

func (l *luaRef) note(info string, from int) { l.add(info, from, l.last) }

func (l *luaRef) add(info string, from, to int) {
	if l.pick != nil && l.pick(info) {
		l.spans = append(l.spans, luaSpan{info, from, to})
	}
}

// around returns the end of the token before from and the begin of the token behind to.
func (l *luaRef) around(from, to int) (int, int) {
	n := &luaRef{t: l.t}
	n.next()
	for n.p < from {
		n.next()
	}
	a := n.last
	for n.p < to {
		n.next()
	}
	return a, n.p
}

type luaSpan struct {
	info     string
	from, to int
}

// opt passes over the token w if it is the current one.
func (l *luaRef) opt(w string) bool {
	if l.is(w) {
		l.next()
		return true
	}
	return false
}

func (l *luaRef) name() bool {
	if l.kind != 'n' {
		return false
	}
	from := l.p
	l.next()
	l.note("Name", from)
	return true
}

// chunk tells if the whole text is a chunk.
func (l *luaRef) chunk() bool {
	l.next()
	return l.block() && l.kind == 0
}

func (l *luaRef) block() bool {
	for {
		if l.kind == 0 || l.is("end") || l.is("else") || l.is("elseif") || l.is("until") {
			return true
		}
		from := l.p
		if l.opt("return") {
			if !(l.kind == 0 || l.is("end") || l.is("else") || l.is("elseif") || l.is("until") || l.is(";")) {
				if !l.explist() {
					return false
				}
			}
			l.opt(";")
			l.note("retstat", from)
			return l.kind == 0 || l.is("end") || l.is("else") || l.is("elseif") || l.is("until")
		}
		if !l.stat() {
			return false
		}
		l.note("stat", from)
	}
}

func (l *luaRef) stat() bool {
	from := l.p
	if l.kind == 'n' || l.is("(") {
		return l.exprstat()
	}
	switch {
	case l.opt(";"):
		return true
	case l.opt("::"):
		if !(l.name() && l.opt("::")) {
			return false
		}
		l.note("label", from)
		return true
	case l.opt("break"):
		l.note("break", from)
		return true
	case l.opt("goto"):
		if !l.name() {
			return false
		}
		l.note("goto", from)
		return true
	case l.opt("do"):
		if !(l.block() && l.opt("end")) {
			return false
		}
		l.note("do", from)
		return true
	case l.opt("while"):
		if !(l.exp() && l.opt("do") && l.block() && l.opt("end")) {
			return false
		}
		l.note("while", from)
		return true
	case l.opt("repeat"):
		if !(l.block() && l.opt("until") && l.exp()) {
			return false
		}
		l.note("repeat", from)
		return true
	case l.opt("if"):
		if !(l.exp() && l.opt("then") && l.block()) {
			return false
		}
		for l.opt("elseif") {
			if !(l.exp() && l.opt("then") && l.block()) {
				return false
			}
		}
		if l.opt("else") && !l.block() {
			return false
		}
		if !l.opt("end") {
			return false
		}
		l.note("ifelse", from)
		return true
	case l.opt("for"):
		return l.forstat(from)
	case l.opt("function"):
		n := l.p
		if !l.name() {
			return false
		}
		for l.opt(".") {
			if !l.name() {
				return false
			}
		}
		if l.opt(":") && !l.name() {
			return false
		}
		l.note("funcname", n)
		if !l.funcbody() {
			return false
		}
		l.note("func", from)
		return true
	case l.opt("local"):
		if l.opt("function") {
			if !(l.name() && l.funcbody()) {
				return false
			}
			l.note("localfunc", from)
			return true
		}
		list := l.p
		for {
			if !l.name() {
				return false
			}
			if l.opt("<") && !(l.name() && l.opt(">")) {
				return false
			}
			if !l.opt(",") {
				break
			}
		}
		l.note("attnamelist", list)
		if l.opt("=") && !l.explist() {
			return false
		}
		l.note("localatt", from)
		return true
	}
	return false
}

func (l *luaRef) forstat(from int) bool {
	list := l.p
	if !l.name() {
		return false
	}
	if l.opt("=") {
		if !(l.exp() && l.opt(",") && l.exp()) {
			return false
		}
		if l.opt(",") && !l.exp() {
			return false
		}
		if !(l.opt("do") && l.block() && l.opt("end")) {
			return false
		}
		l.note("for", from)
		return true
	}
	for l.opt(",") {
		if !l.name() {
			return false
		}
	}
	l.note("namelist", list)
	if !(l.opt("in") && l.explist() && l.opt("do") && l.block() && l.opt("end")) {
		return false
	}
	l.note("foreach", from)
	return true
}

// exprstat is a call or an assignment.
func (l *luaRef) exprstat() bool {
	from := l.p
	k := l.suffixed()
	if k == 0 {
		return false
	}
	if !l.is("=") && !l.is(",") {
		if k != 'c' {
			return false
		}
		l.note("funccall", from)
		return true
	}
	for {
		if k != 'v' {
			return false
		}
		if !l.opt(",") {
			break
		}
		if k = l.suffixed(); k == 0 {
			return false
		}
	}
	l.note("varlist", from)
	return l.opt("=") && l.explist()
}

func (l *luaRef) explist() bool {
	from := l.p
	for {
		if !l.exp() {
			return false
		}
		if !l.opt(",") {
			l.note("explist", from)
			return true
		}
	}
}

func (l *luaRef) exp() bool {
	for {
		for l.unop() {
		}
		if !l.simple() {
			return false
		}
		if !l.binop() {
			return true
		}
	}
}

var luaBinops = []string{"+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<", "..", "<", "<=", ">", ">=", "==", "~=", "and", "or"}

func (l *luaRef) unop() bool {
	from := l.p
	if l.opt("-") || l.opt("not") || l.opt("#") || l.opt("~") {
		l.note("unop", from)
		return true
	}
	return false
}

func (l *luaRef) binop() bool {
	from := l.p
	if l.kind != 'o' && l.kind != 'k' {
		return false
	}
	for _, o := range luaBinops {
		if l.opt(o) {
			l.note("binop", from)
			return true
		}
	}
	return false
}

func (l *luaRef) simple() bool {
	from := l.p
	switch {
	case l.kind == '0':
		l.next()
		l.note("Numeral", from)
		return true
	case l.kind == 's':
		l.next()
		l.note("LiteralString", from)
		return true
	case l.kind == 'n', l.is("("):
		return l.suffixed() != 0
	case l.opt("nil"), l.opt("true"), l.opt("false"), l.opt("..."):
		return true
	case l.is("{"):
		return l.table()
	case l.opt("function"):
		if !l.funcbody() {
			return false
		}
		l.note("funcdef", from)
		return true
	}
	return false
}

// suffixed returns 'v' for a variable, 'c' for a call, 'p' for an expression in parentheses, 0 if there is none.
func (l *luaRef) suffixed() byte {
	k := byte('v')
	if l.opt("(") {
		if !(l.exp() && l.opt(")")) {
			return 0
		}
		k = 'p'
	} else if !l.name() {
		return 0
	}
	for {
		switch {
		case l.opt("."):
			if !l.name() {
				return 0
			}
			k = 'v'
		case l.opt("["):
			if !(l.exp() && l.opt("]")) {
				return 0
			}
			k = 'v'
		case l.opt(":"):
			if !(l.name() && l.args()) {
				return 0
			}
			k = 'c'
		case l.is("("), l.is("{"), l.kind == 's':
			if !l.args() {
				return 0
			}
			k = 'c'
		default:
			return k
		}
	}
}

func (l *luaRef) args() bool {
	from := l.p
	switch {
	case l.kind == 's':
		l.next()
		l.note("LiteralString", from)
	case l.is("{"):
		if !l.table() {
			return false
		}
	case l.opt("("):
		if !l.is(")") && !l.explist() {
			return false
		}
		if !l.opt(")") {
			return false
		}
	default:
		return false
	}
	l.note("funcargs", from)
	return true
}

func (l *luaRef) table() bool {
	from := l.p
	if !l.opt("{") {
		return false
	}
	for !l.is("}") {
		if !l.field() {
			return false
		}
		if !l.opt(",") && !l.opt(";") {
			break
		}
	}
	if !l.opt("}") {
		return false
	}
	l.note("tableconstructor", from)
	return true
}

func (l *luaRef) field() bool {
	from := l.p
	if l.opt("[") {
		if !(l.exp() && l.opt("]") && l.opt("=") && l.exp()) {
			return false
		}
		l.note("field", from)
		return true
	}
	if l.kind == 'n' {
		ahead := &luaRef{t: l.t, e: l.e}
		ahead.next()
		if ahead.is("=") {
			l.name()
			l.next()
		}
	}
	if !l.exp() {
		return false
	}
	l.note("field", from)
	return true
}

func (l *luaRef) funcbody() bool {
	from := l.p
	if !l.opt("(") {
		return false
	}
	list, end := l.p, 0
	for !l.is(")") {
		if l.opt("...") {
			break
		}
		if !l.name() {
			return false
		}
		end = l.last
		if !l.opt(",") {
			break
		}
		if l.is(")") {
			return false
		}
	}
	if end > 0 {
		l.add("namelist", list, end)
	}
	if l.last > list {
		l.note("funcparams", list)
	}
	if !(l.opt(")") && l.block() && l.opt("end")) {
		return false
	}
	l.note("funcbody", from)
	return true
}

// slot is one of the words, filled up with blanks.
func slot(words []string) string {
	k := sym8(len(words))
	n := 0
	for _, w := range words {
		if len(w) > n {
			n = len(w)
		}
	}
	b := make([]byte, n+1)
	for j := range b {
		b[j] = byteAt(words, j, k)
	}
	return string(b)
}

func byteAt(words []string, j int, k byte) byte {
	c := byte(' ')
	for i, w := range words {
		if j < len(w) && k == byte(i) {
			c = w[j]
		}
	}
	return c
}
