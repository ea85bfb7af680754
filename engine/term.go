package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms are hash-consed SMT expressions: booleans (W==0) and bit-vectors of
// width 1..64. Construction simplifies; every rule is an SMT-LIB identity.

type Op uint8

const (
	OConst Op = iota
	OVar
	OUF  // uninterpreted predicate application: name id in cv, arg 0
	OTab // fixed table function application: table id in cv, arg 0
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract // low bits [W-1:0] starting at cv
	OConcat
	ONeg
	OBNot
	ORng // its argument, annotated with bounds (lo<<32|hi) that hold where it is used
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl",
	OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat", ONeg: "bvneg", OBNot: "bvnot"}

type Term struct {
	Op   Op
	W    uint8 // 0 = Bool
	cv   uint64
	args [3]*Term
	n    uint8
	id   int32
	// model-evaluation cache
	evGen int32
	evVal uint64
	// emitted in solver
	def int32 // solver epoch in which the term is defined
	// unary-variable summary
	uv    *Term // the only variable of the term if exactly one 8-bit variable occurs
	uvSt  uint8 // 0 unknown, 1 none (constant), 2 exactly one byte var, 3 other
	truth *[4]uint64
	// static bounds
	ivOk       bool
	ivLo, ivHi uint64
	// contains an ite over several variables: 0 unknown, 1 no, 2 yes
	multiIte uint8
}

type tkey struct {
	op      Op
	w       uint8
	cv      uint64
	a, b, c *Term
}

type TermTab struct {
	tab    map[tkey]*Term
	nextID int32
	t, f   *Term
	small  [65][258]*Term
}

func NewTermTab() *TermTab {
	tt := &TermTab{tab: make(map[tkey]*Term, 1<<12)}
	tt.t = tt.mk(OConst, 0, 1, nil, nil, nil)
	tt.f = tt.mk(OConst, 0, 0, nil, nil, nil)
	return tt
}

func (tt *TermTab) mk(op Op, w uint8, cv uint64, a, b, c *Term) *Term {
	k := tkey{op, w, cv, a, b, c}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, W: w, cv: cv, id: tt.nextID, evGen: -1}
	tt.nextID++
	t.args = [3]*Term{a, b, c}
	if a != nil {
		t.n = 1
	}
	if b != nil {
		t.n = 2
	}
	if c != nil {
		t.n = 3
	}
	tt.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tt *TermTab) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if w == 0 {
		if v == 0 {
			return tt.f
		}
		return tt.t
	}
	if v < 257 {
		if t := tt.small[w][v]; t != nil {
			return t
		}
		t := tt.mk(OConst, w, v, nil, nil, nil)
		tt.small[w][v] = t
		return t
	}
	if v == mask(w) {
		if t := tt.small[w][257]; t != nil {
			return t
		}
		t := tt.mk(OConst, w, v, nil, nil, nil)
		tt.small[w][257] = t
		return t
	}
	return tt.mk(OConst, w, v, nil, nil, nil)
}

func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.t
	}
	return tt.f
}

func (tt *TermTab) Var(w uint8, idx int) *Term { return tt.mk(OVar, w, uint64(idx), nil, nil, nil) }

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.W == 0 && t.cv == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.W == 0 && t.cv == 0 }
func (t *Term) Int() int64    { return sx(t.cv, t.W) }

func (tt *TermTab) UF(id int, arg *Term) *Term { return tt.mk(OUF, 0, uint64(id), arg, nil, nil) }

func (tt *TermTab) Not(a *Term) *Term {
	if a.IsConst() {
		return tt.Bool(a.cv == 0)
	}
	switch a.Op {
	case ONot:
		return a.args[0]
	case OUlt:
		return tt.cmp(OUle, a.args[1], a.args[0])
	case OUle:
		return tt.cmp(OUlt, a.args[1], a.args[0])
	case OSlt:
		return tt.cmp(OSle, a.args[1], a.args[0])
	case OSle:
		return tt.cmp(OSlt, a.args[1], a.args[0])
	}
	return tt.mk(ONot, 0, 0, a, nil, nil)
}

func (tt *TermTab) And(a, b *Term) *Term {
	if a.IsFalse() || b.IsFalse() {
		return tt.f
	}
	if a.IsTrue() {
		return b
	}
	if b.IsTrue() || a == b {
		return a
	}
	if tt.Not(a) == b {
		return tt.f
	}
	if a.Op == OAnd && (a.args[0] == b || a.args[1] == b) {
		return a
	}
	if b.Op == OAnd && (b.args[0] == a || b.args[1] == a) {
		return b
	}
	if b.Op == OOr && (b.args[0] == a || b.args[1] == a) {
		return a
	}
	if a.Op == OOr && (a.args[0] == b || a.args[1] == b) {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OAnd, 0, 0, a, b, nil)
}

func (tt *TermTab) Or(a, b *Term) *Term {
	if a.IsTrue() || b.IsTrue() {
		return tt.t
	}
	if a.IsFalse() {
		return b
	}
	if b.IsFalse() || a == b {
		return a
	}
	if tt.Not(a) == b {
		return tt.t
	}
	// (x and y) or (x and not y) = x
	if a.Op == OAnd && b.Op == OAnd {
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if a.args[i] == b.args[j] && tt.Not(a.args[1-i]) == b.args[1-j] {
					return a.args[i]
				}
			}
		}
	}
	if a.Op == OAnd && (a.args[0] == b || a.args[1] == b) {
		return b
	}
	if b.Op == OAnd && (b.args[0] == a || b.args[1] == a) {
		return a
	}
	// a or (not a and y) = a or y
	if b.Op == OAnd {
		na := tt.Not(a)
		if b.args[0] == na {
			return tt.Or(a, b.args[1])
		}
		if b.args[1] == na {
			return tt.Or(a, b.args[0])
		}
	}
	if a.Op == OAnd {
		nb := tt.Not(b)
		if a.args[0] == nb {
			return tt.Or(b, a.args[1])
		}
		if a.args[1] == nb {
			return tt.Or(b, a.args[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OOr, 0, 0, a, b, nil)
}

func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if c.IsConst() {
		if c.cv == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.Op == ONot {
		return tt.Ite(c.args[0], b, a)
	}
	if a.W == 0 {
		if a.IsTrue() {
			return tt.Or(c, b)
		}
		if a.IsFalse() {
			return tt.And(tt.Not(c), b)
		}
		if b.IsTrue() {
			return tt.Or(tt.Not(c), a)
		}
		if b.IsFalse() {
			return tt.And(c, a)
		}
	}
	if a.Op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.Op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(c, ite(d,x,y), y) = ite(c and d, x, y)
	if a.Op == OIte && a.args[2] == b {
		return tt.Ite(tt.And(c, a.args[0]), a.args[1], b)
	}
	// ite(c, x, ite(d,x,y)) = ite(c or d, x, y)
	if b.Op == OIte && b.args[1] == a {
		return tt.Ite(tt.Or(c, b.args[0]), a, b.args[2])
	}
	return tt.mk(OIte, a.W, 0, c, a, b)
}

// constLeaves reports whether t is an ite-tree with constant leaves of small size.
func constLeaves(t *Term, budget *int) bool {
	if t.Op == OConst {
		return true
	}
	if t.Op != OIte || *budget <= 0 {
		return false
	}
	*budget--
	return constLeaves(t.args[1], budget) && constLeaves(t.args[2], budget)
}

func isConstTree(t *Term) bool {
	if t.Op != OIte {
		return false
	}
	b := 24
	return constLeaves(t, &b)
}

func (tt *TermTab) mapLeaves(t *Term, f func(*Term) *Term) *Term {
	if t.Op == OIte {
		return tt.Ite(t.args[0], tt.mapLeaves(t.args[1], f), tt.mapLeaves(t.args[2], f))
	}
	return f(t)
}

func (tt *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return tt.t
	}
	if a.W != b.W {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.W, b.W))
	}
	if a.IsConst() && b.IsConst() {
		return tt.Bool(a.cv == b.cv)
	}
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() { // const = b
		if a.W == 0 {
			if a.cv == 1 {
				return b
			}
			return tt.Not(b)
		}
		if lo, hi := interval(b); a.cv < lo || a.cv > hi {
			return tt.f
		}
		if b.Op == OIte && a.W > 8 {
			x, y := tt.Eq(a, b.args[1]), tt.Eq(a, b.args[2])
			if x.IsConst() || y.IsConst() {
				return tt.Ite(b.args[0], x, y)
			}
		}
		switch b.Op {
		case OIte:
			if b.args[1].IsConst() || b.args[2].IsConst() || isConstTree(b) {
				return tt.Ite(b.args[0], tt.Eq(a, b.args[1]), tt.Eq(a, b.args[2]))
			}
		case OZext:
			in := b.args[0]
			if a.cv > mask(in.W) {
				return tt.f
			}
			return tt.Eq(tt.Const(in.W, a.cv), in)
		case OSext:
			in := b.args[0]
			if uint64(sx(a.cv&mask(in.W), in.W))&mask(a.W) != a.cv {
				return tt.f
			}
			return tt.Eq(tt.Const(in.W, a.cv), in)
		case OAdd:
			if b.args[0].IsConst() {
				return tt.Eq(tt.Const(a.W, a.cv-b.args[0].cv), b.args[1])
			}
		case OBXor:
			if b.args[0].IsConst() {
				return tt.Eq(tt.Const(a.W, a.cv^b.args[0].cv), b.args[1])
			}
		}
	}
	if a.Op == ORng || b.Op == ORng {
		return tt.Eq(a.strip(), b.strip())
	}
	if a.Op == OZext && b.Op == OZext && a.args[0].W == b.args[0].W {
		return tt.Eq(a.args[0], b.args[0])
	}
	if a.Op == OAdd && b.Op == OAdd && a.args[0] == b.args[0] {
		return tt.Eq(a.args[1], b.args[1])
	}
	if a.Op == OAdd && a.args[0].IsConst() && a.args[1] == b {
		return tt.f // const nonzero
	}
	if b.Op == OAdd && b.args[0].IsConst() && b.args[1] == a {
		return tt.f
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, 0, 0, a, b, nil)
}

func (tt *TermTab) cmp(op Op, a, b *Term) *Term {
	if a == b {
		return tt.Bool(op == OUle || op == OSle)
	}
	if a.IsConst() && b.IsConst() {
		return tt.Bool(evalCmp(op, a.cv, b.cv, a.W))
	}
	// constant trees
	if a.IsConst() && b.Op == OIte && (isConstTree(b)) {
		return tt.Ite(b.args[0], tt.cmp(op, a, b.args[1]), tt.cmp(op, a, b.args[2]))
	}
	if b.IsConst() && a.Op == OIte && (isConstTree(a)) {
		return tt.Ite(a.args[0], tt.cmp(op, a.args[1], b), tt.cmp(op, a.args[2], b))
	}
	// bounds
	if b.IsConst() {
		switch op {
		case OUlt:
			if b.cv == 0 {
				return tt.f
			}
		case OUle:
			if b.cv == mask(b.W) {
				return tt.t
			}
			if b.cv == 0 {
				return tt.Eq(a, b)
			}
		case OSle:
			if b.cv == mask(b.W)>>1 {
				return tt.t
			}
		case OSlt:
			if b.cv == (mask(b.W)>>1)+1 {
				return tt.f
			}
		}
	}
	if a.IsConst() {
		switch op {
		case OUlt:
			if a.cv == mask(a.W) {
				return tt.f
			}
			if a.cv == 0 {
				return tt.Not(tt.Eq(a, b))
			}
		case OUle:
			if a.cv == 0 {
				return tt.t
			}
		case OSle:
			if a.cv == (mask(a.W)>>1)+1 {
				return tt.t
			}
		case OSlt:
			if a.cv == mask(a.W)>>1 {
				return tt.f
			}
		}
	}
	if a.IsConst() && a.W > 8 || b.IsConst() && b.W > 8 {
		if v, ok := ivlCmp(op, a, b); ok {
			return tt.Bool(v)
		}
		k, x := a, b
		if b.IsConst() {
			k, x = b, a
		}
		if x.Op == OIte {
			var l, r *Term
			if k == a {
				l, r = tt.cmp(op, k, x.args[1]), tt.cmp(op, k, x.args[2])
			} else {
				l, r = tt.cmp(op, x.args[1], k), tt.cmp(op, x.args[2], k)
			}
			if l.IsConst() || r.IsConst() {
				return tt.Ite(x.args[0], l, r)
			}
		}
	}
	if a.Op == ORng || b.Op == ORng {
		return tt.cmp(op, a.strip(), b.strip())
	}
	// zext vs const / zext: narrow the comparison (zext values are non-negative)
	if a.Op == OZext && b.IsConst() {
		in := a.args[0]
		if op == OSlt || op == OSle {
			if sx(b.cv, b.W) < 0 {
				return tt.f
			}
		}
		uop := op
		if op == OSlt {
			uop = OUlt
		} else if op == OSle {
			uop = OUle
		}
		if b.cv > mask(in.W) {
			return tt.t
		}
		return tt.cmp(uop, in, tt.Const(in.W, b.cv))
	}
	if b.Op == OZext && a.IsConst() {
		in := b.args[0]
		if op == OSlt || op == OSle {
			if sx(a.cv, a.W) < 0 {
				return tt.t
			}
		}
		uop := op
		if op == OSlt {
			uop = OUlt
		} else if op == OSle {
			uop = OUle
		}
		if a.cv > mask(in.W) {
			return tt.f
		}
		return tt.cmp(uop, tt.Const(in.W, a.cv), in)
	}
	if a.Op == OZext && b.Op == OZext && a.args[0].W == b.args[0].W {
		uop := op
		if op == OSlt {
			uop = OUlt
		} else if op == OSle {
			uop = OUle
		}
		return tt.cmp(uop, a.args[0], b.args[0])
	}
	return tt.mk(op, 0, 0, a, b, nil)
}

func (t *Term) strip() *Term {
	for t.Op == ORng {
		t = t.args[0]
	}
	return t
}

// Rng is t annotated with bounds; the caller guarantees them where the term is used.
func (tt *TermTab) Rng(t *Term, lo, hi uint64) *Term {
	if t.IsConst() {
		return t
	}
	return tt.mk(ORng, t.W, lo<<32|hi, t, nil, nil)
}

func ivlCmp(op Op, a, b *Term) (bool, bool) {
	al, ah := interval(a)
	bl, bh := interval(b)
	if op == OSlt || op == OSle {
		half := mask(a.W) >> 1
		// as signed numbers: usable if an interval does not straddle the sign
		conv := func(l, h uint64) (int64, int64, bool) {
			if l <= half && h > half {
				return 0, 0, false
			}
			return sx(l, a.W), sx(h, a.W), true
		}
		x0, x1, ok1 := conv(al, ah)
		y0, y1, ok2 := conv(bl, bh)
		if !ok1 || !ok2 {
			return false, false
		}
		if op == OSlt {
			if x1 < y0 {
				return true, true
			}
			return false, x0 >= y1
		}
		if x1 <= y0 {
			return true, true
		}
		return false, x0 > y1
	}
	if op == OUlt {
		if ah < bl {
			return true, true
		}
		return false, al >= bh
	}
	if ah <= bl {
		return true, true
	}
	return false, al > bh
}

func evalCmp(op Op, a, b uint64, w uint8) bool {
	switch op {
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	case OSlt:
		return sx(a, w) < sx(b, w)
	case OSle:
		return sx(a, w) <= sx(b, w)
	}
	panic("cmp")
}

func evalBin(op Op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	}
	panic("bin")
}

func (tt *TermTab) Bin(op Op, a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("bin width mismatch %s %d %d", opName[op], a.W, b.W))
	}
	w := a.W
	a, b = a.strip(), b.strip()
	if a.IsConst() && b.IsConst() {
		return tt.Const(w, evalBin(op, a.cv, b.cv, w))
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if b.IsConst() {
			a, b = b, a
		}
	}
	switch op {
	case OAdd:
		if a.IsConst() {
			if a.cv == 0 {
				return b
			}
			if b.Op == OAdd && b.args[0].IsConst() {
				return tt.Bin(OAdd, tt.Const(w, a.cv+b.args[0].cv), b.args[1])
			}
			if isConstTree(b) {
				return tt.mapLeaves(b, func(x *Term) *Term { return tt.Bin(op, a, x) })
			}
		} else {
			if a.Op == OAdd && a.args[0].IsConst() {
				return tt.Bin(OAdd, a.args[0], tt.Bin(OAdd, a.args[1], b))
			}
			if b.Op == OAdd && b.args[0].IsConst() {
				return tt.Bin(OAdd, b.args[0], tt.Bin(OAdd, a, b.args[1]))
			}
			if a.Op == OSub && a.args[1] == b {
				return a.args[0]
			}
			if b.Op == OSub && b.args[1] == a {
				return b.args[0]
			}
			if a.id > b.id {
				a, b = b, a
			}
		}
	case OSub:
		if a == b {
			return tt.Const(w, 0)
		}
		if b.IsConst() {
			return tt.Bin(OAdd, tt.Const(w, -b.cv), a)
		}
		if a.IsConst() && isConstTree(b) {
			return tt.mapLeaves(b, func(x *Term) *Term { return tt.Bin(op, a, x) })
		}
		if a.Op == OAdd && a.args[0].IsConst() {
			return tt.Bin(OAdd, a.args[0], tt.Bin(OSub, a.args[1], b))
		}
		if b.Op == OAdd && b.args[0].IsConst() {
			return tt.Bin(OAdd, tt.Const(w, -b.args[0].cv), tt.Bin(OSub, a, b.args[1]))
		}
		if a.Op == OAdd && a.args[0] == b {
			return a.args[1]
		}
		if a.Op == OAdd && a.args[1] == b {
			return a.args[0]
		}
	case OMul:
		if a.IsConst() {
			if a.cv == 0 {
				return a
			}
			if a.cv == 1 {
				return b
			}
			if isConstTree(b) {
				return tt.mapLeaves(b, func(x *Term) *Term { return tt.Bin(op, a, x) })
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OUDiv, OSDiv:
		if b.IsConst() && b.cv == 1 {
			return a
		}
	case OBAnd:
		if a.IsConst() {
			if a.cv == 0 {
				return a
			}
			if a.cv == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if a.IsConst() {
			if a.cv == 0 {
				return b
			}
			if a.cv == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBXor:
		if a.IsConst() && a.cv == 0 {
			return b
		}
		if a == b {
			return tt.Const(w, 0)
		}
	case OShl, OLshr, OAshr:
		if b.IsConst() && b.cv == 0 {
			return a
		}
		if b.IsConst() && b.cv >= uint64(w) && op != OAshr {
			return tt.Const(w, 0)
		}
	}
	return tt.mk(op, w, 0, a, b, nil)
}

func (tt *TermTab) Neg(a *Term) *Term { return tt.Bin(OSub, tt.Const(a.W, 0), a) }
func (tt *TermTab) BNot(a *Term) *Term {
	return tt.Bin(OBXor, tt.Const(a.W, mask(a.W)), a)
}

func (tt *TermTab) Zext(a *Term, w uint8) *Term {
	a = a.strip()
	if a.W == w {
		return a
	}
	if a.IsConst() {
		return tt.Const(w, a.cv)
	}
	if a.Op == OZext {
		return tt.Zext(a.args[0], w)
	}
	if isConstTree(a) {
		return tt.mapLeaves(a, func(x *Term) *Term { return tt.Const(w, x.cv) })
	}
	return tt.mk(OZext, w, 0, a, nil, nil)
}

func (tt *TermTab) Sext(a *Term, w uint8) *Term {
	a = a.strip()
	if a.W == w {
		return a
	}
	if a.IsConst() {
		return tt.Const(w, uint64(sx(a.cv, a.W)))
	}
	if a.Op == OZext {
		return tt.Zext(a.args[0], w)
	}
	if a.Op == OSext {
		return tt.Sext(a.args[0], w)
	}
	if a.Op == OIte {
		// push through: keeps zext structure of decoded runes visible
		return tt.Ite(a.args[0], tt.Sext(a.args[1], w), tt.Sext(a.args[2], w))
	}
	return tt.mk(OSext, w, 0, a, nil, nil)
}

func (tt *TermTab) Trunc(a *Term, w uint8) *Term {
	a = a.strip()
	if a.W == w {
		return a
	}
	if a.IsConst() {
		return tt.Const(w, a.cv)
	}
	if a.Op == OZext || a.Op == OSext {
		in := a.args[0]
		if in.W >= w {
			return tt.Trunc(in, w)
		}
		if a.Op == OZext {
			return tt.Zext(in, w)
		}
		return tt.Sext(in, w)
	}
	if a.Op == OIte {
		return tt.Ite(a.args[0], tt.Trunc(a.args[1], w), tt.Trunc(a.args[2], w))
	}
	return tt.mk(OExtract, w, 0, a, nil, nil)
}

func (tt *TermTab) AndN(ts ...*Term) *Term {
	r := tt.t
	for _, t := range ts {
		r = tt.And(r, t)
	}
	return r
}

// ------------------------------------------------------------------ evaluation

// Model assigns values to variables and to uninterpreted predicate points.
type Model struct {
	vals []uint64
	uf   map[ufPoint]bool
	gen  int32
}

type ufPoint struct {
	id  uint64
	arg uint64
}

func (m *Model) val(i int) uint64 {
	if i < len(m.vals) {
		return m.vals[i]
	}
	return 0
}

func (m *Model) Eval(t *Term) uint64 {
	if t.Op == OConst {
		return t.cv
	}
	if t.evGen == m.gen {
		return t.evVal
	}
	var v uint64
	switch t.Op {
	case OVar:
		v = m.val(int(t.cv)) & mask(t.W)
	case OUF:
		if m.uf[ufPoint{t.cv, m.Eval(t.args[0])}] {
			v = 1
		}
	case OTab:
		v = tables[t.cv].f(m.Eval(t.args[0]))
	case ORng:
		v = m.Eval(t.args[0])
	case ONot:
		v = 1 - m.Eval(t.args[0])
	case OAnd:
		if m.Eval(t.args[0]) == 1 && m.Eval(t.args[1]) == 1 {
			v = 1
		}
	case OOr:
		if m.Eval(t.args[0]) == 1 || m.Eval(t.args[1]) == 1 {
			v = 1
		}
	case OIte:
		if m.Eval(t.args[0]) == 1 {
			v = m.Eval(t.args[1])
		} else {
			v = m.Eval(t.args[2])
		}
	case OEq:
		if m.Eval(t.args[0]) == m.Eval(t.args[1]) {
			v = 1
		}
	case OUlt, OUle, OSlt, OSle:
		if evalCmp(t.Op, m.Eval(t.args[0]), m.Eval(t.args[1]), t.args[0].W) {
			v = 1
		}
	case OZext:
		v = m.Eval(t.args[0])
	case OSext:
		v = uint64(sx(m.Eval(t.args[0]), t.args[0].W)) & mask(t.W)
	case OExtract:
		v = (m.Eval(t.args[0]) >> t.cv) & mask(t.W)
	default:
		v = evalBin(t.Op, m.Eval(t.args[0]), m.Eval(t.args[1]), t.W)
	}
	t.evGen, t.evVal = m.gen, v
	return v
}

// ------------------------------------------------------------------ printing

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.W == 0 {
		if t.cv == 1 {
			return "true"
		}
		return "false"
	}
	if t.W%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.W/4), t.cv)
	}
	return fmt.Sprintf("#b%0*b", int(t.W), t.cv)
}

func (t *Term) ref() string {
	switch t.Op {
	case OConst:
		return constStr(t)
	case OVar:
		return fmt.Sprintf("x%d_%d", t.cv, t.W)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	switch t.Op {
	case OZext, OSext:
		n := "zero_extend"
		if t.Op == OSext {
			n = "sign_extend"
		}
		return fmt.Sprintf("((_ %s %d) %s)", n, t.W-t.args[0].W, t.args[0].ref())
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.cv)+int(t.W)-1, t.cv, t.args[0].ref())
	case ORng:
		return t.args[0].ref()
	case OUF:
		return fmt.Sprintf("(u%d %s)", t.cv, t.args[0].ref())
	case OTab:
		return fmt.Sprintf("(%s %s)", tables[t.cv].name, t.args[0].ref())
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(opName[t.Op])
	for i := 0; i < int(t.n); i++ {
		b.WriteByte(' ')
		b.WriteString(t.args[i].ref())
	}
	b.WriteByte(')')
	return b.String()
}

// full pretty form for diagnostics
func (t *Term) String() string {
	s := t.str(6)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func (t *Term) str(d int) string {
	if t.Op == OConst || t.Op == OVar {
		return t.ref()
	}
	if d == 0 {
		return ".."
	}
	n := opName[t.Op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.Op)
	}
	var b strings.Builder
	b.WriteString("(" + n)
	for i := 0; i < int(t.n); i++ {
		b.WriteString(" " + t.args[i].str(d-1))
	}
	return b.String() + ")"
}

// ------------------------------------------- single-byte-variable summaries

// unary reports the single 8-bit variable t depends on, if that is the case.
func (t *Term) unary() (*Term, bool) {
	if t.uvSt == 0 {
		switch t.Op {
		case OConst:
			t.uvSt = 1
		case OVar:
			if t.W == 8 {
				t.uvSt, t.uv = 2, t
			} else {
				t.uvSt = 3
			}
		case OUF:
			t.uvSt = 3
		default:
			t.uvSt = 1
			for i := 0; i < int(t.n); i++ {
				a := t.args[i]
				a.unary()
				switch a.uvSt {
				case 1:
				case 2:
					if t.uvSt == 1 {
						t.uvSt, t.uv = 2, a.uv
					} else if t.uvSt == 2 && t.uv != a.uv {
						t.uvSt, t.uv = 3, nil
					}
				case 3:
					t.uvSt, t.uv = 3, nil
				}
				if t.uvSt == 3 {
					break
				}
			}
		}
	}
	return t.uv, t.uvSt == 2
}

// truthSet returns the set of byte values for which the boolean term holds.
func (t *Term) truthSet(scratch *Model, gen func() int32) *[4]uint64 {
	if t.truth != nil {
		return t.truth
	}
	var s [4]uint64
	idx := int(t.uv.cv)
	for len(scratch.vals) <= idx {
		scratch.vals = append(scratch.vals, 0)
	}
	for v := 0; v < 256; v++ {
		scratch.gen = gen()
		scratch.vals[idx] = uint64(v)
		if scratch.Eval(t) == 1 {
			s[v>>6] |= 1 << (uint(v) & 63)
		}
	}
	t.truth = &s
	return t.truth
}

func popcount(s *[4]uint64) int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}

// Size is the number of terms built so far.
func (tt *TermTab) Size() int { return int(tt.nextID) }
