package main

import "math/bits"

// A separable term is a sum, modulo 2^w, of functions of one byte variable each:
// the shape of every numeral value. Comparisons of separable terms are decided from
// the byte domains of the path where that is conclusive, before a solver is asked.
type sepForm struct {
	ok   bool
	c    uint64
	vars []int
	tabs []*[256]uint64
}

const sepMax = 48

func (e *Eng) sep(t *Term) *sepForm {
	if f, ok := e.sepMemo[t]; ok {
		return f
	}
	if e.sepMemo == nil {
		e.sepMemo = map[*Term]*sepForm{}
	}
	f := e.sep1(t)
	e.sepMemo[t] = f
	return f
}

var sepNo = &sepForm{}

func (e *Eng) sep1(t *Term) *sepForm {
	if t.IsConst() {
		return &sepForm{ok: true, c: t.cv}
	}
	if uv, ok := t.unary(); ok {
		idx := int(uv.cv)
		tab := &[256]uint64{}
		for len(e.scratch.vals) <= idx {
			e.scratch.vals = append(e.scratch.vals, 0)
		}
		for v := 0; v < 256; v++ {
			e.scratch.gen = e.nextGen()
			e.scratch.vals[idx] = uint64(v)
			tab[v] = e.scratch.Eval(t)
		}
		return &sepForm{ok: true, vars: []int{idx}, tabs: []*[256]uint64{tab}}
	}
	m := mask(t.W)
	switch t.Op {
	case OAdd, OSub:
		a, b := e.sep(t.args[0]), e.sep(t.args[1])
		if !a.ok || !b.ok {
			return sepNo
		}
		k := uint64(1)
		if t.Op == OSub {
			k = m
		}
		return sepAdd(a, b, k, m)
	case OMul:
		a, b := e.sep(t.args[0]), e.sep(t.args[1])
		if !a.ok || !b.ok {
			return sepNo
		}
		if len(b.vars) == 0 {
			a, b = b, a
		}
		if len(a.vars) != 0 {
			return sepNo
		}
		return sepAdd(&sepForm{ok: true}, b, a.c, m)
	case OShl:
		a, b := e.sep(t.args[0]), e.sep(t.args[1])
		if !a.ok || !b.ok || len(b.vars) != 0 || b.c >= uint64(t.W) {
			return sepNo
		}
		return sepAdd(&sepForm{ok: true}, a, 1<<b.c, m)
	}
	return sepNo
}

// sepAdd is a + k*b.
func sepAdd(a, b *sepForm, k, m uint64) *sepForm {
	r := &sepForm{ok: true, c: (a.c + k*b.c) & m}
	i, j := 0, 0
	for i < len(a.vars) || j < len(b.vars) {
		switch {
		case j >= len(b.vars) || i < len(a.vars) && a.vars[i] < b.vars[j]:
			r.vars, r.tabs = append(r.vars, a.vars[i]), append(r.tabs, a.tabs[i])
			i++
		default:
			tab := &[256]uint64{}
			for v := range tab {
				tab[v] = k * b.tabs[j][v] & m
			}
			if i < len(a.vars) && a.vars[i] == b.vars[j] {
				for v := range tab {
					tab[v] = (tab[v] + a.tabs[i][v]) & m
				}
				i++
			}
			r.vars, r.tabs = append(r.vars, b.vars[j]), append(r.tabs, tab)
			j++
		}
	}
	if len(r.vars) > sepMax {
		return sepNo
	}
	return r
}

type i128 struct {
	hi int64
	lo uint64
}

func i128of(v int64) i128 { return i128{v >> 63, uint64(v)} }
func (a i128) add(b i128) i128 {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	return i128{a.hi + b.hi + int64(c), lo}
}
func (a i128) neg() i128 {
	lo, c := bits.Sub64(0, a.lo, 0)
	return i128{-a.hi - int64(c), lo}
}
func (a i128) less(b i128) bool { return a.hi < b.hi || a.hi == b.hi && a.lo < b.lo }

// bounds are the least and greatest integer value of the form, every summand read
// as a signed number, over the byte domains.
func (e *Eng) sepBounds(f *sepForm, w uint8) (lo, hi i128) {
	lo = i128of(sx(f.c, w))
	hi = lo
	for i, idx := range f.vars {
		d := e.domOf(idx)
		var mn, mx int64
		first := true
		for v := 0; v < 256; v++ {
			if d[v>>6]>>(uint(v)&63)&1 == 0 {
				continue
			}
			x := sx(f.tabs[i][v], w)
			if first || x < mn {
				mn = x
			}
			if first || x > mx {
				mx = x
			}
			first = false
		}
		lo, hi = lo.add(i128of(mn)), hi.add(i128of(mx))
	}
	return
}

// sepDecide returns 1 if c holds for all bytes of the domains, 0 if for none, -1 otherwise.
func (e *Eng) sepDecide(c *Term) int {
	if c.Op == ONot {
		r := e.sepDecide(c.args[0])
		if r >= 0 {
			return 1 - r
		}
		return -1
	}
	switch c.Op {
	case OAnd, OOr:
		x := e.sepDecide(c.args[0])
		absorbing := 0
		if c.Op == OOr {
			absorbing = 1
		}
		if x == absorbing {
			return x
		}
		y := e.sepDecide(c.args[1])
		if y == absorbing || x >= 0 && y >= 0 {
			return y
		}
		return -1
	}
	if uv, ok := c.unary(); ok && c.W == 0 {
		ts := c.truthSet(e.scratch, e.nextGen)
		d := e.domOf(int(uv.cv))
		var x [4]uint64
		for i := range d {
			x[i] = d[i] & ts[i]
		}
		if popcount(&x) == 0 {
			return 0
		}
		if x == d {
			return 1
		}
		return -1
	}
	switch c.Op {
	case OEq, OUlt, OUle, OSlt, OSle:
	default:
		return -1
	}
	w := c.args[0].W
	if w < 16 {
		return -1
	}
	a, b := e.sep(c.args[0]), e.sep(c.args[1])
	if !a.ok || !b.ok || len(a.vars)+len(b.vars) == 0 {
		return -1
	}
	zero := i128{}
	if c.Op == OEq {
		d := sepAdd(a, b, mask(w), mask(w))
		if !d.ok {
			return -1
		}
		sum, exact := d.c, true
		for i, idx := range d.vars {
			dom := e.domOf(idx)
			first := true
			var x uint64
			for v := 0; v < 256 && exact; v++ {
				if dom[v>>6]>>(uint(v)&63)&1 == 0 {
					continue
				}
				if first {
					x, first = d.tabs[i][v], false
				} else if x != d.tabs[i][v] {
					exact = false
				}
			}
			sum += x
		}
		if exact {
			if sum&mask(w) == 0 {
				return 1
			}
			return 0
		}
		lo, hi := e.sepBounds(d, w)
		lim := i128{hi: 1} // 2^64
		if w < 64 {
			lim = i128{lo: 1 << w}
		}
		if lim.neg().less(lo) && hi.less(lim) && (zero.less(lo) || hi.less(zero)) {
			return 0
		}
		return -1
	}
	signed := c.Op == OSlt || c.Op == OSle
	fits := func(lo, hi i128) bool {
		if signed {
			mn, mx := i128of(-1<<(w-1)), i128of(int64(mask(w)>>1))
			return !lo.less(mn) && !mx.less(hi)
		}
		return !lo.less(zero) && !(i128{lo: mask(w)}).less(hi)
	}
	la, ha := e.sepBounds(a, w)
	lb, hb := e.sepBounds(b, w)
	// a constant on its own is read in the sense of the comparison
	if len(a.vars) == 0 && !signed {
		la = i128{lo: a.c}
		ha = la
	}
	if len(b.vars) == 0 && !signed {
		lb = i128{lo: b.c}
		hb = lb
	}
	if !fits(la, ha) || !fits(lb, hb) {
		return -1
	}
	strict := c.Op == OUlt || c.Op == OSlt
	dec := func(al, ah, bl, bh i128) int {
		if strict {
			if ah.less(bl) {
				return 1
			}
			if !al.less(bh) {
				return 0
			}
		} else {
			if !bl.less(ah) {
				return 1
			}
			if bh.less(al) {
				return 0
			}
		}
		return -1
	}
	if r := dec(la, ha, lb, hb); r >= 0 {
		return r
	}
	if len(a.vars) == 0 || len(b.vars) == 0 {
		return -1
	}
	// both are exact integers: bound a-b byte by byte
	lo := i128of(sx(a.c, w)).add(i128of(sx(b.c, w)).neg())
	hi := lo
	i, j := 0, 0
	for i < len(a.vars) || j < len(b.vars) {
		var ta, tb *[256]uint64
		idx := 0
		switch {
		case j >= len(b.vars) || i < len(a.vars) && a.vars[i] < b.vars[j]:
			idx, ta = a.vars[i], a.tabs[i]
			i++
		case i >= len(a.vars) || b.vars[j] < a.vars[i]:
			idx, tb = b.vars[j], b.tabs[j]
			j++
		default:
			idx, ta, tb = a.vars[i], a.tabs[i], b.tabs[j]
			i++
			j++
		}
		dom := e.domOf(idx)
		var mn, mx i128
		first := true
		for v := 0; v < 256; v++ {
			if dom[v>>6]>>(uint(v)&63)&1 == 0 {
				continue
			}
			x := i128{}
			if ta != nil {
				x = i128of(sx(ta[v], w))
			}
			if tb != nil {
				x = x.add(i128of(sx(tb[v], w)).neg())
			}
			if first || x.less(mn) {
				mn = x
			}
			if first || mx.less(x) {
				mx = x
			}
			first = false
		}
		lo, hi = lo.add(mn), hi.add(mx)
	}
	return dec(lo, hi, zero, zero)
}

// hasMultiIte reports whether t contains an ite that depends on more than one byte.
func hasMultiIte(t *Term) bool {
	if t.multiIte == 0 {
		t.multiIte = 1
		if _, ok := t.unary(); !ok {
			if t.Op == OIte {
				t.multiIte = 2
			}
			for i := 0; i < int(t.n) && t.multiIte == 1; i++ {
				if t.args[i].W != 0 && hasMultiIte(t.args[i]) {
					t.multiIte = 2
				}
			}
		}
	}
	return t.multiIte == 2
}

// collapse removes the alternatives of a term that the path has ruled out.
func (e *Eng) collapse(t *Term) *Term {
	if !hasMultiIte(t) || e.noPref {
		return t
	}
	return e.collapse1(t, 10)
}

func (e *Eng) collapse1(t *Term, depth int) *Term {
	if depth == 0 || !hasMultiIte(t) {
		return t
	}
	switch t.Op {
	case OIte:
		switch e.quick3(t.args[0]) {
		case 1:
			return e.collapse1(t.args[1], depth)
		case 0:
			return e.collapse1(t.args[2], depth)
		}
		a, b := e.collapse1(t.args[1], depth-1), e.collapse1(t.args[2], depth-1)
		if a != t.args[1] || b != t.args[2] {
			return e.tt.Ite(t.args[0], a, b)
		}
	case OAdd, OSub, OMul, OShl:
		a, b := e.collapse1(t.args[0], depth-1), e.collapse1(t.args[1], depth-1)
		if a != t.args[0] || b != t.args[1] {
			return e.tt.Bin(t.Op, a, b)
		}
	case OZext:
		if a := e.collapse1(t.args[0], depth-1); a != t.args[0] {
			return e.tt.Zext(a, t.W)
		}
	case OSext:
		if a := e.collapse1(t.args[0], depth-1); a != t.args[0] {
			return e.tt.Sext(a, t.W)
		}
	case OExtract:
		if t.cv == 0 {
			if a := e.collapse1(t.args[0], depth-1); a != t.args[0] {
				return e.tt.Trunc(a, t.W)
			}
		}
	}
	return t
}

// quick decides a condition from what the path already knows, or returns -1.
func (e *Eng) quick3(c *Term) int {
	if v, ok := e.implied[c]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch c.Op {
	case ONot:
		if r := e.quick3(c.args[0]); r >= 0 {
			return 1 - r
		}
		return -1
	case OAnd, OOr:
		absorbing := 0
		if c.Op == OOr {
			absorbing = 1
		}
		x := e.quick3(c.args[0])
		if x == absorbing {
			return x
		}
		y := e.quick3(c.args[1])
		if y == absorbing || x >= 0 && y >= 0 {
			return y
		}
		if _, ok := c.unary(); !ok {
			return -1
		}
	}
	if uv, ok := c.unary(); ok {
		ts := c.truthSet(e.scratch, e.nextGen)
		d := e.domOf(int(uv.cv))
		var x [4]uint64
		for i := range d {
			x[i] = d[i] & ts[i]
		}
		if popcount(&x) == 0 {
			return 0
		}
		if x == d {
			return 1
		}
	}
	return -1
}
