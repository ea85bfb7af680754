package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrFn func(e *Eng, in *ssa.Call, args []Value, dst int) bool

type intr struct {
	f    intrFn
	pure bool
}

func simple(f func(e *Eng, args []Value) Value) intrFn {
	return func(e *Eng, in *ssa.Call, args []Value, dst int) bool {
		e.setAdv(dst, f(e, args))
		return true
	}
}

var intrTab map[string]intr
var redirTab map[string]string

func (e *Eng) lookupIntr(fn *ssa.Function) *FuncInfo {
	fi := e.info(fn)
	if fi.intrSt == 0 {
		fi.intrSt = 1
		name := fn.String()
		if o := fn.Origin(); o != nil {
			name = o.String()
		}
		if x, ok := intrTab[name]; ok {
			fi.intr = x.f
			fi.intrSt = 2
			if x.pure {
				fi.intrSt = 3
			}
		}
		if r, ok := redirTab[name]; ok {
			fi.redir = e.L.model[r]
		}
	}
	return fi
}

func (e *Eng) intrinsic(fn *ssa.Function) intrFn       { return e.lookupIntr(fn).intr }
func (e *Eng) redirect(fn *ssa.Function) *ssa.Function { return e.lookupIntr(fn).redir }
func (e *Eng) hasIntrinsic(fn *ssa.Function) bool      { return fn != nil && e.lookupIntr(fn).intr != nil }
func (e *Eng) intrPure(fn *ssa.Function) (pure, known bool) {
	fi := e.lookupIntr(fn)
	return fi.intrSt == 3, fi.intrSt >= 2
}

func (e *Eng) newInput(w uint8, kind string) *Term {
	t := e.tt.Var(w, len(e.inputs))
	e.inputs = append(e.inputs, inputRec{t: t, kind: kind})
	return t
}

func (e *Eng) argStr(v Value) string {
	s, ok := v.(*Str).conc()
	if !ok {
		e.unsupported("label must be concrete")
	}
	return s
}

func allConc(args []Value) bool {
	for _, a := range args {
		if symbolic(a) {
			return false
		}
	}
	return true
}

var rtypeT types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "reflect.rtype", nil), types.Typ[types.Int], nil)

// RType and RVal stand for reflect.Type and reflect.Value.
type RType struct{ t types.Type }
type RVal struct {
	t  types.Type
	p  Ptr // variable, if addressable
	v  Value
	ro bool // got through an unexported field
}

func (r *RVal) val(e *Eng) Value {
	if r.p != nil {
		return e.load(r.p)
	}
	return r.v
}

var rtypes sync.Map

func mkRType(t types.Type) IfaceV {
	return IfaceV{rtypeT, &RType{t}}
}

func kindOf(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return uint64(reflect.Bool)
		case types.Int:
			return uint64(reflect.Int)
		case types.Int32:
			return uint64(reflect.Int32)
		case types.String:
			return uint64(reflect.String)
		}
	case *types.Struct:
		return uint64(reflect.Struct)
	case *types.Pointer:
		return uint64(reflect.Ptr)
	case *types.Slice:
		return uint64(reflect.Slice)
	case *types.Interface:
		return uint64(reflect.Interface)
	case *types.Map:
		return uint64(reflect.Map)
	case *types.Signature:
		return uint64(reflect.Func)
	}
	return 0
}

// nativeMethod implements interface methods of values the engine represents itself.
func (e *Eng) nativeMethod(recv IfaceV, name string) *FuncV {
	if recv.t == runtimeErrT {
		if name == "Error" {
			s := recv.v
			return &FuncV{native: func(e *Eng, args []Value) Value { return s }}
		}
		return nil
	}
	rt, ok := recv.v.(*RType)
	if !ok {
		return nil
	}
	st := func() *types.Struct {
		s, ok := rt.t.Underlying().(*types.Struct)
		if !ok {
			e.unsupported("reflect: not a struct")
		}
		return s
	}
	switch name {
	case "Elem":
		return &FuncV{native: func(e *Eng, args []Value) Value {
			switch u := rt.t.Underlying().(type) {
			case *types.Pointer:
				return mkRType(u.Elem())
			case *types.Slice:
				return mkRType(u.Elem())
			}
			panic(goPanic{desc: "reflect: Elem of invalid type", rt: true})
		}}
	case "NumField":
		return &FuncV{native: func(e *Eng, args []Value) Value { return e.tt.Const(64, uint64(st().NumFields())) }}
	case "Kind":
		return &FuncV{native: func(e *Eng, args []Value) Value { return e.tt.Const(64, kindOf(rt.t)) }}
	case "String":
		return &FuncV{native: func(e *Eng, args []Value) Value { return &Str{c: typeName(rt.t)} }}
	case "Name":
		return &FuncV{native: func(e *Eng, args []Value) Value {
			if n, ok := rt.t.(*types.Named); ok {
				return &Str{c: n.Obj().Name()}
			}
			return emptyStr
		}}
	case "Field":
		return &FuncV{native: func(e *Eng, args []Value) Value {
			i := e.concInt(args[0])
			return e.structField(st(), i)
		}}
	}
	e.unsupported("reflect.Type." + name)
	return nil
}

func (e *Eng) structField(s *types.Struct, i int) Value {
	sfT := e.L.byPath["reflect"].Type("StructField").Type()
	a := e.zero(sfT).(*Agg)
	u := sfT.Underlying().(*types.Struct)
	for k := 0; k < u.NumFields(); k++ {
		switch u.Field(k).Name() {
		case "Name":
			a.e[k] = &Str{c: s.Field(i).Name()}
		case "PkgPath":
			if !s.Field(i).Exported() {
				a.e[k] = &Str{c: s.Field(i).Pkg().Path()}
			}
		case "Type":
			a.e[k] = mkRType(s.Field(i).Type())
		case "Tag":
			a.e[k] = &Str{c: s.Tag(i)}
		case "Anonymous":
			a.e[k] = e.tt.Bool(s.Field(i).Embedded())
		}
	}
	return a
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ------------------------------------------------------------ rune tables

type runeGroup struct {
	lo, hi, stride, delta int32
}

var groupCache = map[string][]runeGroup{}
var groupMu sync.Mutex

// groupsOf compresses a rune function to arithmetic pieces with constant offset (offset 0 omitted).
func groupsOf(name string, f func(rune) rune) []runeGroup {
	groupMu.Lock()
	defer groupMu.Unlock()
	if g, ok := groupCache[name]; ok {
		return g
	}
	var g []runeGroup
	for r := rune(0); r <= unicode.MaxRune; r++ {
		d := f(r) - r
		if d == 0 {
			continue
		}
		if n := len(g) - 1; n >= 0 && g[n].delta == d {
			if g[n].lo == g[n].hi && r-g[n].hi <= 2 {
				g[n].stride = r - g[n].hi
				g[n].hi = r
				continue
			}
			if g[n].lo != g[n].hi && r-g[n].hi == g[n].stride {
				g[n].hi = r
				continue
			}
		}
		g = append(g, runeGroup{r, r, 1, d})
	}
	groupCache[name] = g
	return g
}

// interval bounds the unsigned value of a term.
func interval(t *Term) (uint64, uint64) {
	if !t.ivOk {
		t.ivLo, t.ivHi = interval1(t)
		t.ivOk = true
	}
	return t.ivLo, t.ivHi
}

func interval1(t *Term) (uint64, uint64) {
	switch t.Op {
	case ORng:
		return t.cv >> 32, t.cv & 0xFFFFFFFF
	case OConst:
		return t.cv, t.cv
	case OZext:
		return interval(t.args[0])
	case OIte:
		a, b := interval(t.args[1])
		c, d := interval(t.args[2])
		if c < a {
			a = c
		}
		if d > b {
			b = d
		}
		return a, b
	case OBAnd:
		if t.args[0].IsConst() {
			return 0, t.args[0].cv
		}
	case OShl:
		if t.args[1].IsConst() {
			_, h := interval(t.args[0])
			v := h << t.args[1].cv
			if v <= mask(t.W) && h <= mask(t.W)>>t.args[1].cv {
				return 0, v
			}
		}
	case OBOr:
		_, h1 := interval(t.args[0])
		_, h2 := interval(t.args[1])
		m := h1 | h2
		for k := uint(1); k < 64; k <<= 1 {
			m |= m >> k
		}
		return 0, m
	}
	return 0, mask(t.W)
}

// tableFn is a fixed function on runes, known to the solver as a decision tree.
type tableFn struct {
	name string
	def  string
	f    func(uint64) uint64
}

var tables = make([]tableFn, 0, 256)
var tableIdx = map[string]uint64{}

func hex32(v int32) string { return fmt.Sprintf("#x%08x", uint32(v)) }

// table returns the id of the table for name restricted to values up to limit.
func table(name string, pred bool, groups []runeGroup, limit uint64, f func(rune) rune) uint64 {
	key := fmt.Sprintf("%s_%x", name, limit)
	groupMu.Lock()
	defer groupMu.Unlock()
	if i, ok := tableIdx[key]; ok {
		return i
	}
	var gs []runeGroup
	for _, g := range groups {
		if uint64(g.lo) <= limit {
			gs = append(gs, g)
		}
	}
	var build func(gs []runeGroup) string
	build = func(gs []runeGroup) string {
		no := "x"
		if pred {
			no = "false"
		}
		if len(gs) == 0 {
			return no
		}
		if len(gs) == 1 {
			g := gs[0]
			c := fmt.Sprintf("(= x %s)", hex32(g.lo))
			if g.lo != g.hi {
				c = fmt.Sprintf("(bvule %s x) (bvule x %s)", hex32(g.lo), hex32(g.hi))
				if g.stride == 2 {
					c += fmt.Sprintf(" (= ((_ extract 0 0) x) #b%d)", g.lo&1)
				}
				c = "(and " + c + ")"
			}
			if pred {
				return c
			}
			return fmt.Sprintf("(ite %s (bvadd x %s) x)", c, hex32(g.delta))
		}
		m := len(gs) / 2
		return fmt.Sprintf("(ite (bvult x %s) %s %s)", hex32(gs[m].lo), build(gs[:m]), build(gs[m:]))
	}
	sort := "(_ BitVec 32)"
	if pred {
		sort = "Bool"
	}
	t := tableFn{name: "tab_" + strings.ReplaceAll(key, ":", "_")}
	t.def = fmt.Sprintf("(define-fun %s ((x (_ BitVec 32))) %s %s)\n", t.name, sort, build(gs))
	t.f = func(v uint64) uint64 {
		if v > limit || v > unicode.MaxRune {
			if pred {
				return 0
			}
			return v
		}
		r := f(rune(v))
		if pred {
			return uint64(r - rune(v))
		}
		return uint64(uint32(r))
	}
	if len(tables) == cap(tables) {
		panic("too many tables")
	}
	tables = append(tables, t)
	tableIdx[key] = uint64(len(tables) - 1)
	return uint64(len(tables) - 1)
}

func limitOf(hi uint64) uint64 {
	switch {
	case hi <= 0xFF:
		return 0xFF
	case hi <= 0x7FF:
		return 0x7FF
	case hi <= 0xFFFF:
		return 0xFFFF
	}
	return unicode.MaxRune
}

func (e *Eng) mapRune(name string, f func(rune) rune, r *Term) *Term {
	if r.IsConst() {
		return e.tt.Const(32, uint64(uint32(f(rune(int32(uint32(r.cv)))))))
	}
	if r.Op == OIte {
		return e.tt.Ite(r.args[0], e.mapRune(name, f, r.args[1]), e.mapRune(name, f, r.args[2]))
	}
	gs := groupsOf(name, f)
	lo, hi := interval(r)
	n := 0
	for _, g := range gs {
		if uint64(g.hi) >= lo && uint64(g.lo) <= hi {
			n++
		}
	}
	if n > 6 {
		return e.tt.mk(OTab, 32, table(name, false, gs, limitOf(hi), f), r, nil, nil)
	}
	res := r
	c := func(v int32) *Term { return e.tt.Const(32, uint64(uint32(v))) }
	for _, g := range gs {
		if uint64(g.hi) < lo || uint64(g.lo) > hi {
			continue
		}
		var cond *Term
		if g.lo == g.hi {
			cond = e.tt.Eq(r, c(g.lo))
		} else {
			cond = e.tt.And(e.tt.cmp(OUle, c(g.lo), r), e.tt.cmp(OUle, r, c(g.hi)))
			if g.stride == 2 {
				cond = e.tt.And(cond, e.tt.Eq(e.tt.Bin(OBAnd, c(1), r), c(g.lo&1)))
			}
		}
		res = e.tt.Ite(cond, e.tt.Bin(OAdd, c(g.delta), r), res)
	}
	return res
}

func (e *Eng) predRune(name string, f func(rune) bool, r *Term) *Term {
	if r.IsConst() {
		return e.tt.Bool(f(rune(int32(uint32(r.cv)))))
	}
	if r.Op == OIte {
		return e.tt.Ite(r.args[0], e.predRune(name, f, r.args[1]), e.predRune(name, f, r.args[2]))
	}
	ff := func(x rune) rune {
		if f(x) {
			return x + 1
		}
		return x
	}
	gs := groupsOf("pred:"+name, ff)
	lo, hi := interval(r)
	n := 0
	for _, g := range gs {
		if uint64(g.hi) >= lo && uint64(g.lo) <= hi {
			n++
		}
	}
	if n > 6 {
		return e.tt.mk(OTab, 0, table("pred:"+name, true, gs, limitOf(hi), ff), r, nil, nil)
	}
	res := e.tt.f
	c := func(v int32) *Term { return e.tt.Const(32, uint64(uint32(v))) }
	for _, g := range gs {
		if uint64(g.hi) < lo || uint64(g.lo) > hi {
			continue
		}
		cond := e.tt.And(e.tt.cmp(OUle, c(g.lo), r), e.tt.cmp(OUle, r, c(g.hi)))
		if g.stride == 2 {
			cond = e.tt.And(cond, e.tt.Eq(e.tt.Bin(OBAnd, c(1), r), c(g.lo&1)))
		}
		res = e.tt.Or(res, cond)
	}
	return res
}

func canonFold(r rune) rune {
	if r < 0 || r > unicode.MaxRune {
		return r
	}
	m := r
	for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
		if x < m {
			m = x
		}
	}
	return m
}

// ------------------------------------------------------------ byte searches

func (e *Eng) bytesOf(v Value) []*Term {
	switch x := v.(type) {
	case *Str:
		return e.strBytes(x)
	case SliceV:
		b := make([]*Term, x.len)
		for i := range b {
			b[i] = x.arr.e[x.off+i].(*Term)
		}
		return b
	}
	e.unsupported("bytes")
	return nil
}

func (e *Eng) indexByteT(b []*Term, c *Term) *Term {
	r := e.tt.Const(64, ^uint64(0))
	for i := len(b) - 1; i >= 0; i-- {
		r = e.tt.Ite(e.tt.Eq(b[i], c), e.tt.Const(64, uint64(i)), r)
	}
	return r
}

func (e *Eng) lastIndexByteT(b []*Term, c *Term) *Term {
	r := e.tt.Const(64, ^uint64(0))
	for i := 0; i < len(b); i++ {
		r = e.tt.Ite(e.tt.Eq(b[i], c), e.tt.Const(64, uint64(i)), r)
	}
	return r
}

func (e *Eng) matchAt(b, sub []*Term, i int) *Term {
	r := e.tt.t
	for j := range sub {
		r = e.tt.And(r, e.tt.Eq(b[i+j], sub[j]))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

func (e *Eng) indexT(b, sub []*Term, last bool) *Term {
	r := e.tt.Const(64, ^uint64(0))
	if last {
		for i := 0; i+len(sub) <= len(b); i++ {
			r = e.tt.Ite(e.matchAt(b, sub, i), e.tt.Const(64, uint64(i)), r)
		}
		return r
	}
	for i := len(b) - len(sub); i >= 0; i-- {
		r = e.tt.Ite(e.matchAt(b, sub, i), e.tt.Const(64, uint64(i)), r)
	}
	return r
}

func (e *Eng) opaque(why string) *Str { return &Str{op: &Opaque{why, []string{""}}} }

// opaqueLen is the length of an opaque string: any 16-bit number.
func (e *Eng) opaqueLen() *Term { return e.tt.Zext(e.newInput(16, "free"), 64) }

func strOf(v Value) (string, bool) { return v.(*Str).conc() }

// anyOpaque propagates opaque strings through text functions.
func anyOpaque(args []Value) *Str {
	for _, a := range args {
		if s, ok := a.(*Str); ok && s.op != nil {
			return s
		}
	}
	return nil
}

func init() {
	t := map[string]intr{}
	intrTab = t
	add := func(name string, pure bool, f intrFn) { t[name] = intr{f, pure} }
	pv := func(name string, f func(e *Eng, a []Value) Value) { add(name, true, simple(f)) }
	ef := func(name string, f func(e *Eng, a []Value) Value) { add(name, false, simple(f)) }
	noop := func(name string) { ef(name, func(e *Eng, a []Value) Value { return nil }) }

	// ---- harness interface
	ef(vpPath+".Byte", func(e *Eng, a []Value) Value { return e.newInput(8, "byte") })
	ef(vpPath+".Bool", func(e *Eng, a []Value) Value { return e.newInput(0, "bool") })
	ef(vpPath+".Int", func(e *Eng, a []Value) Value { return e.newInput(64, "int") })
	ef(vpPath+".Uint64", func(e *Eng, a []Value) Value { return e.newInput(64, "int") })
	ef(vpPath+".Rune", func(e *Eng, a []Value) Value { return e.newInput(32, "rune") })
	add(vpPath+".Str", false, func(e *Eng, in *ssa.Call, a []Value, dst int) bool {
		n := e.concInt(a[0])
		b := make([]*Term, n)
		for i := range b {
			b[i] = e.newInput(8, "byte")
		}
		if n == 0 {
			e.setAdv(dst, emptyStr)
		} else {
			e.setAdv(dst, &Str{b: b})
		}
		return true
	})
	add(vpPath+".Choose", false, func(e *Eng, in *ssa.Call, a []Value, dst int) bool {
		n := e.concInt(a[0])
		if n <= 0 {
			panic(pathAbort{k: abAssume, why: "empty choice"})
		}
		vals := make([]uint64, n)
		for i := range vals {
			vals[i] = uint64(i)
		}
		e.choose(nil, vals, func(i int) {
			e.inputs = append(e.inputs, inputRec{t: e.tt.Const(64, uint64(i)), kind: "choose", val: uint64(i)})
			e.setAdv(dst, e.tt.Const(64, uint64(i)))
		})
		return true
	})
	ef(vpPath+".Assume", func(e *Eng, a []Value) Value { e.doAssume(a[0].(*Term)); return nil })
	ef(vpPath+".Assert", func(e *Eng, a []Value) Value { e.doAssert(a[0].(*Term), e.argStr(a[1])); return nil })
	ef(vpPath+".Cover", func(e *Eng, a []Value) Value { e.covers[e.argStr(a[0])]++; return nil })
	obs := func(e *Eng, a []Value) Value {
		if len(e.obs) < 64 {
			e.obs = append(e.obs, obsRec{e.argStr(a[0]), a[1]})
		}
		return nil
	}
	ef(vpPath+".ObserveInt", obs)
	ef(vpPath+".ObserveBool", obs)
	ef(vpPath+".ObserveStr", obs)
	ef(vpPath+".RunePred", func(e *Eng, a []Value) Value {
		id := e.ufN
		e.ufN++
		e.inputs = append(e.inputs, inputRec{t: e.tt.Const(64, uint64(id)), kind: "pred", uf: id})
		return &FuncV{name: "pred", native: func(e *Eng, args []Value) Value {
			r := args[0].(*Term)
			u := e.tt.UF(id, r)
			known := false
			for _, x := range e.ufApps {
				if x == u {
					known = true
				}
			}
			if !known {
				e.ufApps = append(e.ufApps, u)
			}
			return u
		}}
	})
	pv(vpPath+".Bound", func(e *Eng, a []Value) Value {
		if e.L.thorough {
			return a[1]
		}
		return a[0]
	})
	pv(vpPath+".Symbolic", func(e *Eng, a []Value) Value { return e.tt.t })

	// ---- model helpers
	pv(modelPath+".fold", func(e *Eng, a []Value) Value { return e.mapRune("fold", canonFold, a[0].(*Term)) })
	pv(modelPath+".typeName", func(e *Eng, a []Value) Value {
		x := a[0].(IfaceV)
		if x.t == nil {
			return &Str{c: "<nil>"}
		}
		return &Str{c: typeName(x.t)}
	})
	pv(modelPath+".itoa", func(e *Eng, a []Value) Value {
		x := a[0].(*Term)
		if x.IsConst() {
			return &Str{c: strconv.FormatInt(x.Int(), 10)}
		}
		return e.opaque("decimal of a symbolic number")
	})
	ef(modelPath+".assignTo", func(e *Eng, a []Value) Value {
		x, target := a[0].(IfaceV), a[1].(IfaceV)
		p, ok := target.t.(*types.Pointer)
		if !ok || x.t == nil {
			e.unsupported("errors.As")
		}
		var v Value
		if i, isI := p.Elem().Underlying().(*types.Interface); isI {
			if !e.implements(x.t, i) {
				return e.tt.f
			}
			v = x
		} else {
			if !types.Identical(p.Elem(), x.t) {
				return e.tt.f
			}
			v = x.v
		}
		e.storeTo(target.v.(Ptr), v)
		return e.tt.t
	})
	pv(modelPath+".opaque", func(e *Eng, a []Value) Value { return e.opaque("formatted value") })
	pv(modelPath+".intOf", func(e *Eng, a []Value) Value {
		// dynamic value of any integer kind, sign- or zero-extended
		x := a[0].(IfaceV)
		if tm, ok := x.v.(*Term); ok && x.t != nil {
			ti := e.ti(x.t)
			if ti.k == kInt || ti.k == kUint {
				return Tuple{e.toInt64(tm, x.t), e.tt.t}
			}
		}
		return Tuple{e.tt.Const(64, 0), e.tt.f}
	})
	pv(modelPath+".strOf", func(e *Eng, a []Value) Value {
		x := a[0].(IfaceV)
		if s, ok := x.v.(*Str); ok {
			return Tuple{s, e.tt.t}
		}
		return Tuple{emptyStr, e.tt.f}
	})
	pv(modelPath+".boolOf", func(e *Eng, a []Value) Value {
		x := a[0].(IfaceV)
		if s, ok := x.v.(*Term); ok && s.W == 0 {
			return Tuple{s, e.tt.t}
		}
		return Tuple{e.tt.f, e.tt.f}
	})

	// ---- utf8
	pv("unicode/utf8.DecodeRuneInString", func(e *Eng, a []Value) Value {
		s := a[0].(*Str)
		if s.op != nil {
			e.unsupported("inspection of an opaque formatted string")
		}
		r, n := e.decodeRune(s, 0)
		return Tuple{r, n}
	})
	pv("unicode/utf8.DecodeLastRuneInString", func(e *Eng, a []Value) Value {
		r, n := e.decodeLastRune(a[0].(*Str))
		return Tuple{r, n}
	})
	pv("unicode/utf8.DecodeRune", func(e *Eng, a []Value) Value {
		r, n := e.decodeRune(e.bytesToStr(a[0].(SliceV)), 0)
		return Tuple{r, n}
	})
	pv("unicode/utf8.DecodeLastRune", func(e *Eng, a []Value) Value {
		r, n := e.decodeLastRune(e.bytesToStr(a[0].(SliceV)))
		return Tuple{r, n}
	})
	pv("unicode/utf8.RuneLen", func(e *Eng, a []Value) Value {
		r := a[0].(*Term)
		c := func(v uint64) *Term { return e.tt.Const(32, v) }
		k := func(v int64) *Term { return e.tt.Const(64, uint64(v)) }
		sur := e.tt.And(e.tt.cmp(OUle, c(0xD800), r), e.tt.cmp(OUle, r, c(0xDFFF)))
		return e.tt.Ite(e.tt.cmp(OUlt, r, c(0x80)), k(1),
			e.tt.Ite(e.tt.cmp(OUlt, r, c(0x800)), k(2),
				e.tt.Ite(e.tt.Or(sur, e.tt.cmp(OUlt, c(utf8.MaxRune), r)), k(-1),
					e.tt.Ite(e.tt.cmp(OUlt, r, c(0x10000)), k(3), k(4)))))
	})
	pv("unicode/utf8.ValidRune", func(e *Eng, a []Value) Value {
		r := a[0].(*Term)
		c := func(v uint64) *Term { return e.tt.Const(32, v) }
		return e.tt.Or(e.tt.cmp(OUlt, r, c(0xD800)), e.tt.And(e.tt.cmp(OUlt, c(0xDFFF), r), e.tt.cmp(OUle, r, c(utf8.MaxRune))))
	})

	// ---- unicode
	for n, f := range map[string]func(rune) bool{"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsSpace": unicode.IsSpace,
		"IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsControl": unicode.IsControl, "IsPunct": unicode.IsPunct,
		"IsNumber": unicode.IsNumber, "IsPrint": unicode.IsPrint, "IsGraphic": unicode.IsGraphic, "IsSymbol": unicode.IsSymbol} {
		n, f := n, f
		pv("unicode."+n, func(e *Eng, a []Value) Value { return e.predRune(n, f, a[0].(*Term)) })
	}
	for n, f := range map[string]func(rune) rune{"ToLower": unicode.ToLower, "ToUpper": unicode.ToUpper, "SimpleFold": unicode.SimpleFold, "ToTitle": unicode.ToTitle} {
		n, f := n, f
		pv("unicode."+n, func(e *Eng, a []Value) Value { return e.mapRune(n, f, a[0].(*Term)) })
	}

	// ---- bytealg and string searches
	for _, n := range []string{"internal/bytealg.IndexByteString", "internal/bytealg.IndexByte", "strings.IndexByte", "internal/stringslite.IndexByte", "bytes.IndexByte"} {
		pv(n, func(e *Eng, a []Value) Value { return e.indexByteT(e.bytesOf(a[0]), a[1].(*Term)) })
	}
	for _, n := range []string{"internal/bytealg.LastIndexByteString", "internal/bytealg.LastIndexByte", "strings.LastIndexByte"} {
		pv(n, func(e *Eng, a []Value) Value { return e.lastIndexByteT(e.bytesOf(a[0]), a[1].(*Term)) })
	}
	for _, n := range []string{"strings.Index", "internal/stringslite.Index", "internal/bytealg.IndexString", "internal/bytealg.Index", "bytes.Index"} {
		pv(n, func(e *Eng, a []Value) Value { return e.indexT(e.bytesOf(a[0]), e.bytesOf(a[1]), false) })
	}
	pv("strings.LastIndex", func(e *Eng, a []Value) Value { return e.indexT(e.bytesOf(a[0]), e.bytesOf(a[1]), true) })
	pv("strings.Contains", func(e *Eng, a []Value) Value {
		if o := anyOpaque(a); o != nil {
			if x, ok := strOf(a[1]); ok && a[0].(*Str).op != nil {
				for _, p := range a[0].(*Str).op.parts {
					if strings.Contains(p, x) {
						return e.tt.t
					}
				}
			}
			e.unsupported("inspection of an opaque formatted string (" + o.op.why + ")")
		}
		r := e.tt.f
		b, sub := e.bytesOf(a[0]), e.bytesOf(a[1])
		for i := 0; i+len(sub) <= len(b); i++ {
			r = e.tt.Or(r, e.matchAt(b, sub, i))
		}
		return r
	})
	for _, n := range []string{"strings.HasPrefix", "internal/stringslite.HasPrefix"} {
		pv(n, func(e *Eng, a []Value) Value {
			b, p := e.bytesOf(a[0]), e.bytesOf(a[1])
			if len(p) > len(b) {
				return e.tt.f
			}
			return e.matchAt(b, p, 0)
		})
	}
	for _, n := range []string{"strings.HasSuffix", "internal/stringslite.HasSuffix"} {
		pv(n, func(e *Eng, a []Value) Value {
			b, p := e.bytesOf(a[0]), e.bytesOf(a[1])
			if len(p) > len(b) {
				return e.tt.f
			}
			return e.matchAt(b, p, len(b)-len(p))
		})
	}
	for _, n := range []string{"internal/bytealg.CountString", "internal/bytealg.Count"} {
		pv(n, func(e *Eng, a []Value) Value {
			r := e.tt.Const(64, 0)
			for _, b := range e.bytesOf(a[0]) {
				r = e.tt.Bin(OAdd, r, e.tt.Ite(e.tt.Eq(b, a[1].(*Term)), e.tt.Const(64, 1), e.tt.Const(64, 0)))
			}
			return r
		})
	}
	pv("internal/bytealg.MakeNoZero", func(e *Eng, a []Value) Value {
		n := e.concInt(a[0])
		return e.makeSlice(types.Typ[types.Uint8], n, n)
	})
	for _, n := range []string{"internal/bytealg.Equal", "bytes.Equal"} {
		pv(n, func(e *Eng, a []Value) Value {
			return e.strEq(e.bytesToStr(a[0].(SliceV)), e.bytesToStr(a[1].(SliceV)))
		})
	}
	for _, n := range []string{"internal/bytealg.CompareString", "strings.Compare"} {
		pv(n, func(e *Eng, a []Value) Value {
			x, y := a[0].(*Str), a[1].(*Str)
			k := func(v int64) *Term { return e.tt.Const(64, uint64(v)) }
			return e.tt.Ite(e.strLess(x, y), k(-1), e.tt.Ite(e.strEq(x, y), k(0), k(1)))
		})
	}
	pv("strings.Clone", func(e *Eng, a []Value) Value { return a[0] })
	pv("internal/stringslite.Clone", func(e *Eng, a []Value) Value { return a[0] })

	// functions evaluated natively when their arguments are concrete
	conc1 := func(name string, f func(string) string) {
		add(name, false, func(e *Eng, in *ssa.Call, a []Value, dst int) bool {
			if o := anyOpaque(a); o != nil {
				e.setAdv(dst, o)
				return true
			}
			if s, ok := strOf(a[0]); ok {
				e.setAdv(dst, &Str{c: f(s)})
				return true
			}
			return false
		})
	}
	conc1("strings.ToLower", strings.ToLower)
	conc1("strings.ToUpper", strings.ToUpper)
	add("strings.Trim", false, func(e *Eng, in *ssa.Call, a []Value, dst int) bool {
		if o := anyOpaque(a); o != nil {
			e.setAdv(dst, o)
			return true
		}
		x, ok1 := strOf(a[0])
		y, ok2 := strOf(a[1])
		if ok1 && ok2 {
			e.setAdv(dst, &Str{c: strings.Trim(x, y)})
			return true
		}
		return false
	})
	quote := func(name string, f func(string) string) {
		add(name, true, func(e *Eng, in *ssa.Call, a []Value, dst int) bool {
			if o := anyOpaque(a); o != nil {
				e.setAdv(dst, o)
			} else if s, ok := strOf(a[0]); ok {
				e.setAdv(dst, &Str{c: f(s)})
			} else if e.L.exactQuote {
				return false // the code of strconv is executed
			} else {
				e.setAdv(dst, e.opaque("quoted symbolic text"))
			}
			return true
		})
	}
	quote("strconv.Quote", strconv.Quote)
	quote("strconv.QuoteToGraphic", strconv.QuoteToGraphic)
	quote("strconv.QuoteToASCII", strconv.QuoteToASCII)
	quoteR := func(name string, f func(rune) string) {
		add(name, true, func(e *Eng, in *ssa.Call, a []Value, dst int) bool {
			if t := a[0].(*Term); t.IsConst() {
				e.setAdv(dst, &Str{c: f(rune(int32(uint32(t.cv))))})
			} else if e.L.exactQuote {
				return false
			} else {
				e.setAdv(dst, e.opaque("quoted symbolic rune"))
			}
			return true
		})
	}
	quoteR("strconv.QuoteRune", strconv.QuoteRune)
	quoteR("strconv.QuoteRuneToGraphic", strconv.QuoteRuneToGraphic)
	quoteR("strconv.QuoteRuneToASCII", strconv.QuoteRuneToASCII)
	pv("strconv.Itoa", func(e *Eng, a []Value) Value {
		if x := a[0].(*Term); x.IsConst() {
			return &Str{c: strconv.FormatInt(x.Int(), 10)}
		}
		return e.opaque("decimal of a symbolic number")
	})
	for _, n := range []string{"FormatInt", "FormatUint"} {
		n := n
		pv("strconv."+n, func(e *Eng, a []Value) Value {
			x, b := a[0].(*Term), a[1].(*Term)
			if x.IsConst() && b.IsConst() {
				if n == "FormatInt" {
					return &Str{c: strconv.FormatInt(x.Int(), int(b.Int()))}
				}
				return &Str{c: strconv.FormatUint(x.cv, int(b.Int()))}
			}
			return e.opaque("digits of a symbolic number")
		})
	}
	ef("(*strings.Builder).String", func(e *Eng, a []Value) Value {
		ag := (*e.deref(a[0])).(*Agg)
		if o, ok := ag.e[0].(*Str); ok { // opaque content, see WriteString
			return o
		}
		return e.bytesToStr(ag.e[1].(SliceV))
	})
	noop("(*strings.Builder).copyCheck")
	add("(*bytes.Buffer).String", false, func(e *Eng, in *ssa.Call, a []Value, dst int) bool {
		if p, ok := a[0].(Ptr); !ok || p == nil {
			return false
		}
		o, ok := (*e.deref(a[0])).(*Agg).e[0].(*Str)
		if ok {
			e.setAdv(dst, o)
		}
		return ok
	})
	var write func(name string, text func(e *Eng, v Value) *Str, ret func(e *Eng) Value)
	write1 := func(typ, name string, content func(e *Eng, ag *Agg) *Str, text func(e *Eng, v Value) *Str, ret func(e *Eng) Value) {
		add(typ+"."+name, false, func(e *Eng, in *ssa.Call, a []Value, dst int) bool {
			s := text(e, a[1])
			ag := (*e.deref(a[0])).(*Agg)
			if o, ok := ag.e[0].(*Str); ok {
				e.store(&ag.e[0], e.strConcat(o, s))
				e.setAdv(dst, ret(e))
				return true
			}
			if s.op == nil {
				return false
			}
			c := content(e, ag)
			if c == nil {
				return false
			}
			e.store(&ag.e[0], e.strConcat(c, s))
			e.setAdv(dst, ret(e))
			return true
		})
	}
	write = func(name string, text func(e *Eng, v Value) *Str, ret func(e *Eng) Value) {
		write1("(*strings.Builder)", name, func(e *Eng, ag *Agg) *Str { return e.bytesToStr(ag.e[1].(SliceV)) }, text, ret)
		write1("(*bytes.Buffer)", name, func(e *Eng, ag *Agg) *Str {
			if off, ok := ag.e[1].(*Term); !ok || !off.IsConst() || off.cv != 0 {
				return nil
			}
			return e.bytesToStr(ag.e[0].(SliceV))
		}, text, ret)
	}
	nErr := func(e *Eng) Value { return Tuple{e.tt.Const(64, 0), IfaceV{}} }
	write("WriteString", func(e *Eng, v Value) *Str { return v.(*Str) }, nErr)
	write("WriteByte", func(e *Eng, v Value) *Str { return normStr([]*Term{v.(*Term)}) }, func(e *Eng) Value { return IfaceV{} })
	write("WriteRune", func(e *Eng, v Value) *Str {
		if t := v.(*Term); t.IsConst() {
			return &Str{c: string(rune(int32(uint32(t.cv))))}
		}
		return &Str{b: []*Term{e.tt.Const(8, 0), e.tt.Const(8, 0)}} // only used behind opaque content
	}, nErr)
	add("strings.Join", false, func(e *Eng, in *ssa.Call, a []Value, dst int) bool {
		sl := a[0].(SliceV)
		sep := a[1].(*Str)
		r := emptyStr
		for i := 0; i < sl.len; i++ {
			if i > 0 {
				r = e.strConcat(r, sep)
			}
			r = e.strConcat(r, sl.arr.e[sl.off+i].(*Str))
		}
		e.setAdv(dst, r)
		return true
	})

	// ---- sync and runtime bits
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC"} {
		noop(n)
	}
	pv("internal/abi.NoEscape", func(e *Eng, a []Value) Value { return a[0] })

	// ---- reflection
	ef("internal/reflectlite.Swapper", func(e *Eng, a []Value) Value {
		sl := a[0].(IfaceV).v.(SliceV)
		return &FuncV{name: "swap", native: func(e *Eng, args []Value) Value {
			i, j := e.concInt(args[0]), e.concInt(args[1])
			p, q := &sl.arr.e[sl.off+i], &sl.arr.e[sl.off+j]
			x, y := e.load(p), e.load(q)
			e.storeTo(p, y)
			e.storeTo(q, x)
			return nil
		}}
	})
	mkVal := func(e *Eng, a []Value) Value {
		x := a[0].(IfaceV)
		return &RVal{t: x.t, v: x.v}
	}
	ef("internal/reflectlite.ValueOf", mkVal)
	ef("reflect.ValueOf", mkVal)
	ef("internal/reflectlite.TypeOf", func(e *Eng, a []Value) Value { return mkRType(a[0].(IfaceV).t) })
	ef("reflect.TypeOf", func(e *Eng, a []Value) Value {
		x := a[0].(IfaceV)
		if x.t == nil {
			return IfaceV{}
		}
		return mkRType(x.t)
	})
	rv := func(name string, f func(e *Eng, r *RVal, a []Value) Value) {
		g := func(e *Eng, a []Value) Value {
			r, ok := a[0].(*RVal)
			if !ok {
				e.unsupported("zero reflect.Value")
			}
			return f(e, r, a[1:])
		}
		ef("(reflect.Value)."+name, g)
		ef("(internal/reflectlite.Value)."+name, g)
	}
	rv("Len", func(e *Eng, r *RVal, a []Value) Value {
		if s, ok := r.val(e).(SliceV); ok {
			return e.tt.Const(64, uint64(s.len))
		}
		e.unsupported("reflect Len")
		return nil
	})
	rv("Elem", func(e *Eng, r *RVal, a []Value) Value {
		switch x := r.val(e).(type) {
		case Ptr:
			if x == nil {
				e.unsupported("reflect Elem of nil")
			}
			return &RVal{t: r.t.Underlying().(*types.Pointer).Elem(), p: x, ro: r.ro}
		case IfaceV:
			return &RVal{t: x.t, v: x.v, ro: r.ro}
		}
		panic(goPanic{desc: "reflect: call of Elem on non-pointer", rt: true})
	})
	ef("reflect.Indirect", func(e *Eng, a []Value) Value {
		r, ok := a[0].(*RVal)
		if !ok {
			e.unsupported("zero reflect.Value")
		}
		if x, ok := r.val(e).(Ptr); ok && x != nil {
			return &RVal{t: r.t.Underlying().(*types.Pointer).Elem(), p: x, ro: r.ro}
		}
		return r
	})
	rv("Type", func(e *Eng, r *RVal, a []Value) Value { return mkRType(r.t) })
	rv("Kind", func(e *Eng, r *RVal, a []Value) Value { return e.tt.Const(64, kindOf(r.t)) })
	rv("NumField", func(e *Eng, r *RVal, a []Value) Value {
		return e.tt.Const(64, uint64(r.t.Underlying().(*types.Struct).NumFields()))
	})
	field := func(e *Eng, r *RVal, i int) Value {
		st := r.t.Underlying().(*types.Struct)
		if i < 0 || i >= st.NumFields() {
			panic(goPanic{desc: "reflect: Field index out of range", rt: true})
		}
		if r.p != nil {
			return &RVal{t: st.Field(i).Type(), p: &(*r.p).(*Agg).e[i], ro: r.ro || !st.Field(i).Exported()}
		}
		return &RVal{t: st.Field(i).Type(), v: r.v.(*Agg).e[i], ro: r.ro || !st.Field(i).Exported()}
	}
	rv("Field", func(e *Eng, r *RVal, a []Value) Value { return field(e, r, e.concInt(a[0])) })
	rv("FieldByName", func(e *Eng, r *RVal, a []Value) Value {
		st := r.t.Underlying().(*types.Struct)
		n := e.argStr(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return field(e, r, i)
			}
		}
		e.unsupported("reflect FieldByName of unknown or promoted field")
		return nil
	})
	rv("Set", func(e *Eng, r *RVal, a []Value) Value {
		if r.p == nil {
			panic(goPanic{desc: "reflect: Set using unaddressable value", rt: true})
		}
		if r.ro || a[0].(*RVal).ro {
			panic(goPanic{desc: "reflect: Set using value obtained using unexported field", rt: true})
		}
		e.storeTo(r.p, a[0].(*RVal).val(e))
		return nil
	})
	rv("SetString", func(e *Eng, r *RVal, a []Value) Value {
		if r.p == nil {
			panic(goPanic{desc: "reflect: SetString using unaddressable value", rt: true})
		}
		if r.ro {
			panic(goPanic{desc: "reflect: SetString using value obtained using unexported field", rt: true})
		}
		e.storeTo(r.p, a[0])
		return nil
	})
	rv("Addr", func(e *Eng, r *RVal, a []Value) Value {
		if r.p == nil {
			panic(goPanic{desc: "reflect: Addr of unaddressable value", rt: true})
		}
		return &RVal{t: types.NewPointer(r.t), v: r.p, ro: r.ro}
	})
	rv("CanAddr", func(e *Eng, r *RVal, a []Value) Value { return e.tt.Bool(r.p != nil) })
	rv("CanSet", func(e *Eng, r *RVal, a []Value) Value { return e.tt.Bool(r.p != nil && !r.ro) })
	rv("CanInterface", func(e *Eng, r *RVal, a []Value) Value { return e.tt.Bool(!r.ro) })
	rv("IsValid", func(e *Eng, r *RVal, a []Value) Value { return e.tt.t })
	rv("Interface", func(e *Eng, r *RVal, a []Value) Value {
		if r.ro {
			panic(goPanic{desc: "reflect.Value.Interface: cannot return value obtained from unexported field or method", rt: true})
		}
		v := r.val(e)
		if iv, ok := v.(IfaceV); ok {
			return iv
		}
		return IfaceV{r.t, v}
	})
	rv("String", func(e *Eng, r *RVal, a []Value) Value {
		if s, ok := r.val(e).(*Str); ok {
			return s
		}
		return &Str{c: "<" + typeName(r.t) + " Value>"}
	})
	tagGet := func(e *Eng, a []Value) (string, bool) {
		return reflect.StructTag(e.argStr(a[0])).Lookup(e.argStr(a[1]))
	}
	ef("(reflect.StructTag).Get", func(e *Eng, a []Value) Value {
		s, _ := tagGet(e, a)
		return &Str{c: s}
	})
	ef("(reflect.StructTag).Lookup", func(e *Eng, a []Value) Value {
		s, ok := tagGet(e, a)
		return Tuple{&Str{c: s}, e.tt.Bool(ok)}
	})

	redirTab = map[string]string{
		"fmt.Sprintf": "Sprintf", "fmt.Errorf": "Errorf", "fmt.Sprint": "Sprint", "fmt.Sprintln": "Sprintln",
		"fmt.Println": "Println", "fmt.Printf": "Printf", "fmt.Print": "Print",
		"fmt.Fprintf": "Fprintf", "fmt.Fprintln": "Fprintln", "fmt.Fprint": "Fprint",
		"(*os.File).Write": "FileWrite", "(*os.File).WriteString": "FileWriteString", vpPath + ".Capture": "Capture",
		"strings.IndexRune": "IndexRune", "strings.IndexAny": "IndexAny", "strings.EqualFold": "EqualFold",
		"strings.ContainsRune": "ContainsRune", "strings.ContainsAny": "ContainsAny", "strings.Count": "Count",
		"unicode/utf8.ValidString": "ValidString", "unicode/utf8.RuneCountInString": "RuneCountInString",
		"strings.IndexFunc": "IndexFunc",
		"errors.As":         "ErrorsAs", "errors.Is": "ErrorsIs",
		"internal/bytealg.Compare": "BytesCompare",
		"strings.Fields":           "Fields", "strings.Trim": "Trim", "strings.TrimLeft": "TrimLeft", "strings.TrimRight": "TrimRight", "strings.TrimSpace": "TrimSpace", "strings.NewReplacer": "NewReplacer", "(*strings.Replacer).Replace": "ReplacerReplace",
	}
	for _, n := range []string{"Mutex).Lock", "Mutex).Unlock", "RWMutex).Lock", "RWMutex).Unlock", "RWMutex).RLock", "RWMutex).RUnlock"} {
		redirTab["(*sync."+n] = strings.NewReplacer(").", "").Replace(n)
	}
	for _, op := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap"} {
		for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
			redirTab["sync/atomic."+op+ty] = op + ty
		}
	}
}

var _ = fmt.Sprint
