package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Ptr = *Value

// Str is a Go string: fixed length, bytes concrete (c) or symbolic (b).
type Str struct {
	c  string
	b  []*Term
	op *Opaque // content unknown (formatting of symbolic data)
}

// Opaque is a text of which only some parts are known, in order; an empty known
// part stands for an unknown stretch.
type Opaque struct {
	why   string
	parts []string
}

func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.c)
}

// Agg is a struct or array; in memory it is mutable and addressable per element.
type Agg struct{ e []Value }

type SliceV struct {
	arr           *Agg
	off, len, cap int
}

type IfaceV struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn     *ssa.Function
	free   []Value
	native func(e *Eng, args []Value) Value
	name   string
}

type MapV struct {
	keys []Value
	vals []*Value
}

type Tuple []Value

type StrIter struct {
	s    *Str
	pos  Value // int concrete or pending *Term: next = base + size term
	base int
}

type MapIter struct {
	m *MapV
	i int
}

type Frame struct {
	fi        *FuncInfo
	regs      []Value
	block     *BlockInfo
	prev      int // predecessor block index
	pc        int
	parent    *Frame
	gen       int
	dst       int // register in parent for result (-1 none)
	base      bool
	defers    *deferRec
	deferOf   bool // this frame is a deferred call running for parent
	panicking *panicInfo
	recovered bool
	noMerge   bool // next call at this pc must not be summarised
	depth     int
	state     int
	onRet     func(Value)
}

type deferRec struct {
	fn   Value // callable
	args []Value
	next *deferRec
}

type panicInfo struct {
	val  Value
	desc string
}

func (f *Frame) clone(gen int) *Frame {
	n := *f
	n.regs = make([]Value, len(f.regs))
	copy(n.regs, f.regs)
	n.gen = gen
	if f.panicking != nil {
		p := *f.panicking
		n.panicking = &p
	}
	return &n
}

// ------------------------------------------------------------ function info

type opnd struct {
	slot int // >=0 register; -1 constant/global/function
	val  Value
	ssa  ssa.Value
}

type cinstr struct {
	in  ssa.Instruction
	ops []opnd
	dst int
}

type BlockInfo struct {
	b     *ssa.BasicBlock
	ins   []cinstr
	nphi  int
	regio *region
	regOK int // 0 unknown, 1 has region, 2 none
}

type FuncInfo struct {
	fn     *ssa.Function
	nregs  int
	slots  map[ssa.Value]int
	blocks []*BlockInfo
	params []int
	free   []int
	pure   int // 0 unknown 1 pure 2 impure
	summ   int
	intr   intrFn
	intrSt int
	redir  *ssa.Function
}

func (e *Eng) info(fn *ssa.Function) *FuncInfo {
	if fi, ok := e.finfo[fn]; ok {
		return fi
	}
	e.ensureBuilt(fn)
	fi := &FuncInfo{fn: fn, slots: map[ssa.Value]int{}}
	slot := func(v ssa.Value) int {
		if s, ok := fi.slots[v]; ok {
			return s
		}
		s := fi.nregs
		fi.nregs++
		fi.slots[v] = s
		return s
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, slot(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, slot(p))
	}
	for _, b := range fn.Blocks {
		bi := &BlockInfo{b: b}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slot(v)
			}
			var rands [12]*ssa.Value
			for _, op := range in.Operands(rands[:0]) {
				if op == nil || *op == nil {
					ci.ops = append(ci.ops, opnd{slot: -1})
					continue
				}
				switch x := (*op).(type) {
				case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
					ci.ops = append(ci.ops, opnd{slot: -1, ssa: x})
				default:
					ci.ops = append(ci.ops, opnd{slot: slot(x), ssa: x})
				}
			}
			if _, ok := in.(*ssa.Phi); ok {
				bi.nphi++
			}
			bi.ins = append(bi.ins, ci)
		}
		fi.blocks = append(fi.blocks, bi)
	}
	e.finfo[fn] = fi
	return fi
}

// ------------------------------------------------------------ types helpers

type kind uint8

const (
	kBool kind = iota
	kInt
	kUint
	kFloat
	kComplex
	kString
	kPtr
	kStruct
	kArray
	kSlice
	kIface
	kFunc
	kMap
	kChan
	kTuple
	kUnsafe
	kOther
)

type tinfo struct {
	k kind
	w uint8
}

func (e *Eng) ti(t types.Type) tinfo {
	if x, ok := e.tinfo[t]; ok {
		return x
	}
	x := computeTI(t)
	e.tinfo[t] = x
	return x
}

func computeTI(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{kBool, 0}
		case types.Int8:
			return tinfo{kInt, 8}
		case types.Int16:
			return tinfo{kInt, 16}
		case types.Int32, types.UntypedRune:
			return tinfo{kInt, 32}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{kInt, 64}
		case types.Uint8:
			return tinfo{kUint, 8}
		case types.Uint16:
			return tinfo{kUint, 16}
		case types.Uint32:
			return tinfo{kUint, 32}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{kUint, 64}
		case types.Float32:
			return tinfo{kFloat, 32}
		case types.Float64, types.UntypedFloat:
			return tinfo{kFloat, 64}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return tinfo{kComplex, 0}
		case types.String, types.UntypedString:
			return tinfo{kString, 0}
		case types.UnsafePointer:
			return tinfo{kUnsafe, 0}
		}
	case *types.Pointer:
		return tinfo{kPtr, 0}
	case *types.Struct:
		return tinfo{kStruct, 0}
	case *types.Array:
		return tinfo{kArray, 0}
	case *types.Slice:
		return tinfo{kSlice, 0}
	case *types.Interface:
		return tinfo{kIface, 0}
	case *types.Signature:
		return tinfo{kFunc, 0}
	case *types.Map:
		return tinfo{kMap, 0}
	case *types.Chan:
		return tinfo{kChan, 0}
	case *types.Tuple:
		return tinfo{kTuple, 0}
	}
	return tinfo{kOther, 0}
}

var emptyStr = &Str{}

func (e *Eng) zero(t types.Type) Value {
	ti := e.ti(t)
	switch ti.k {
	case kBool:
		return e.tt.f
	case kInt, kUint:
		return e.tt.Const(ti.w, 0)
	case kFloat:
		return float64(0)
	case kComplex:
		return complex128(0)
	case kString:
		return emptyStr
	case kPtr, kUnsafe:
		return Ptr(nil)
	case kStruct:
		st := t.Underlying().(*types.Struct)
		a := &Agg{make([]Value, st.NumFields())}
		for i := range a.e {
			a.e[i] = e.zero(st.Field(i).Type())
		}
		return a
	case kArray:
		at := t.Underlying().(*types.Array)
		a := &Agg{make([]Value, at.Len())}
		if len(a.e) > 0 {
			z := e.zero(at.Elem())
			_, agg := z.(*Agg)
			for i := range a.e {
				if agg {
					a.e[i] = copyVal(z)
				} else {
					a.e[i] = z
				}
			}
		}
		return a
	case kSlice:
		return SliceV{}
	case kIface:
		return IfaceV{}
	case kFunc:
		return (*FuncV)(nil)
	case kMap:
		return (*MapV)(nil)
	case kTuple:
		tt := t.(*types.Tuple)
		r := make(Tuple, tt.Len())
		for i := range r {
			r[i] = e.zero(tt.At(i).Type())
		}
		return r
	}
	e.unsupported("zero value of " + t.String())
	return nil
}

func copyVal(v Value) Value {
	if a, ok := v.(*Agg); ok {
		n := &Agg{make([]Value, len(a.e))}
		for i, x := range a.e {
			if _, ok := x.(*Agg); ok {
				n.e[i] = copyVal(x)
			} else {
				n.e[i] = x
			}
		}
		return n
	}
	return v
}

func (e *Eng) concStr(s string) *Str { return &Str{c: s} }

func (e *Eng) strBytes(s *Str) []*Term {
	if s.op != nil {
		e.unsupported("inspection of an opaque formatted string (" + s.op.why + ")")
	}
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.c))
	for i := 0; i < len(s.c); i++ {
		r[i] = e.tt.Const(8, uint64(s.c[i]))
	}
	return r
}

func (e *Eng) strAt(s *Str, i int) *Term {
	if s.op != nil {
		e.unsupported("inspection of an opaque formatted string (" + s.op.why + ")")
	}
	if s.b != nil {
		return s.b[i]
	}
	return e.tt.Const(8, uint64(s.c[i]))
}

func (e *Eng) strSlice(s *Str, lo, hi int) *Str {
	if s.op != nil {
		e.unsupported("inspection of an opaque formatted string")
	}
	if s.b != nil {
		return normStr(s.b[lo:hi])
	}
	return &Str{c: s.c[lo:hi]}
}

// normStr turns an all-constant byte list into a concrete string.
func normStr(b []*Term) *Str {
	for _, t := range b {
		if t.Op != OConst {
			return &Str{b: b}
		}
	}
	c := make([]byte, len(b))
	for i, t := range b {
		c[i] = byte(t.cv)
	}
	return &Str{c: string(c)}
}

func (s *Str) conc() (string, bool) {
	if s.op != nil || s.b != nil {
		return "", false
	}
	return s.c, true
}

func opaqueParts(s *Str) []string {
	if s.op != nil {
		return s.op.parts
	}
	if s.b != nil {
		return []string{""}
	}
	if s.c == "" {
		return nil
	}
	return []string{s.c}
}

func (e *Eng) strConcat(a, b *Str) *Str {
	if a.op != nil || b.op != nil {
		pa, pb := opaqueParts(a), opaqueParts(b)
		r := append([]string{}, pa...)
		if len(r) > 0 && len(pb) > 0 && r[len(r)-1] != "" && pb[0] != "" {
			r[len(r)-1] += pb[0]
			pb = pb[1:]
		}
		why := ""
		if a.op != nil {
			why = a.op.why
		} else {
			why = b.op.why
		}
		return &Str{op: &Opaque{why, append(r, pb...)}}
	}
	if a.b == nil && b.b == nil {
		return &Str{c: a.c + b.c}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	r := make([]*Term, 0, a.Len()+b.Len())
	r = append(r, e.strBytes(a)...)
	r = append(r, e.strBytes(b)...)
	return &Str{b: r}
}

func (e *Eng) strEq(a, b *Str) *Term {
	if a.op != nil || b.op != nil {
		if a == b {
			return e.tt.t
		}
		e.unsupported("comparison of an opaque formatted string")
	}
	if a.b == nil && b.b == nil {
		return e.tt.Bool(a.c == b.c)
	}
	if a.Len() != b.Len() {
		return e.tt.f
	}
	x, y := e.strBytes(a), e.strBytes(b)
	r := e.tt.t
	for i := range x {
		r = e.tt.And(r, e.tt.Eq(x[i], y[i]))
		if r.IsFalse() {
			break
		}
	}
	return r
}

// strLess builds a < b (lexicographic).
func (e *Eng) strLess(a, b *Str) *Term {
	if a.b == nil && b.b == nil && a.op == nil && b.op == nil {
		return e.tt.Bool(a.c < b.c)
	}
	x, y := e.strBytes(a), e.strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := e.tt.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = e.tt.Ite(e.tt.Eq(x[i], y[i]), r, e.tt.cmp(OUlt, x[i], y[i]))
	}
	return r
}

// valEq builds the == comparison of two values of identical static type.
func (e *Eng) valEq(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return e.tt.Eq(x, b.(*Term))
	case float64:
		return e.tt.Bool(x == b.(float64))
	case *Str:
		return e.strEq(x, b.(*Str))
	case Ptr:
		y, _ := b.(Ptr)
		return e.tt.Bool(x == y)
	case *Agg:
		y := b.(*Agg)
		r := e.tt.t
		for i := range x.e {
			r = e.tt.And(r, e.valEq(x.e[i], y.e[i]))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case IfaceV:
		y := b.(IfaceV)
		if x.t == nil || y.t == nil {
			return e.tt.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return e.tt.f
		}
		switch x.v.(type) {
		case SliceV, *MapV, *FuncV:
			e.goPanicRuntime("comparing uncomparable type " + x.t.String())
		}
		return e.valEq(x.v, y.v)
	case *FuncV:
		y, _ := b.(*FuncV)
		if x != nil && y != nil {
			e.unsupported("func comparison")
		}
		return e.tt.Bool(x == nil && y == nil)
	case *MapV:
		y, _ := b.(*MapV)
		return e.tt.Bool(x == y)
	case SliceV:
		y, _ := b.(SliceV)
		return e.tt.Bool(x.arr == nil && y.arr == nil)
	case *RType:
		y, ok := b.(*RType)
		return e.tt.Bool(ok && types.Identical(x.t, y.t))
	case nil:
		return e.tt.Bool(b == nil)
	}
	if a == b {
		return e.tt.t
	}
	e.unsupported(fmt.Sprintf("comparison of %T", a))
	return nil
}

// scalarMerge builds ite(c, a, b) when the two values can be merged.
func (e *Eng) mergeVal(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.W != y.W {
			return nil, false
		}
		return e.tt.Ite(c, x, y), true
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.op != nil || y.op != nil || x.Len() != y.Len() {
			return nil, false
		}
		if x.b == nil && y.b == nil && x.c == y.c {
			return x, true
		}
		p, q := e.strBytes(x), e.strBytes(y)
		r := make([]*Term, len(p))
		for i := range p {
			r[i] = e.tt.Ite(c, p[i], q[i])
		}
		return normStr(r), true
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.e) != len(y.e) {
			return nil, false
		}
		r := &Agg{make([]Value, len(x.e))}
		for i := range x.e {
			m, ok := e.mergeVal(c, x.e[i], y.e[i])
			if !ok {
				return nil, false
			}
			r.e[i] = m
		}
		return r, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range x {
			m, ok := e.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = m
		}
		return r, true
	case Ptr:
		y, ok := b.(Ptr)
		return x, ok && x == y
	case SliceV:
		y, ok := b.(SliceV)
		return x, ok && x == y
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return nil, false
		}
		if x.t == nil && y.t == nil {
			return x, true
		}
		if x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return nil, false
		}
		m, ok := e.mergeVal(c, x.v, y.v)
		if !ok {
			return nil, false
		}
		return IfaceV{x.t, m}, true
	case *FuncV:
		y, ok := b.(*FuncV)
		return x, ok && x == y
	case *MapV:
		y, ok := b.(*MapV)
		return x, ok && x == y
	case float64:
		y, ok := b.(float64)
		return x, ok && x == y
	case nil:
		return nil, b == nil
	}
	return nil, false
}

// symbolic reports whether v contains a non-constant term.
func symbolic(v Value) bool {
	switch x := v.(type) {
	case *Term:
		return x.Op != OConst
	case *Str:
		return x.b != nil || x.op != nil
	case *Agg:
		for _, y := range x.e {
			if symbolic(y) {
				return true
			}
		}
	case IfaceV:
		return symbolic(x.v)
	case Tuple:
		for _, y := range x {
			if symbolic(y) {
				return true
			}
		}
	}
	return false
}
