package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type methKey struct {
	t types.Type
	m *types.Func
}

func (e *Eng) ensureBuilt(fn *ssa.Function) {
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
}

// ---------------------------------------------------------------- operands

func (e *Eng) opv(f *Frame, o *opnd) Value {
	if o.slot >= 0 {
		return f.regs[o.slot]
	}
	if o.val != nil {
		return o.val
	}
	switch x := o.ssa.(type) {
	case nil:
		return nil
	case *ssa.Const:
		o.val = e.constVal(x)
		return o.val
	case *ssa.Global:
		return e.global(x)
	case *ssa.Function:
		o.val = &FuncV{fn: x}
		return o.val
	case *ssa.Builtin:
		o.val = &FuncV{name: x.Name()}
		return o.val
	}
	e.unsupported(fmt.Sprintf("operand %T", o.ssa))
	return nil
}

func (e *Eng) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		e.unsupported("interface constant")
	}
	ti := e.ti(t)
	switch ti.k {
	case kBool:
		return e.tt.Bool(constant.BoolVal(c.Value))
	case kInt:
		return e.tt.Const(ti.w, uint64(c.Int64()))
	case kUint:
		return e.tt.Const(ti.w, c.Uint64())
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return f
	case kString:
		if c.Value.Kind() == constant.String {
			return &Str{c: constant.StringVal(c.Value)}
		}
		return &Str{c: string(rune(c.Int64()))}
	case kComplex:
		return complex128(0)
	}
	e.unsupported("constant of type " + t.String())
	return nil
}

func (e *Eng) global(g *ssa.Global) Value {
	if p, ok := e.globals[g]; ok {
		return Ptr(p)
	}
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr") {
		// two different files; what is written to the first one is captured, see the model
		f := new(Value)
		*f = e.zero(g.Type().(*types.Pointer).Elem().(*types.Pointer).Elem())
		v := new(Value)
		*v = Ptr(f)
		e.globals[g] = v
		return Ptr(v)
	}
	if g.Pkg != nil && !e.inited[g.Pkg] {
		e.initPkg(g.Pkg)
		if p, ok := e.globals[g]; ok {
			return Ptr(p)
		}
	}
	v := new(Value)
	*v = e.zero(g.Type().(*types.Pointer).Elem())
	e.globals[g] = v
	return Ptr(v)
}

func (e *Eng) runInits() {
	for _, path := range []string{modPath, modPath + "/grammar", modelPath, propsPath} {
		if p := e.L.byPath[path]; p != nil && !e.inited[p] {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if pa, ok := r.(pathAbort); ok {
							e.initErr = append(e.initErr, path+": "+pa.why)
							return
						}
						panic(r)
					}
				}()
				e.initPkg(p)
			}()
		}
	}
}

// initPkg runs the package initialiser outside of any path. The initialisers of
// imported packages run on demand, when one of their variables is first used.
func (e *Eng) initPkg(p *ssa.Package) {
	if noInit[p.Pkg.Path()] {
		e.unsupported("variable of package " + p.Pkg.Path())
	}
	e.inited[p] = true
	fn := p.Func("init")
	if fn == nil {
		return
	}
	p.Build()
	saved := *e.saveRun()
	e.trail = nil
	e.choices = nil
	e.top = nil
	e.nest = 0
	e.inInit++
	e.gen++
	e.steps = 0
	e.pushFrame(fn, nil, nil, -1)
	e.top.base = true
	out := e.execUntilEnd()
	e.inInit--
	forked := len(e.choices) > 0
	e.loadRun(&saved)
	e.gen++
	if out.k != abEnd || forked {
		e.unsupported("initialiser of " + p.Pkg.Path() + ": " + out.why)
	}
}

var noInit = map[string]bool{"runtime": true, "os": true, "reflect": true, "syscall": true, "internal/poll": true, "time": true, "fmt": true, "internal/cpu": true}

type runState struct {
	trail      []undo
	choices    []*choice
	top        *Frame
	nest       int
	instrTrail int
	steps      int64
	retVal     Value
	cur        ssa.Instruction
}

func (e *Eng) saveRun() *runState {
	return &runState{e.trail, e.choices, e.top, e.nest, e.instrTrail, e.steps, e.retVal, e.curInstr}
}

func (e *Eng) loadRun(r *runState) {
	e.trail, e.choices, e.top, e.nest, e.instrTrail, e.steps, e.retVal, e.curInstr = r.trail, r.choices, r.top, r.nest, r.instrTrail, r.steps, r.retVal, r.cur
}

// ---------------------------------------------------------------- frames

func (e *Eng) pushFrame(fn *ssa.Function, args, free []Value, dst int) {
	fi := e.info(fn)
	if len(fi.blocks) == 0 {
		e.unsupported("function without body " + fn.String())
	}
	e.funcs[fn]++
	f := &Frame{fi: fi, regs: make([]Value, fi.nregs), block: fi.blocks[0], prev: -1, parent: e.top, gen: e.gen, dst: dst}
	if e.top != nil {
		f.depth = e.top.depth + 1
		if f.depth > e.MaxDepth {
			panic(pathAbort{k: abDepth, why: fmt.Sprintf("recursion deeper than %d", e.MaxDepth)})
		}
	}
	for i, s := range fi.params {
		f.regs[s] = args[i]
	}
	for i, s := range fi.free {
		f.regs[s] = free[i]
	}
	e.top = f
}

func (e *Eng) adv() { e.wtop().pc++ }

func (e *Eng) setAdv(dst int, v Value) {
	f := e.wtop()
	if dst >= 0 {
		f.regs[dst] = v
	}
	f.pc++
}

func (e *Eng) jump(from, to *ssa.BasicBlock) {
	f := e.wtop()
	nb := f.fi.blocks[to.Index]
	if nb.nphi > 0 {
		k := -1
		for i, p := range to.Preds {
			if p == from {
				k = i
				break
			}
		}
		var tmp [8]Value
		vals := tmp[:0]
		for i := 0; i < nb.nphi; i++ {
			vals = append(vals, e.opv(f, &nb.ins[i].ops[k]))
		}
		for i := 0; i < nb.nphi; i++ {
			f.regs[nb.ins[i].dst] = vals[i]
		}
	}
	f.prev = from.Index
	f.block = nb
	f.pc = nb.nphi
}

// ret ends the top frame with result v.
func (e *Eng) ret(v Value) bool {
	f := e.top
	if f.base {
		e.retVal = v
		e.top = f
		return true
	}
	e.top = f.parent
	if f.deferOf {
		// a deferred call finished: RunDefers (or panicking) continues in the parent
		return false
	}
	if f.onRet != nil {
		f.onRet(v)
		return false
	}
	if f.dst >= 0 {
		e.set(f.dst, v)
	}
	return false
}

// ---------------------------------------------------------------- panics

func (e *Eng) goPanicRuntime(desc string) {
	panic(goPanic{desc: "runtime error: " + desc, rt: true})
}

type goPanic struct {
	desc string
	val  Value
	rt   bool
}

// startPanic begins unwinding of the interpreted program.
func (e *Eng) startPanic(gp goPanic) {
	val := gp.val
	if gp.rt {
		val = IfaceV{t: runtimeErrT, v: &Str{c: gp.desc}}
	}
	loc := ""
	if e.curInstr != nil && e.curInstr.Parent() != nil {
		loc = " in " + e.curInstr.Parent().String()
	}
	f := e.wtop()
	f.panicking = &panicInfo{val: val, desc: gp.desc + loc}
	e.unwind()
}

var runtimeErrT types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "runtime.Error", nil), types.Typ[types.String], nil)

// unwind continues panicking in the top frame: run its next deferred call or leave it.
func (e *Eng) unwind() {
	for {
		f := e.wtop()
		if f.panicking == nil {
			return
		}
		if f.defers != nil {
			d := f.defers
			f.defers = d.next
			f.state = stUnwind
			e.callDeferred(d)
			return
		}
		if f.base {
			panic(pathAbort{k: abPanic, why: f.panicking.desc})
		}
		pi := f.panicking
		if f.deferOf {
			// panic inside a deferred call replaces the earlier one
			e.top = f.parent
			g := e.wtop()
			g.panicking = pi
			g.recovered = false
			continue
		}
		e.top = f.parent
		g := e.wtop()
		g.panicking = pi
	}
}

func (e *Eng) callDeferred(d *deferRec) {
	fv := d.fn.(*FuncV)
	if fv == nil {
		e.unsupported("nil deferred function")
	}
	if fv.native != nil || fv.name != "" || e.hasIntrinsic(fv.fn) {
		e.unsupported("deferred intrinsic")
	}
	fn := fv.fn
	if r := e.redirect(fn); r != nil {
		fn = r
	}
	e.pushFrame(fn, d.args, fv.free, -1)
	e.top.deferOf = true
}

const (
	stNormal = iota
	stRunDefers
	stUnwind
)

// ---------------------------------------------------------------- main loop

func (e *Eng) run() {
	for {
		if e.step() {
			return
		}
	}
}

func (e *Eng) step() (done bool) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				e.startPanic(gp)
				done = false
				return
			}
			panic(r)
		}
	}()
	for {
		f := e.top
		if f.state != stNormal {
			e.resume(f)
			continue
		}
		ci := &f.block.ins[f.pc]
		e.instrTrail = len(e.trail)
		e.steps++
		e.st.Instrs++
		if e.steps > e.MaxSteps {
			panic(pathAbort{k: abSteps, why: fmt.Sprintf("more than %d steps", e.MaxSteps)})
		}
		e.curInstr = ci.in
		if e.exec(f, ci) {
			return true
		}
	}
}

// resume continues a frame after one of its deferred calls returned.
func (e *Eng) resume(f *Frame) {
	w := e.wtop()
	switch w.state {
	case stRunDefers:
		if w.defers != nil {
			d := w.defers
			w.defers = d.next
			e.callDeferred(d)
			return
		}
		w.state = stNormal
		w.pc++
	case stUnwind:
		if w.recovered {
			w.panicking = nil
			w.recovered = false
			// run the remaining deferred calls, then return through the Recover block
			if w.defers != nil {
				d := w.defers
				w.defers = d.next
				w.recovered = true
				w.panicking = nil
				e.callDeferred(d)
				return
			}
			w.state = stNormal
			if w.fi.fn.Recover != nil {
				w.block = w.fi.blocks[w.fi.fn.Recover.Index]
				w.pc = 0
				w.prev = -1
				return
			}
			res := w.fi.fn.Signature.Results()
			var v Value
			switch res.Len() {
			case 0:
			case 1:
				v = e.zero(res.At(0).Type())
			default:
				v = e.zero(res)
			}
			if e.ret(v) {
				e.unsupported("recover in base frame")
			}
			return
		}
		w.state = stNormal
		e.unwind()
	}
}

func (e *Eng) exec(f *Frame, ci *cinstr) bool {
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		p := new(Value)
		*p = e.zero(in.Type().(*types.Pointer).Elem())
		e.setAdv(ci.dst, Ptr(p))
	case *ssa.BinOp:
		x, y := e.opv(f, &ci.ops[0]), e.opv(f, &ci.ops[1])
		e.setAdv(ci.dst, e.binop(in.Op, in.X.Type(), in.Y.Type(), x, y))
	case *ssa.UnOp:
		e.setAdv(ci.dst, e.unop(in, e.opv(f, &ci.ops[0])))
	case *ssa.Call:
		return e.call(f, ci, in)
	case *ssa.ChangeInterface:
		e.setAdv(ci.dst, e.opv(f, &ci.ops[0]))
	case *ssa.ChangeType:
		e.setAdv(ci.dst, e.opv(f, &ci.ops[0]))
	case *ssa.Convert:
		e.setAdv(ci.dst, e.convert(in.X.Type(), in.Type(), e.opv(f, &ci.ops[0])))
	case *ssa.MultiConvert:
		e.setAdv(ci.dst, e.convert(in.X.Type(), in.Type(), e.opv(f, &ci.ops[0])))
	case *ssa.SliceToArrayPointer:
		e.unsupported("slice to array pointer")
	case *ssa.Extract:
		t := e.opv(f, &ci.ops[0]).(Tuple)
		e.setAdv(ci.dst, t[in.Index])
	case *ssa.Field:
		a, ok := e.opv(f, &ci.ops[0]).(*Agg)
		if !ok {
			e.unsupported("field of opaque struct")
		}
		e.setAdv(ci.dst, a.e[in.Field])
	case *ssa.FieldAddr:
		p := e.deref(e.opv(f, &ci.ops[0]))
		a, ok := (*p).(*Agg)
		if !ok {
			e.unsupported("field address of opaque struct")
		}
		e.setAdv(ci.dst, Ptr(&a.e[in.Field]))
	case *ssa.If:
		c := e.opv(f, &ci.ops[0]).(*Term)
		b := f.block.b
		if !c.IsConst() {
			if e.tryRegion(f, c) {
				return false
			}
		}
		if e.branch(c) {
			e.jump(b, b.Succs[0])
		} else {
			e.jump(b, b.Succs[1])
		}
	case *ssa.Jump:
		e.jump(f.block.b, f.block.b.Succs[0])
	case *ssa.Index:
		e.setAdv(ci.dst, e.index(in, e.opv(f, &ci.ops[0]), e.opv(f, &ci.ops[1])))
	case *ssa.IndexAddr:
		e.setAdv(ci.dst, e.indexAddr(e.opv(f, &ci.ops[0]), e.opv(f, &ci.ops[1])))
	case *ssa.Lookup:
		e.setAdv(ci.dst, e.lookup(in, e.opv(f, &ci.ops[0]), e.opv(f, &ci.ops[1])))
	case *ssa.MakeClosure:
		fv := &FuncV{fn: in.Fn.(*ssa.Function)}
		for i := range in.Bindings {
			fv.free = append(fv.free, e.opv(f, &ci.ops[1+i]))
		}
		e.setAdv(ci.dst, fv)
	case *ssa.MakeInterface:
		e.setAdv(ci.dst, IfaceV{in.X.Type(), e.opv(f, &ci.ops[0])})
	case *ssa.MakeMap:
		e.setAdv(ci.dst, &MapV{})
	case *ssa.MakeSlice:
		n := e.concInt(e.toInt64(e.opv(f, &ci.ops[0]), in.Len.Type()))
		c := e.concInt(e.toInt64(e.opv(f, &ci.ops[1]), in.Cap.Type()))
		if n < 0 || n > 1<<24 {
			e.goPanicRuntime("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			e.goPanicRuntime("makeslice: cap out of range")
		}
		e.setAdv(ci.dst, e.makeSlice(in.Type().Underlying().(*types.Slice).Elem(), n, c))
	case *ssa.MapUpdate:
		m := e.opv(f, &ci.ops[0]).(*MapV)
		if m == nil {
			panic(goPanic{desc: "assignment to entry in nil map", rt: true})
		}
		e.mapSet(m, e.opv(f, &ci.ops[1]), e.opv(f, &ci.ops[2]))
		e.adv()
	case *ssa.Next:
		e.next(f, ci, in)
	case *ssa.Range:
		switch x := e.opv(f, &ci.ops[0]).(type) {
		case *Str:
			it := new(Value)
			*it = StrIter{s: x}
			e.setAdv(ci.dst, Ptr(it))
		case *MapV:
			it := new(Value)
			*it = MapIter{m: x}
			e.setAdv(ci.dst, Ptr(it))
		default:
			e.unsupported("range")
		}
	case *ssa.Panic:
		v := e.opv(f, &ci.ops[0]).(IfaceV)
		panic(goPanic{desc: "panic: " + e.describe(v), val: v})
	case *ssa.Return:
		switch len(ci.ops) {
		case 0:
			return e.ret(nil)
		case 1:
			return e.ret(e.opv(f, &ci.ops[0]))
		default:
			t := make(Tuple, len(ci.ops))
			for i := range ci.ops {
				t[i] = e.opv(f, &ci.ops[i])
			}
			return e.ret(t)
		}
	case *ssa.RunDefers:
		w := e.wtop()
		if w.defers == nil {
			w.pc++
			return false
		}
		w.state = stRunDefers
	case *ssa.Defer:
		fv, args := e.callee(f, ci, in.Common())
		w := e.wtop()
		w.defers = &deferRec{fn: fv, args: args, next: w.defers}
		w.pc++
	case *ssa.Slice:
		e.setAdv(ci.dst, e.slice(f, ci, in))
	case *ssa.Store:
		e.storeTo(e.deref(e.opv(f, &ci.ops[0])), e.opv(f, &ci.ops[1]))
		e.adv()
	case *ssa.TypeAssert:
		e.typeAssert(f, ci, in)
	case *ssa.Phi:
		e.unsupported("phi executed")
	default:
		e.unsupported(fmt.Sprintf("instruction %T", in))
	}
	return false
}

func (e *Eng) describe(v IfaceV) string {
	switch x := v.v.(type) {
	case *Str:
		if x.op == nil && x.b == nil {
			return x.c
		}
	case *Term:
		if x.IsConst() {
			return fmt.Sprint(x.Int())
		}
	}
	if v.t == nil {
		return "nil"
	}
	return "value of type " + v.t.String()
}

func (e *Eng) deref(v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok {
		e.unsupported(fmt.Sprintf("dereference of %T", v))
	}
	if p == nil {
		e.goPanicRuntime("invalid memory address or nil pointer dereference")
	}
	return p
}

// storeTo assigns v to the variable p; aggregates are copied element by element
// because pointers to their parts may exist.
func (e *Eng) storeTo(p Ptr, v Value) {
	if a, ok := v.(*Agg); ok {
		if d, ok := (*p).(*Agg); ok && len(d.e) == len(a.e) {
			if d == a {
				return
			}
			for i := range a.e {
				e.storeTo(&d.e[i], a.e[i])
			}
			return
		}
		e.store(p, copyVal(a))
		return
	}
	e.store(p, v)
}

func (e *Eng) load(p Ptr) Value { return copyVal(*p) }

func (e *Eng) makeSlice(elem types.Type, n, c int) SliceV {
	a := &Agg{make([]Value, c)}
	if c > 0 {
		z := e.zero(elem)
		_, agg := z.(*Agg)
		for i := range a.e {
			if agg {
				a.e[i] = copyVal(z)
			} else {
				a.e[i] = z
			}
		}
	}
	return SliceV{arr: a, len: n, cap: c}
}

// ---------------------------------------------------------------- arithmetic

func (e *Eng) toInt64(v Value, t types.Type) *Term {
	x := v.(*Term)
	ti := e.ti(t)
	if x.W == 64 {
		return x
	}
	if ti.k == kInt {
		return e.tt.Sext(x, 64)
	}
	return e.tt.Zext(x, 64)
}

func (e *Eng) binop(op token.Token, t, ty types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return e.valEq(x, y)
	case token.NEQ:
		return e.tt.Not(e.valEq(x, y))
	}
	ti := e.ti(t)
	switch ti.k {
	case kString:
		a, b := x.(*Str), y.(*Str)
		switch op {
		case token.ADD:
			return e.strConcat(a, b)
		case token.LSS:
			return e.strLess(a, b)
		case token.GTR:
			return e.strLess(b, a)
		case token.LEQ:
			return e.tt.Not(e.strLess(b, a))
		case token.GEQ:
			return e.tt.Not(e.strLess(a, b))
		}
	case kFloat:
		a, ok1 := x.(float64)
		b, ok2 := y.(float64)
		if !ok1 || !ok2 {
			e.unsupported("symbolic floating point")
		}
		var r float64
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return e.tt.Bool(a < b)
		case token.LEQ:
			return e.tt.Bool(a <= b)
		case token.GTR:
			return e.tt.Bool(a > b)
		case token.GEQ:
			return e.tt.Bool(a >= b)
		}
		if ti.w == 32 {
			r = float64(float32(r))
		}
		return r
	case kBool:
		a, b := x.(*Term), y.(*Term)
		switch op {
		case token.AND, token.LAND:
			return e.tt.And(a, b)
		case token.OR, token.LOR:
			return e.tt.Or(a, b)
		}
	case kInt, kUint:
		a := e.collapse(x.(*Term))
		b := e.collapse(y.(*Term))
		signed := ti.k == kInt
		switch op {
		case token.ADD:
			return e.tt.Bin(OAdd, a, b)
		case token.SUB:
			return e.tt.Bin(OSub, a, b)
		case token.MUL:
			return e.tt.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if e.branch(e.tt.Eq(b, e.tt.Const(b.W, 0))) {
				e.goPanicRuntime("integer divide by zero")
			}
			o := OUDiv
			if op == token.QUO && signed {
				o = OSDiv
			} else if op == token.REM && signed {
				o = OSRem
			} else if op == token.REM {
				o = OURem
			}
			return e.tt.Bin(o, a, b)
		case token.AND:
			return e.tt.Bin(OBAnd, a, b)
		case token.OR:
			return e.tt.Bin(OBOr, a, b)
		case token.XOR:
			return e.tt.Bin(OBXor, a, b)
		case token.AND_NOT:
			return e.tt.Bin(OBAnd, a, e.tt.BNot(b))
		case token.SHL, token.SHR:
			tyi := e.ti(ty)
			if tyi.k == kInt {
				if e.branch(e.tt.cmp(OSlt, b, e.tt.Const(b.W, 0))) {
					e.goPanicRuntime("negative shift amount")
				}
			}
			o := OShl
			if op == token.SHR {
				o = OLshr
				if signed {
					o = OAshr
				}
			}
			// bring the amount to the width of the operand, saturating
			var amt *Term
			if b.W <= a.W {
				amt = e.tt.Zext(b, a.W)
			} else {
				big := e.tt.cmp(OUle, e.tt.Const(b.W, uint64(a.W)), b)
				amt = e.tt.Ite(big, e.tt.Const(a.W, uint64(a.W)), e.tt.Trunc(b, a.W))
			}
			return e.tt.Bin(o, a, amt)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			lt, le := OUlt, OUle
			if signed {
				lt, le = OSlt, OSle
			}
			switch op {
			case token.LSS:
				return e.tt.cmp(lt, a, b)
			case token.LEQ:
				return e.tt.cmp(le, a, b)
			case token.GTR:
				return e.tt.cmp(lt, b, a)
			default:
				return e.tt.cmp(le, b, a)
			}
		}
	}
	e.unsupported(fmt.Sprintf("operator %s on %s", op, t))
	return nil
}

func (e *Eng) unop(in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.MUL:
		return e.load(e.deref(x))
	case token.NOT:
		return e.tt.Not(x.(*Term))
	case token.SUB:
		if f, ok := x.(float64); ok {
			return -f
		}
		return e.tt.Neg(x.(*Term))
	case token.XOR:
		return e.tt.BNot(x.(*Term))
	}
	e.unsupported("unary " + in.Op.String())
	return nil
}

func (e *Eng) convert(from, to types.Type, x Value) Value {
	tf, tt := e.ti(from), e.ti(to)
	switch {
	case (tf.k == kInt || tf.k == kUint) && (tt.k == kInt || tt.k == kUint):
		t := e.collapse(x.(*Term))
		if t.W == tt.w {
			return t
		}
		if t.W > tt.w {
			return e.tt.Trunc(t, tt.w)
		}
		if tf.k == kInt {
			return e.tt.Sext(t, tt.w)
		}
		return e.tt.Zext(t, tt.w)
	case (tf.k == kInt || tf.k == kUint) && tt.k == kFloat:
		t := x.(*Term)
		if !t.IsConst() {
			e.unsupported("symbolic int to float")
		}
		if tf.k == kInt {
			return float64(t.Int())
		}
		return float64(t.cv)
	case tf.k == kFloat && (tt.k == kInt || tt.k == kUint):
		f := x.(float64)
		if tt.k == kInt {
			return e.tt.Const(tt.w, uint64(int64(f)))
		}
		return e.tt.Const(tt.w, uint64(f))
	case tf.k == kFloat && tt.k == kFloat:
		f := x.(float64)
		if tt.w == 32 {
			return float64(float32(f))
		}
		return f
	case tf.k == kString && tt.k == kString:
		return x
	case (tf.k == kInt || tf.k == kUint) && tt.k == kString:
		t := x.(*Term)
		var r *Term
		if t.W > 32 {
			big := e.tt.cmp(OUle, e.tt.Const(t.W, 0x110000), t)
			r = e.tt.Ite(big, e.tt.Const(32, 0xFFFD), e.tt.Trunc(t, 32))
		} else if tf.k == kInt {
			r = e.tt.Sext(t, 32)
		} else {
			r = e.tt.Zext(t, 32)
		}
		return normStr(e.encodeRune(r))
	case tf.k == kString && tt.k == kSlice:
		s := x.(*Str)
		el := e.ti(to.Underlying().(*types.Slice).Elem())
		if el.w == 8 {
			b := e.strBytes(s)
			a := &Agg{make([]Value, len(b))}
			for i := range b {
				a.e[i] = b[i]
			}
			return SliceV{arr: a, len: len(b), cap: len(b)}
		}
		rs := e.runes(s)
		a := &Agg{make([]Value, len(rs))}
		for i := range rs {
			a.e[i] = rs[i]
		}
		return SliceV{arr: a, len: len(rs), cap: len(rs)}
	case tf.k == kSlice && tt.k == kString:
		sl := x.(SliceV)
		el := e.ti(from.Underlying().(*types.Slice).Elem())
		if el.w == 8 {
			return e.bytesToStr(sl)
		}
		var b []*Term
		for i := 0; i < sl.len; i++ {
			b = append(b, e.encodeRune(sl.arr.e[sl.off+i].(*Term))...)
		}
		return normStr(b)
	case tt.k == kUnsafe || tf.k == kUnsafe:
		return x
	case tf.k == tt.k:
		return x
	}
	e.unsupported(fmt.Sprintf("conversion %s -> %s", from, to))
	return nil
}

func (e *Eng) bytesToStr(sl SliceV) *Str {
	if sl.len == 0 {
		return emptyStr
	}
	b := make([]*Term, sl.len)
	for i := range b {
		b[i] = sl.arr.e[sl.off+i].(*Term)
	}
	return normStr(b)
}

// runes decodes a whole string, forking over encoding lengths.
func (e *Eng) runes(s *Str) []*Term {
	if c, ok := s.conc(); ok {
		var r []*Term
		for _, x := range c {
			r = append(r, e.tt.Const(32, uint64(uint32(x))))
		}
		return r
	}
	var r []*Term
	for i := 0; i < s.Len(); {
		v, sz := e.decodeRune(s, i)
		r = append(r, v)
		i += int(e.concretize(sz))
	}
	return r
}

// ---------------------------------------------------------------- indexing

func (e *Eng) boundsIdx(idx *Term, signed bool, n int) {
	// idx is 64 bit
	ok := e.tt.cmp(OUlt, idx, e.tt.Const(64, uint64(n)))
	if ok.IsTrue() {
		return
	}
	if !e.branch(ok) {
		d := "?"
		if idx.IsConst() {
			d = fmt.Sprint(idx.Int())
		}
		e.goPanicRuntime(fmt.Sprintf("index out of range [%s] with length %d", d, n))
	}
}

func (e *Eng) idx64(v Value, t types.Type) *Term { return e.toInt64(v, t) }

func (e *Eng) index(in *ssa.Index, x, i Value) Value {
	idx := e.idx64(i, in.Index.Type())
	switch a := x.(type) {
	case *Agg:
		e.boundsIdx(idx, true, len(a.e))
		if idx.IsConst() {
			return a.e[idx.cv]
		}
		return e.selectAt(idx, a.e)
	case *Str:
		e.boundsIdx(idx, true, a.Len())
		if idx.IsConst() {
			return e.strAt(a, int(idx.cv))
		}
		b := e.strBytes(a)
		vs := make([]Value, len(b))
		for k := range b {
			vs[k] = b[k]
		}
		return e.selectAt(idx, vs)
	}
	e.unsupported("index")
	return nil
}

func (e *Eng) selectAt(idx *Term, vs []Value) Value {
	if len(vs) <= 300 {
		ok := true
		for _, v := range vs {
			if _, is := v.(*Term); !is {
				ok = false
				break
			}
		}
		if ok {
			r := vs[len(vs)-1].(*Term)
			for k := len(vs) - 2; k >= 0; k-- {
				r = e.tt.Ite(e.tt.Eq(idx, e.tt.Const(64, uint64(k))), vs[k].(*Term), r)
			}
			return r
		}
	}
	return vs[e.concretize(idx)]
}

func (e *Eng) indexAddr(x, i Value) Value {
	idx := i.(*Term)
	if in, ok := e.curInstr.(*ssa.IndexAddr); ok {
		idx = e.toInt64(i, in.Index.Type())
	}
	switch a := x.(type) {
	case SliceV:
		e.boundsIdx(idx, true, a.len)
		k := int(e.concretize(idx))
		return Ptr(&a.arr.e[a.off+k])
	case Ptr:
		p := e.deref(a)
		ag, ok := (*p).(*Agg)
		if !ok {
			e.unsupported("index of opaque array")
		}
		e.boundsIdx(idx, true, len(ag.e))
		k := int(e.concretize(idx))
		return Ptr(&ag.e[k])
	}
	e.unsupported("indexAddr")
	return nil
}

func (e *Eng) slice(f *Frame, ci *cinstr, in *ssa.Slice) Value {
	x := e.opv(f, &ci.ops[0])
	get := func(v ssa.Value, o *opnd) (int, *Term, bool) {
		if v == nil {
			return 0, nil, false
		}
		t := e.toInt64(e.opv(f, o), v.Type())
		return 0, t, true
	}
	_, lo, hasLo := get(in.Low, &ci.ops[1])
	_, hi, hasHi := get(in.High, &ci.ops[2])
	_, mx, hasMax := get(in.Max, &ci.ops[3])
	var length, capacity int
	switch a := x.(type) {
	case *Str:
		if a.op != nil && (hasLo || hasHi) {
			return e.opaque("part of " + a.op.why)
		}
		length, capacity = a.Len(), a.Len()
	case SliceV:
		length, capacity = a.len, a.cap
	case Ptr:
		p := e.deref(a)
		length = len((*p).(*Agg).e)
		capacity = length
	default:
		e.unsupported("slice")
	}
	c64 := func(n int) *Term { return e.tt.Const(64, uint64(n)) }
	if !hasLo {
		lo = c64(0)
	}
	if !hasHi {
		hi = c64(length)
	}
	if !hasMax {
		mx = c64(capacity)
	}
	check := func(ok *Term, what string) {
		if !e.branch(ok) {
			e.goPanicRuntime("slice bounds out of range " + what)
		}
	}
	if hasMax {
		check(e.tt.cmp(OUle, mx, c64(capacity)), fmt.Sprintf("[::%s] with capacity %d", termInt(mx), capacity))
		check(e.tt.cmp(OUle, hi, mx), fmt.Sprintf("[:%s:%s]", termInt(hi), termInt(mx)))
	} else {
		w := "length"
		if _, ok := x.(SliceV); ok {
			w = "capacity"
		}
		check(e.tt.cmp(OUle, hi, c64(capacity)), fmt.Sprintf("[:%s] with %s %d", termInt(hi), w, capacity))
	}
	check(e.tt.cmp(OUle, lo, hi), fmt.Sprintf("[%s:%s]", termInt(lo), termInt(hi)))
	l, h, m := int(e.concretize(lo)), int(e.concretize(hi)), int(e.concretize(mx))
	switch a := x.(type) {
	case *Str:
		if l == 0 && h == a.Len() {
			return a
		}
		return e.strSlice(a, l, h)
	case SliceV:
		if a.arr == nil {
			return SliceV{}
		}
		return SliceV{arr: a.arr, off: a.off + l, len: h - l, cap: m - l}
	case Ptr:
		return SliceV{arr: (*a).(*Agg), off: l, len: h - l, cap: m - l}
	}
	return nil
}

func termInt(t *Term) string {
	if t.IsConst() {
		return fmt.Sprint(t.Int())
	}
	return "?"
}

// ---------------------------------------------------------------- maps

// findKey returns the index of key, forking on symbolic equality.
func (e *Eng) findKey(m *MapV, k Value) int {
	if iv, ok := k.(IfaceV); ok {
		switch iv.v.(type) {
		case SliceV, *MapV, *FuncV:
			e.goPanicRuntime("hash of unhashable type " + iv.t.String())
		}
	}
	if m == nil {
		return -1
	}
	for i := range m.keys {
		c := e.valEq(m.keys[i], k)
		if c.IsFalse() {
			continue
		}
		if e.branch(c) {
			return i
		}
	}
	return -1
}

func (e *Eng) mapSet(m *MapV, k, v Value) {
	if i := e.findKey(m, k); i >= 0 {
		e.store(m.vals[i], v)
		return
	}
	n := len(m.keys)
	e.trailFn(func() { m.keys, m.vals = m.keys[:n], m.vals[:n] })
	cell := new(Value)
	*cell = v
	m.keys = append(m.keys[:n:n], k)
	m.vals = append(m.vals[:n:n], cell)
}

func (e *Eng) mapDelete(m *MapV, k Value) {
	i := e.findKey(m, k)
	if i < 0 {
		return
	}
	ok, ov := m.keys, m.vals
	e.trailFn(func() { m.keys, m.vals = ok, ov })
	m.keys = append(append([]Value{}, ok[:i]...), ok[i+1:]...)
	m.vals = append(append([]*Value{}, ov[:i]...), ov[i+1:]...)
}

func (e *Eng) lookup(in *ssa.Lookup, x, k Value) Value {
	if s, ok := x.(*Str); ok {
		idx := e.toInt64(k, in.Index.Type())
		e.boundsIdx(idx, true, s.Len())
		if idx.IsConst() {
			return e.strAt(s, int(idx.cv))
		}
		b := e.strBytes(s)
		vs := make([]Value, len(b))
		for i := range b {
			vs[i] = b[i]
		}
		return e.selectAt(idx, vs)
	}
	m := x.(*MapV)
	i := e.findKey(m, k)
	var v Value
	if i >= 0 {
		v = copyVal(*m.vals[i])
	} else {
		v = e.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return Tuple{v, e.tt.Bool(i >= 0)}
	}
	return v
}

func (e *Eng) next(f *Frame, ci *cinstr, in *ssa.Next) {
	p := e.opv(f, &ci.ops[0]).(Ptr)
	switch it := (*p).(type) {
	case StrIter:
		pos := 0
		if it.pos != nil {
			pos = it.base + int(e.concretize(it.pos.(*Term)))
		}
		n := it.s.Len()
		if pos >= n {
			e.setAdv(ci.dst, Tuple{e.tt.f, e.tt.Const(64, 0), e.tt.Const(32, 0)})
			return
		}
		r, sz := e.decodeRune(it.s, pos)
		e.store(p, StrIter{s: it.s, pos: sz, base: pos})
		e.setAdv(ci.dst, Tuple{e.tt.t, e.tt.Const(64, uint64(pos)), r})
	case MapIter:
		// Go leaves the order open; insertion order is one of the legal ones
		if it.m == nil || it.i >= len(it.m.keys) {
			tup := in.Type().(*types.Tuple)
			r := Tuple{e.tt.f, nil, nil}
			for i := 1; i <= 2; i++ {
				if b, ok := tup.At(i).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
					r[i] = e.zero(tup.At(i).Type())
				}
			}
			e.setAdv(ci.dst, r)
			return
		}
		e.store(p, MapIter{m: it.m, i: it.i + 1})
		e.setAdv(ci.dst, Tuple{e.tt.t, it.m.keys[it.i], copyVal(*it.m.vals[it.i])})
	}
}

// ---------------------------------------------------------------- interfaces

func (e *Eng) typeAssert(f *Frame, ci *cinstr, in *ssa.TypeAssert) {
	x, ok := e.opv(f, &ci.ops[0]).(IfaceV)
	if !ok {
		e.unsupported("type assertion on opaque value")
	}
	at := in.AssertedType
	var v Value
	okc := false
	if iface, is := at.Underlying().(*types.Interface); is {
		if x.t != nil && e.implements(x.t, iface) {
			v, okc = x, true
		} else {
			v = IfaceV{}
		}
	} else {
		if x.t != nil && types.Identical(x.t, at) {
			v, okc = x.v, true
		} else {
			v = e.zero(at)
		}
	}
	if in.CommaOk {
		e.setAdv(ci.dst, Tuple{v, e.tt.Bool(okc)})
		return
	}
	if !okc {
		tn := "nil"
		if x.t != nil {
			tn = x.t.String()
		}
		panic(goPanic{desc: fmt.Sprintf("interface conversion: interface is %s, not %s", tn, at), rt: true})
	}
	e.setAdv(ci.dst, v)
}

func (e *Eng) implements(t types.Type, i *types.Interface) bool {
	if t == runtimeErrT || t == rtypeT {
		return i.NumMethods() == 0 || t == rtypeT || (i.NumMethods() == 1 && i.Method(0).Name() == "Error")
	}
	return types.Implements(t, i)
}

func (e *Eng) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if fn, ok := e.mcach[k]; ok {
		return fn
	}
	fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		e.unsupported("method " + m.Name() + " of " + t.String())
	}
	e.mcach[k] = fn
	return fn
}

// ---------------------------------------------------------------- calls

// callee resolves the target and evaluates the arguments.
func (e *Eng) callee(f *Frame, ci *cinstr, c *ssa.CallCommon) (*FuncV, []Value) {
	// operands of a call: Value, then Args
	args := make([]Value, 0, len(c.Args)+1)
	if c.IsInvoke() {
		recv, ok := e.opv(f, &ci.ops[0]).(IfaceV)
		if !ok {
			e.unsupported("method call on opaque value")
		}
		if recv.t == nil {
			e.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		for i := range c.Args {
			args = append(args, e.opv(f, &ci.ops[1+i]))
		}
		if nm := e.nativeMethod(recv, c.Method.Name()); nm != nil {
			return nm, args
		}
		fn := e.method(recv.t, c.Method)
		return &FuncV{fn: fn}, append([]Value{recv.v}, args...)
	}
	fv, _ := e.opv(f, &ci.ops[0]).(*FuncV)
	for i := range c.Args {
		args = append(args, e.opv(f, &ci.ops[1+i]))
	}
	if fv == nil {
		e.goPanicRuntime("invalid memory address or nil pointer dereference")
	}
	return fv, args
}

func (e *Eng) call(f *Frame, ci *cinstr, in *ssa.Call) bool {
	fv, args := e.callee(f, ci, in.Common())
	if fv.native != nil {
		e.setAdv(ci.dst, fv.native(e, args))
		return false
	}
	if fv.fn == nil {
		v, ok := e.builtin(fv.name, in, args)
		if !ok {
			e.unsupported("builtin " + fv.name)
		}
		e.setAdv(ci.dst, v)
		return false
	}
	fn := fv.fn
	if h := e.intrinsic(fn); h != nil {
		if h(e, in, args, ci.dst) {
			return false
		}
	}
	if r := e.redirect(fn); r != nil {
		fn = r
	}
	if fn.Blocks == nil {
		e.ensureBuilt(fn)
		if fn.Blocks == nil {
			e.unsupported("function without Go body " + fn.String())
		}
	}
	if fn.Pkg != nil && e.inInit > 0 && fn.Name() == "init" && fn.Synthetic != "" {
		// initialisers of imported packages run on demand
		e.adv()
		return false
	}
	if e.trySummary(f, ci, fn, args, fv.free) {
		return false
	}
	w := e.wtop()
	w.pc++
	e.pushFrame(fn, args, fv.free, ci.dst)
	return false
}

func (e *Eng) builtin(name string, in *ssa.Call, args []Value) (Value, bool) {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			if x.op != nil {
				return e.opaqueLen(), true
			}
			return e.tt.Const(64, uint64(x.Len())), true
		case SliceV:
			return e.tt.Const(64, uint64(x.len)), true
		case *MapV:
			if x == nil {
				return e.tt.Const(64, 0), true
			}
			return e.tt.Const(64, uint64(len(x.keys))), true
		case *Agg:
			return e.tt.Const(64, uint64(len(x.e))), true
		case Ptr:
			return e.tt.Const(64, uint64(len((*x).(*Agg).e))), true
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return e.tt.Const(64, uint64(x.cap)), true
		case *Agg:
			return e.tt.Const(64, uint64(len(x.e))), true
		case Ptr:
			return e.tt.Const(64, uint64(len((*x).(*Agg).e))), true
		}
	case "append":
		x := args[0].(SliceV)
		var add []Value
		switch y := args[1].(type) {
		case SliceV:
			if y.len == 0 {
				return x, true
			}
			add = y.arr.e[y.off : y.off+y.len]
		case *Str:
			for _, t := range e.strBytes(y) {
				add = append(add, t)
			}
			if len(add) == 0 {
				return x, true
			}
		default:
			return nil, false
		}
		return e.appendTo(x, add, in.Call.Args[0].Type().Underlying().(*types.Slice).Elem()), true
	case "copy":
		d := args[0].(SliceV)
		var src []Value
		switch y := args[1].(type) {
		case SliceV:
			if y.len > 0 {
				src = append(src, y.arr.e[y.off:y.off+y.len]...)
			}
		case *Str:
			for _, t := range e.strBytes(y) {
				src = append(src, t)
			}
		}
		n := len(src)
		if d.len < n {
			n = d.len
		}
		for i := 0; i < n; i++ {
			src[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			e.storeTo(&d.arr.e[d.off+i], src[i])
		}
		return e.tt.Const(64, uint64(n)), true
	case "delete":
		m := args[0].(*MapV)
		if m != nil {
			e.mapDelete(m, args[1])
		}
		return nil, true
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				ok, ov := x.keys, x.vals
				e.trailFn(func() { x.keys, x.vals = ok, ov })
				x.keys, x.vals = nil, nil
			}
			return nil, true
		case SliceV:
			el := in.Call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := 0; i < x.len; i++ {
				e.storeTo(&x.arr.e[x.off+i], e.zero(el))
			}
			return nil, true
		}
	case "print", "println":
		return nil, true
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok1 := r.(*Term)
			y, ok2 := a.(*Term)
			if !ok1 || !ok2 {
				return nil, false
			}
			lt := e.binop(token.LSS, in.Type(), in.Type(), y, x).(*Term)
			if name == "max" {
				lt = e.binop(token.LSS, in.Type(), in.Type(), x, y).(*Term)
			}
			r = e.tt.Ite(lt, y, x)
		}
		return r, true
	case "recover":
		// valid only in a deferred call made by a panicking frame
		f := e.top
		if f.deferOf && f.parent != nil && f.parent.panicking != nil && !f.parent.recovered {
			// parent frame must be written through the frame chain
			p := f.parent
			if p.gen != e.gen {
				p = p.clone(e.gen)
				w := e.wtop()
				w.parent = p
			}
			p.recovered = true
			v := p.panicking.val
			if v == nil {
				return IfaceV{}, true
			}
			return v, true
		}
		return IfaceV{}, true
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			e.goPanicRuntime("value method called using nil pointer")
		}
		return args[0], true
	case "String": // unsafe.String
		if p, ok := args[0].(Ptr); ok && p == nil {
			return emptyStr, true
		}
		return nil, false
	}
	return nil, false
}

func (e *Eng) appendTo(x SliceV, add []Value, elem types.Type) SliceV {
	n := x.len + len(add)
	if x.arr != nil && n <= x.cap {
		vals := make([]Value, len(add))
		for i, v := range add {
			vals[i] = copyVal(v)
		}
		for i, v := range vals {
			e.storeTo(&x.arr.e[x.off+x.len+i], v)
		}
		return SliceV{arr: x.arr, off: x.off, len: n, cap: x.cap}
	}
	// growth like the runtime's: only the fact that it reallocates is relied upon
	c := x.cap * 2
	if c < n {
		c = n
	}
	if c > 256 && x.cap > 256 {
		c = x.cap + (x.cap+3*256)/4
		if c < n {
			c = n
		}
	}
	a := &Agg{make([]Value, c)}
	for i := 0; i < x.len; i++ {
		a.e[i] = copyVal(x.arr.e[x.off+i])
	}
	for i, v := range add {
		a.e[x.len+i] = copyVal(v)
	}
	if c > n {
		z := e.zero(elem)
		for i := n; i < c; i++ {
			a.e[i] = copyVal(z)
		}
	}
	return SliceV{arr: a, len: n, cap: c}
}

// ---------------------------------------------------------------- utf8

// quick decides a condition without the solver.
func (e *Eng) quick(c *Term) (known, val bool) {
	if c.IsConst() {
		return true, c.cv == 1
	}
	if v, ok := e.implied[c]; ok {
		return true, v
	}
	if uv, ok := c.unary(); ok {
		ts := c.truthSet(e.scratch, e.nextGen)
		d := e.domOf(int(uv.cv))
		var x [4]uint64
		for i := range d {
			x[i] = d[i] & ts[i]
		}
		if popcount(&x) == 0 {
			return true, false
		}
		if x == d {
			return true, true
		}
	}
	return false, false
}

func (e *Eng) qand(cs ...*Term) *Term {
	r := e.tt.t
	for _, c := range cs {
		if k, v := e.quick(c); k {
			if !v {
				return e.tt.f
			}
			continue
		}
		r = e.tt.And(r, c)
	}
	return r
}

func (e *Eng) inRangeT(b *Term, lo, hi uint64) *Term {
	return e.qand(e.tt.cmp(OUle, e.tt.Const(8, lo), b), e.tt.cmp(OUle, b, e.tt.Const(8, hi)))
}

// decodeRune returns rune (32 bit) and encoded size (64 bit) of the first rune of s[i:].
func (e *Eng) decodeRune(s *Str, i int) (*Term, *Term) {
	n := s.Len() - i
	errR, one := e.tt.Const(32, 0xFFFD), e.tt.Const(64, 1)
	if n <= 0 {
		return errR, e.tt.Const(64, 0)
	}
	b0 := e.strAt(s, i)
	r, sz := errR, one
	z := func(t *Term) *Term { return e.tt.Zext(t, 32) }
	bits := func(t *Term, m uint64, sh uint64) *Term {
		return e.tt.Bin(OShl, z(e.tt.Bin(OBAnd, e.tt.Const(8, m), t)), e.tt.Const(32, sh))
	}
	or := func(ts ...*Term) *Term {
		x := ts[0]
		for _, t := range ts[1:] {
			x = e.tt.Bin(OBOr, x, t)
		}
		return x
	}
	add := func(c, rr *Term, k uint64) {
		if c.IsFalse() {
			return
		}
		r = e.tt.Ite(c, rr, r)
		sz = e.tt.Ite(c, e.tt.Const(64, k), sz)
	}
	var b1, b2, b3 *Term
	if n > 1 {
		b1 = e.strAt(s, i+1)
	}
	if n > 2 {
		b2 = e.strAt(s, i+2)
	}
	if n > 3 {
		b3 = e.strAt(s, i+3)
	}
	if b3 != nil {
		lead := e.inRangeT(b0, 0xF0, 0xF4)
		if !lead.IsFalse() {
			c1 := e.inRangeT(b1, 0x80, 0xBF)
			if !c1.IsFalse() {
				// F0: 90..BF, F4: 80..8F
				c1 = e.qand(c1,
					e.tt.Or(e.tt.Not(e.tt.Eq(b0, e.tt.Const(8, 0xF0))), e.tt.cmp(OUle, e.tt.Const(8, 0x90), b1)),
					e.tt.Or(e.tt.Not(e.tt.Eq(b0, e.tt.Const(8, 0xF4))), e.tt.cmp(OUle, b1, e.tt.Const(8, 0x8F))))
				c := e.qand(lead, c1, e.inRangeT(b2, 0x80, 0xBF), e.inRangeT(b3, 0x80, 0xBF))
				add(c, e.tt.Rng(or(bits(b0, 7, 18), bits(b1, 0x3f, 12), bits(b2, 0x3f, 6), bits(b3, 0x3f, 0)), 0x10000, 0x10FFFF), 4)
			}
		}
	}
	if b2 != nil {
		lead := e.inRangeT(b0, 0xE0, 0xEF)
		if !lead.IsFalse() {
			c1 := e.inRangeT(b1, 0x80, 0xBF)
			if !c1.IsFalse() {
				c1 = e.qand(c1,
					e.tt.Or(e.tt.Not(e.tt.Eq(b0, e.tt.Const(8, 0xE0))), e.tt.cmp(OUle, e.tt.Const(8, 0xA0), b1)),
					e.tt.Or(e.tt.Not(e.tt.Eq(b0, e.tt.Const(8, 0xED))), e.tt.cmp(OUle, b1, e.tt.Const(8, 0x9F))))
				c := e.qand(lead, c1, e.inRangeT(b2, 0x80, 0xBF))
				add(c, e.tt.Rng(or(bits(b0, 0xf, 12), bits(b1, 0x3f, 6), bits(b2, 0x3f, 0)), 0x800, 0xFFFF), 3)
			}
		}
	}
	if b1 != nil {
		c := e.qand(e.inRangeT(b0, 0xC2, 0xDF), e.inRangeT(b1, 0x80, 0xBF))
		add(c, e.tt.Rng(or(bits(b0, 0x1f, 6), bits(b1, 0x3f, 0)), 0x80, 0x7FF), 2)
	}
	add(e.qand(e.tt.cmp(OUlt, b0, e.tt.Const(8, 0x80))), z(b0), 1)
	return r, sz
}

// decodeLastRune mirrors utf8.DecodeLastRuneInString.
func (e *Eng) decodeLastRune(s *Str) (*Term, *Term) {
	n := s.Len()
	errR, one := e.tt.Const(32, 0xFFFD), e.tt.Const(64, 1)
	if n == 0 {
		return errR, e.tt.Const(64, 0)
	}
	last := e.strAt(s, n-1)
	r, sz := errR, one
	// the nearest byte within 4 that is not a continuation byte starts the rune
	max := 4
	if n < max {
		max = n
	}
	for k := max; k >= 2; k-- {
		st := n - k
		// start byte at st, all bytes after it are continuation bytes
		c := e.tt.t
		for j := st + 1; j < n; j++ {
			c = e.qand(c, e.inRangeT(e.strAt(s, j), 0x80, 0xBF))
			if c.IsFalse() {
				break
			}
		}
		if c.IsFalse() {
			continue
		}
		nc := e.tt.Not(e.inRangeT(e.strAt(s, st), 0x80, 0xBF))
		c = e.qand(c, nc)
		if c.IsFalse() {
			continue
		}
		dr, dsz := e.decodeRune(s, st)
		c = e.qand(c, e.tt.Eq(dsz, e.tt.Const(64, uint64(k))))
		if c.IsFalse() {
			continue
		}
		r = e.tt.Ite(c, dr, r)
		sz = e.tt.Ite(c, e.tt.Const(64, uint64(k)), sz)
	}
	asc := e.qand(e.tt.cmp(OUlt, last, e.tt.Const(8, 0x80)))
	r = e.tt.Ite(asc, e.tt.Zext(last, 32), r)
	sz = e.tt.Ite(asc, one, sz)
	return r, sz
}

// encodeRune returns the UTF-8 bytes of r, forking over the length.
func (e *Eng) encodeRune(r *Term) []*Term {
	if r.IsConst() {
		var b []*Term
		for _, c := range []byte(string(rune(int32(uint32(r.cv))))) {
			b = append(b, e.tt.Const(8, uint64(c)))
		}
		return b
	}
	c := func(v uint64) *Term { return e.tt.Const(32, v) }
	part := func(sh, m, o uint64) *Term {
		return e.tt.Bin(OBOr, e.tt.Const(8, o), e.tt.Trunc(e.tt.Bin(OBAnd, e.tt.Bin(OLshr, r, c(sh)), c(m)), 8))
	}
	if e.branch(e.tt.cmp(OUlt, r, c(0x80))) {
		return []*Term{e.tt.Trunc(r, 8)}
	}
	if e.branch(e.tt.cmp(OUlt, r, c(0x800))) {
		return []*Term{part(6, 0x1f, 0xC0), part(0, 0x3f, 0x80)}
	}
	bad := e.tt.Or(e.tt.cmp(OUle, c(0x110000), r), e.tt.And(e.tt.cmp(OUle, c(0xD800), r), e.tt.cmp(OUlt, r, c(0xE000))))
	if e.branch(bad) {
		return []*Term{e.tt.Const(8, 0xEF), e.tt.Const(8, 0xBF), e.tt.Const(8, 0xBD)}
	}
	if e.branch(e.tt.cmp(OUlt, r, c(0x10000))) {
		return []*Term{part(12, 0xf, 0xE0), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)}
	}
	return []*Term{part(18, 7, 0xF0), part(12, 0x3f, 0x80), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)}
}

var _ = math.MaxInt8
var _ = sort.Ints
var _ = strings.Index
