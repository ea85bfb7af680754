package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- purity

// pureFn reports whether calling fn has no effect besides its result, judged on
// fn and everything it statically calls.
func (e *Eng) pureFn(fn *ssa.Function) bool {
	fi := e.info(fn)
	if fi.pure != 0 {
		return fi.pure == 1
	}
	seen := map[*ssa.Function]bool{}
	ok := e.pureRec(fn, seen)
	if ok {
		for f := range seen {
			e.info(f).pure = 1
		}
		fi.pure = 1
	} else {
		fi.pure = 2
	}
	return ok
}

func (e *Eng) pureRec(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	e.ensureBuilt(fn)
	if fn.Blocks == nil || len(seen) > 60 {
		return false
	}
	if e.info(fn).pure == 2 {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !localAddr(x.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.RunDefers, *ssa.MakeChan:
				return false
			case *ssa.Call:
				c := x.Common()
				if c.IsInvoke() {
					return false
				}
				switch cv := c.Value.(type) {
				case *ssa.Builtin:
					switch cv.Name() {
					case "append":
						if !localSlice(c.Args[0], map[ssa.Value]bool{}) {
							return false
						}
					case "copy":
						if !localSlice(c.Args[0], map[ssa.Value]bool{}) {
							return false
						}
					case "delete", "clear", "close", "recover":
						return false
					}
				case *ssa.Function:
					if p, known := e.intrPure(cv); known {
						if !p {
							return false
						}
						continue
					}
					t := cv
					if r := e.redirect(cv); r != nil {
						t = r
					}
					if !e.pureRec(t, seen) {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return true
}

func localAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(x.X)
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return localAddr(x.X)
		}
		return localSlice(x.X, map[ssa.Value]bool{})
	}
	return false
}

func localSlice(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Const:
		return true
	case *ssa.Convert:
		_, ok := x.X.Type().Underlying().(*types.Basic)
		return ok
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return localAddr(x.X)
		}
		return localSlice(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !localSlice(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return localSlice(x.Call.Args[0], seen)
		}
	}
	return false
}

func flatType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !flatType(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return flatType(u.Elem())
	}
	return false
}

// summarisable is a static decision: pure, flat results, and at least one branch.
func (e *Eng) summarisable(fn *ssa.Function) bool {
	fi := e.info(fn)
	if fi.summ != 0 {
		return fi.summ == 1
	}
	fi.summ = 2
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return false
	}
	for i := 0; i < res.Len(); i++ {
		if !flatType(res.At(i).Type()) {
			return false
		}
	}
	if len(fn.Blocks) < 2 {
		return false
	}
	if !e.pureFn(fn) {
		return false
	}
	fi.summ = 1
	return true
}

func (e *Eng) argSymbolic(v Value) bool {
	switch x := v.(type) {
	case Ptr:
		if x == nil {
			return false
		}
		return symbolicDeep(*x, 2)
	case SliceV:
		return symbolicDeep(x, 2)
	}
	return symbolic(v)
}

func symbolicDeep(v Value, d int) bool {
	if d == 0 {
		return false
	}
	switch x := v.(type) {
	case Ptr:
		return x != nil && symbolicDeep(*x, d-1)
	case SliceV:
		for i := 0; i < x.len; i++ {
			if symbolicDeep(x.arr.e[x.off+i], d-1) {
				return true
			}
		}
		return false
	case *Agg:
		for _, y := range x.e {
			if symbolicDeep(y, d) {
				return true
			}
		}
		return false
	}
	return symbolic(v)
}

type sumPath struct {
	cond *Term
	val  Value
}

const maxSumPaths = 600

// trySummary explores a pure call separately and merges its results, so that the
// caller does not fork. Returns false if the call has to be executed in place.
func (e *Eng) trySummary(f *Frame, ci *cinstr, fn *ssa.Function, args, free []Value) bool {
	if e.noSumm || e.inInit > 0 || e.nest > 6 || !e.summarisable(fn) {
		return false
	}
	sym := false
	for _, a := range args {
		if e.argSymbolic(a) {
			sym = true
			break
		}
	}
	for _, a := range free {
		if !sym && e.argSymbolic(a) {
			sym = true
		}
	}
	if !sym {
		return false
	}
	paths, ok := e.exploreCall(fn, args, free)
	if !ok {
		return false
	}
	if len(paths) == 0 {
		panic(pathAbort{k: abAssume, why: "no feasible path through " + fn.String()})
	}
	e.st.Merged++
	// group mergeable results
	type group struct {
		cond *Term
		val  Value
	}
	var gs []group
	for i := len(paths) - 1; i >= 0; i-- {
		p := paths[i]
		done := false
		for k := range gs {
			if v, ok := e.mergeVal(p.cond, p.val, gs[k].val); ok {
				gs[k].val = v
				gs[k].cond = e.tt.Or(p.cond, gs[k].cond)
				done = true
				break
			}
		}
		if !done {
			gs = append(gs, group{p.cond, p.val})
		}
	}
	if len(gs) == 1 {
		e.setAdv(ci.dst, gs[0].val)
		return true
	}
	conds := make([]*Term, len(gs))
	vals := make([]uint64, len(gs))
	for i := range gs {
		conds[i] = gs[i].cond
		vals[i] = uint64(i)
	}
	dst := ci.dst
	e.choose(conds, vals, func(i int) { e.setAdv(dst, gs[i].val) })
	return true
}

// exploreCall runs all feasible paths of a pure call on the current path.
func (e *Eng) exploreCall(fn *ssa.Function, args, free []Value) ([]sumPath, bool) {
	top, trailLen, pcLen, model := e.top, len(e.trail), len(e.pc), e.model
	it, steps, nch, cur, obs := e.instrTrail, e.steps, len(e.choices), e.curInstr, len(e.obs)
	gen := e.gen
	_ = gen
	e.nest++
	e.gen++
	e.top = nil
	e.pushFrame(fn, args, free, -1)
	e.top.base = true
	if top != nil {
		e.top.depth = top.depth + 1
	}
	var paths []sumPath
	ok := true
	var dead bool
	e.explore(func(o outcome) bool {
		switch o.k {
		case abEnd:
			c := e.tt.t
			for _, t := range e.pc[pcLen:] {
				c = e.tt.And(c, t)
			}
			paths = append(paths, sumPath{c, o.ret})
			if len(paths) > maxSumPaths {
				ok = false
				return false
			}
			return true
		case abAssume:
			return true
		case abDeadline:
			dead = true
			return false
		default:
			ok = false
			return false
		}
	})
	e.choices = e.choices[:nch]
	e.undoTo(trailLen)
	e.pc = e.pc[:pcLen]
	e.model = model
	e.top = top
	e.instrTrail, e.steps, e.curInstr = it, steps, cur
	e.obs = e.obs[:obs]
	e.nest--
	e.gen++
	if dead {
		panic(pathAbort{k: abDeadline, why: "time budget"})
	}
	return paths, ok
}

// ---------------------------------------------------------------- regions

type region struct {
	blocks []*ssa.BasicBlock // topological order, head excluded
	in     map[*ssa.BasicBlock]bool
}

func pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM:
			return false
		case token.SHL, token.SHR:
			b, ok := x.Y.Type().Underlying().(*types.Basic)
			if _, isC := x.Y.(*ssa.Const); isC {
				return true
			}
			return ok && b.Info()&types.IsUnsigned != 0
		}
		_, ok := x.X.Type().Underlying().(*types.Basic)
		if !ok {
			if c, isC := x.Y.(*ssa.Const); isC && c.Value == nil {
				return true // comparison with nil
			}
		}
		return ok
	case *ssa.UnOp:
		return x.Op == token.NOT || x.Op == token.SUB || x.Op == token.XOR || x.Op == token.MUL
	case *ssa.Convert:
		a, ok1 := x.X.Type().Underlying().(*types.Basic)
		b, ok2 := x.Type().Underlying().(*types.Basic)
		return ok1 && ok2 && a.Info()&types.IsInteger != 0 && b.Info()&types.IsInteger != 0
	case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Field, *ssa.Extract, *ssa.ChangeType, *ssa.FieldAddr, *ssa.DebugRef:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return true
		}
	case *ssa.Lookup, *ssa.Index:
		return true // evaluated only when provably in range
	}
	return false
}

func (e *Eng) regionOf(bi *BlockInfo) *region {
	if bi.regOK != 0 {
		return bi.regio
	}
	bi.regOK = 2
	head := bi.b
	r := &region{in: map[*ssa.BasicBlock]bool{}}
	ok := func(b *ssa.BasicBlock) bool {
		if b == head || r.in[b] || len(b.Instrs) > 24 {
			return false
		}
		for _, p := range b.Preds {
			if p != head && !r.in[p] {
				return false
			}
		}
		for _, in := range b.Instrs {
			if !pureInstr(in) {
				return false
			}
		}
		return true
	}
	for changed := true; changed && len(r.blocks) < 12; {
		changed = false
		cand := append([]*ssa.BasicBlock{head}, r.blocks...)
		for _, b := range cand {
			for _, s := range b.Succs {
				if ok(s) {
					r.in[s] = true
					r.blocks = append(r.blocks, s)
					changed = true
				}
			}
		}
	}
	exits := map[*ssa.BasicBlock]bool{}
	edges := 0
	for _, b := range append([]*ssa.BasicBlock{head}, r.blocks...) {
		if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] {
			return nil
		}
		for _, s := range b.Succs {
			if !r.in[s] {
				exits[s] = true
				edges++
			}
		}
	}
	if len(r.blocks) == 0 && len(exits) > 1 {
		return nil
	}
	if edges <= len(exits) && len(exits) >= 2 {
		return nil // nothing to merge
	}
	bi.regio = r
	bi.regOK = 1
	return r
}

// tryRegion evaluates the side-effect-free blocks after a symbolic If at once and
// continues at the merged exits. Returns false if the plain fork has to be used.
func (e *Eng) tryRegion(f *Frame, c *Term) (res bool) {
	if e.noRegion {
		return false
	}
	if _, ok := e.implied[c]; ok {
		return false
	}
	r := e.regionOf(f.block)
	if r == nil {
		return false
	}
	head := f.block.b
	vals := map[int]Value{}
	get := func(o *opnd) Value {
		if o.slot >= 0 {
			if v, ok := vals[o.slot]; ok {
				return v
			}
			return f.regs[o.slot]
		}
		return e.opv(f, o)
	}
	type edge struct {
		from, to *ssa.BasicBlock
		cond     *Term
	}
	in := map[*ssa.BasicBlock][]edge{}
	var exits []*ssa.BasicBlock
	out := map[*ssa.BasicBlock][]edge{}
	addEdge := func(from, to *ssa.BasicBlock, cond *Term) {
		if cond.IsFalse() {
			return
		}
		ed := edge{from, to, cond}
		if r.in[to] {
			in[to] = append(in[to], ed)
			return
		}
		if out[to] == nil {
			exits = append(exits, to)
		}
		out[to] = append(out[to], ed)
	}
	phis := func(to *ssa.BasicBlock, eds []edge) ([]Value, bool) {
		bi := f.fi.blocks[to.Index]
		vs := make([]Value, bi.nphi)
		for i := 0; i < bi.nphi; i++ {
			for j := len(eds) - 1; j >= 0; j-- {
				k := -1
				for q, p := range to.Preds {
					if p == eds[j].from {
						k = q
						// both successors of one If may lead here
						break
					}
				}
				v := get(&bi.ins[i].ops[k])
				if j == len(eds)-1 {
					vs[i] = v
					continue
				}
				m, ok := e.mergeVal(eds[j].cond, v, vs[i])
				if !ok {
					return nil, false
				}
				vs[i] = m
			}
		}
		return vs, true
	}
	defer func() {
		if x := recover(); x != nil {
			if pa, ok := x.(pathAbort); ok && pa.k == abUnsupported {
				res = false
				return
			}
			if _, ok := x.(goPanic); ok {
				res = false
				return
			}
			panic(x)
		}
	}()
	addEdge(head, head.Succs[0], c)
	addEdge(head, head.Succs[1], e.tt.Not(c))
	for _, b := range r.blocks {
		eds := in[b]
		if len(eds) == 0 {
			continue
		}
		bi := f.fi.blocks[b.Index]
		vs, ok := phis(b, eds)
		if !ok {
			return false
		}
		reach := e.tt.f
		for _, ed := range eds {
			reach = e.tt.Or(reach, ed.cond)
		}
		for i, v := range vs {
			vals[bi.ins[i].dst] = v
		}
		for i := bi.nphi; i < len(bi.ins); i++ {
			ci := &bi.ins[i]
			switch x := ci.in.(type) {
			case *ssa.If:
				cc, isT := get(&ci.ops[0]).(*Term)
				if !isT {
					return false
				}
				addEdge(b, b.Succs[0], e.tt.And(reach, cc))
				addEdge(b, b.Succs[1], e.tt.And(reach, e.tt.Not(cc)))
			case *ssa.Jump:
				addEdge(b, b.Succs[0], reach)
			default:
				v, ok := e.pureEval(x, ci, get)
				if !ok {
					return false
				}
				vals[ci.dst] = v
			}
		}
	}
	type exit struct {
		to   *ssa.BasicBlock
		cond *Term
		from *ssa.BasicBlock
		phi  []Value
	}
	var xs []exit
	for _, t := range exits {
		eds := out[t]
		vs, ok := phis(t, eds)
		if !ok {
			return false
		}
		cond := e.tt.f
		for _, ed := range eds {
			cond = e.tt.Or(cond, ed.cond)
		}
		xs = append(xs, exit{t, cond, eds[0].from, vs})
	}
	if len(xs) == 0 {
		return false
	}
	apply := func(i int) {
		w := e.wtop()
		for s, v := range vals {
			w.regs[s] = v
		}
		nb := w.fi.blocks[xs[i].to.Index]
		for k, v := range xs[i].phi {
			w.regs[nb.ins[k].dst] = v
		}
		w.prev = xs[i].from.Index
		w.block = nb
		w.pc = nb.nphi
	}
	e.st.Regions++
	if len(xs) == 1 {
		apply(0)
		return true
	}
	conds := make([]*Term, len(xs))
	ids := make([]uint64, len(xs))
	for i := range xs {
		conds[i] = xs[i].cond
		ids[i] = uint64(i)
	}
	e.choose(conds, ids, apply)
	return true
}

// pureEval evaluates an instruction without side effects; false if it might fault.
func (e *Eng) pureEval(in ssa.Instruction, ci *cinstr, get func(*opnd) Value) (Value, bool) {
	switch x := in.(type) {
	case *ssa.BinOp:
		return e.binop(x.Op, x.X.Type(), x.Y.Type(), get(&ci.ops[0]), get(&ci.ops[1])), true
	case *ssa.UnOp:
		v := get(&ci.ops[0])
		if x.Op == token.MUL {
			p, ok := v.(Ptr)
			if !ok || p == nil {
				return nil, false
			}
			return e.load(p), true
		}
		return e.unop(x, v), true
	case *ssa.Convert:
		return e.convert(x.X.Type(), x.Type(), get(&ci.ops[0])), true
	case *ssa.ChangeType:
		return get(&ci.ops[0]), true
	case *ssa.Field:
		a, ok := get(&ci.ops[0]).(*Agg)
		if !ok {
			return nil, false
		}
		return a.e[x.Field], true
	case *ssa.FieldAddr:
		p, ok := get(&ci.ops[0]).(Ptr)
		if !ok || p == nil {
			return nil, false
		}
		a, ok := (*p).(*Agg)
		if !ok {
			return nil, false
		}
		return Ptr(&a.e[x.Field]), true
	case *ssa.Extract:
		t, ok := get(&ci.ops[0]).(Tuple)
		if !ok {
			return nil, false
		}
		return t[x.Index], true
	case *ssa.Call:
		switch v := get(&ci.ops[1]).(type) {
		case *Str:
			if v.op != nil {
				return nil, false
			}
			return e.tt.Const(64, uint64(v.Len())), true
		case SliceV:
			if x.Call.Value.(*ssa.Builtin).Name() == "cap" {
				return e.tt.Const(64, uint64(v.cap)), true
			}
			return e.tt.Const(64, uint64(v.len)), true
		}
		return nil, false
	case *ssa.Lookup:
		s, ok := get(&ci.ops[0]).(*Str)
		if !ok || x.CommaOk || s.op != nil {
			return nil, false
		}
		i := e.toInt64(get(&ci.ops[1]), x.Index.Type())
		if !i.IsConst() || i.Int() < 0 || i.Int() >= int64(s.Len()) {
			return nil, false
		}
		return e.strAt(s, int(i.cv)), true
	case *ssa.Index:
		i := e.toInt64(get(&ci.ops[1]), x.Index.Type())
		if !i.IsConst() {
			return nil, false
		}
		switch a := get(&ci.ops[0]).(type) {
		case *Agg:
			if i.cv < uint64(len(a.e)) {
				return a.e[i.cv], true
			}
		case *Str:
			if a.op == nil && i.cv < uint64(a.Len()) {
				return e.strAt(a, int(i.cv)), true
			}
		}
		return nil, false
	}
	return nil, false
}
