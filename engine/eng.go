package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type undo struct {
	p    *Value
	old  Value
	f    func()
	fact bool // knowledge about the path, not program state
}

type Dec struct {
	V      uint64
	Forced bool
	At     ssa.Instruction // where the decision was taken, to notice a diverging replay
}

type alt struct {
	cond  *Term
	model *Model
	dec   Dec
	apply func()
}

type choice struct {
	top                         *Frame
	trailLen, factLen           int
	pcLen, decLen, inLen, ufLen int
	obsLen, ufN                 int
	steps                       int64
	alts                        []alt
	next                        int
	pathID                      int
}

type inputRec struct {
	t    *Term
	kind string // byte,bool,int,...,choose,pred
	val  uint64 // for choose
	uf   int
}

type abortKind int

const (
	abUnsupported abortKind = iota
	abAssume
	abSteps
	abPanic
	abViolation
	abDeadline
	abEnd
	abDepth
)

type pathAbort struct {
	k    abortKind
	why  string
	conc bool
}

type Violation struct {
	Harness, Label, Kind string
	Inputs               []RInput
	Detail               string
	Query                string
}

type RInput struct {
	Kind string     `json:"k"`
	Val  uint64     `json:"v"`
	Tab  [][2]int64 `json:"t,omitempty"`
}

type obsRec struct {
	tag string
	v   Value
}

// Eng is one symbolic-execution worker.
type Eng struct {
	L      *Loaded
	prog   *ssa.Program
	tt     *TermTab
	sol    *Solver
	epoch  int32
	genCtr int32

	finfo map[*ssa.Function]*FuncInfo
	tinfo map[types.Type]tinfo
	mcach map[methKey]*ssa.Function

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool

	inputs []inputRec
	ufApps []*Term
	ufN    int
	obs    []obsRec

	pc        []*Term
	implied   map[*Term]bool
	concr     map[*Term]uint64
	dom       map[int]*[4]uint64
	entangled map[int]bool
	trail     []undo
	model     *Model
	scratch   *Model
	sepMemo   map[*Term]*sepForm

	top        *Frame
	gen        int
	choices    []*choice
	instrTrail int
	nest       int
	steps      int64
	retVal     Value

	decs   []Dec
	prefix []Dec
	pi     int

	// configuration
	MaxSteps int64
	MaxDepth int
	deadline time.Time
	harness  string

	// statistics
	st       Stats
	funcs    map[*ssa.Function]int64
	unsup    map[string]int
	asserts  map[string]*AssertStat
	covers   map[string]int
	viol     []Violation
	samples  []PathSample
	sampleN  int
	violSeen map[string]bool
	debug    bool
	noPref   bool
	tmp      int
	donate   func() bool
	xcheck   []string
	xcheckN  int
	curInstr ssa.Instruction
	initErr  []string
	inInit   int
	noSumm   bool
	noRegion bool
}

type AssertStat struct {
	Reached, Trivial, Solver, Unknown int
}

type Stats struct {
	Paths, Ended, AssumedOut, Unsupported, StepLimit, Infeasible int64
	Forks, Merged, Regions, Instrs                               int64
	DomDecided, ModelDecided                                     int64
	FeasQ, AssertQ, ConfirmQ                                     int64
}

type PathSample struct {
	Inputs []RInput
	Obs    []string
}

func (e *Eng) unsupported(why string) {
	loc := ""
	if e.curInstr != nil && e.curInstr.Parent() != nil {
		loc = " in " + e.curInstr.Parent().String()
	}
	panic(pathAbort{k: abUnsupported, why: why + loc})
}

func NewEng(L *Loaded) *Eng {
	e := &Eng{L: L, prog: L.prog}
	e.finfo = map[*ssa.Function]*FuncInfo{}
	e.tinfo = map[types.Type]tinfo{}
	e.mcach = map[methKey]*ssa.Function{}
	e.funcs = map[*ssa.Function]int64{}
	e.sol = NewSolver(L.queryTimeoutMS)
	e.MaxSteps = L.maxSteps
	e.MaxDepth = 2500
	e.reset()
	return e
}

// reset prepares for a new harness: fresh terms, heap and statistics.
func (e *Eng) reset() {
	e.tt = NewTermTab()
	e.sol.kill()
	e.globals = map[*ssa.Global]*Value{}
	e.inited = map[*ssa.Package]bool{}
	e.inputs, e.ufApps, e.obs = nil, nil, nil
	e.ufN = 0
	e.pc = nil
	e.implied = map[*Term]bool{}
	e.concr = map[*Term]uint64{}
	e.dom = map[int]*[4]uint64{}
	e.entangled = map[int]bool{}
	e.trail = nil
	e.genCtr++
	e.model = &Model{gen: e.genCtr}
	e.scratch = &Model{}
	e.top = nil
	e.choices = nil
	e.nest = 0
	e.finfo = map[*ssa.Function]*FuncInfo{} // cached constants belong to the old term table
	e.runInits()
}

func (e *Eng) clearStats() {
	e.st = Stats{}
	e.unsup = map[string]int{}
	e.asserts = map[string]*AssertStat{}
	e.covers = map[string]int{}
	e.viol = nil
	e.samples = nil
	e.sampleN = 0
	e.violSeen = map[string]bool{}
	e.funcs = map[*ssa.Function]int64{}
}

// ---------------------------------------------------------------- trail/frames

func (e *Eng) store(p *Value, v Value) {
	e.trail = append(e.trail, undo{p: p, old: *p})
	*p = v
}

func (e *Eng) trailFn(f func()) { e.trail = append(e.trail, undo{f: f}) }

func (e *Eng) trailFact(f func()) { e.trail = append(e.trail, undo{f: f, fact: true}) }

// undoState takes back the program state down to trail length n, and the facts
// only down to trail length m (n <= m).
func (e *Eng) undoState(n, m int) {
	e.undoTo(m)
	k := m
	for i := m - 1; i >= n; i-- {
		u := e.trail[i]
		if u.fact {
			k--
			e.trail[k] = u
			continue
		}
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	if k > n {
		copy(e.trail[n:], e.trail[k:m])
		for i := n + m - k; i < m; i++ {
			e.trail[i] = undo{}
		}
		e.trail = e.trail[:n+m-k]
	}
}

func (e *Eng) undoTo(n int) {
	for i := len(e.trail) - 1; i >= n; i-- {
		u := &e.trail[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		*u = undo{}
	}
	e.trail = e.trail[:n]
}

// wtop returns the top frame, writable.
func (e *Eng) wtop() *Frame {
	if e.top.gen != e.gen {
		e.top = e.top.clone(e.gen)
	}
	return e.top
}

func (e *Eng) set(dst int, v Value) {
	if dst >= 0 {
		e.wtop().regs[dst] = v
	}
}

// ---------------------------------------------------------------- path condition

func (e *Eng) setImplied(c *Term, v bool) {
	if c.IsConst() {
		return
	}
	if c.Op == ONot {
		e.setImplied(c.args[0], !v)
		return
	}
	if old, ok := e.implied[c]; ok && old == v {
		return
	}
	e.implied[c] = v
	e.trailFact(func() { delete(e.implied, c) })
	n := e.tt.Not(c)
	if n.Op != ONot {
		if _, ok := e.implied[n]; !ok {
			e.implied[n] = !v
			e.trailFact(func() { delete(e.implied, n) })
		}
	}
	if v && c.Op == OAnd {
		e.setImplied(c.args[0], true)
		e.setImplied(c.args[1], true)
	}
	if !v && c.Op == OOr {
		e.setImplied(c.args[0], false)
		e.setImplied(c.args[1], false)
	}
}

func (e *Eng) nextGen() int32 { e.genCtr++; return e.genCtr }

func (e *Eng) domOf(idx int) [4]uint64 {
	if d, ok := e.dom[idx]; ok {
		return *d
	}
	return [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
}

func (e *Eng) markEntangled(t *Term, seen map[*Term]bool) {
	if seen[t] || t.Op == OConst {
		return
	}
	seen[t] = true
	if t.Op == OVar {
		i := int(t.cv)
		if t.W == 8 && !e.entangled[i] {
			e.entangled[i] = true
			e.trailFact(func() { delete(e.entangled, i) })
		}
		return
	}
	for i := 0; i < int(t.n); i++ {
		e.markEntangled(t.args[i], seen)
	}
}

// assume adds c to the path condition (caller guarantees feasibility).
func (e *Eng) assume(c *Term, m *Model) {
	if c.IsTrue() {
		if m != nil {
			e.model = m
		}
		return
	}
	e.pc = append(e.pc, c)
	e.assumeFacts(c)
	if m != nil {
		e.model = m
	} else if e.model != nil && e.model.Eval(c) != 1 {
		e.model = nil
	}
}

func (e *Eng) assumeFacts(c *Term) {
	e.setImplied(c, true)
	e.domFacts(c)
}

func (e *Eng) domFacts(c *Term) {
	if uv, ok := c.unary(); ok {
		idx := int(uv.cv)
		ts := c.truthSet(e.scratch, e.nextGen)
		d := e.domOf(idx)
		old, had := e.dom[idx]
		for i := range d {
			d[i] &= ts[i]
		}
		e.dom[idx] = &d
		e.trailFact(func() {
			if had {
				e.dom[idx] = old
			} else {
				delete(e.dom, idx)
			}
		})
		return
	}
	if c.Op == OAnd {
		e.domFacts(c.args[0])
		e.domFacts(c.args[1])
		return
	}
	e.markEntangled(c, map[*Term]bool{})
}

func (e *Eng) ensureModel() bool {
	if e.model != nil {
		return true
	}
	e.st.FeasQ++
	v, m := e.sol.Check(e, e.pc, nil, true)
	if v == Sat {
		e.model = m
		return true
	}
	if v == Unsat {
		e.st.Infeasible++
		panic(pathAbort{k: abAssume, why: "infeasible prefix"})
	}
	return false
}

// feas decides whether c can hold on the current path. Returns a model if one is known.
func (e *Eng) feas(c *Term) (Verdict, *Model) {
	if c.IsConst() {
		if c.cv == 1 {
			return Sat, e.model
		}
		return Unsat, nil
	}
	if v, ok := e.implied[c]; ok {
		if v {
			return Sat, e.model
		}
		return Unsat, nil
	}
	if c.Op == ONot {
		if v, ok := e.implied[c.args[0]]; ok {
			if !v {
				return Sat, e.model
			}
			return Unsat, nil
		}
	}
	if c.Op == OAnd {
		for i := 0; i < 2; i++ {
			if v, ok := e.implied[c.args[i]]; ok && !v {
				return Unsat, nil
			}
		}
	}
	if uv, ok := c.unary(); ok && !e.noPref {
		idx := int(uv.cv)
		ts := c.truthSet(e.scratch, e.nextGen)
		d := e.domOf(idx)
		var x [4]uint64
		for i := range d {
			x[i] = d[i] & ts[i]
		}
		if popcount(&x) == 0 {
			e.st.DomDecided++
			return Unsat, nil
		}
		if x == d {
			e.st.DomDecided++
			return Sat, e.model
		}
		if !e.entangled[idx] && e.model != nil {
			e.st.DomDecided++
			if e.model.Eval(c) == 1 {
				return Sat, e.model
			}
			m := &Model{gen: e.nextGen(), vals: append([]uint64(nil), e.model.vals...), uf: e.model.uf}
			for len(m.vals) <= idx {
				m.vals = append(m.vals, 0)
			}
			m.vals[idx] = uint64(pickVal(&x))
			return Sat, m
		}
	}
	if e.model != nil && e.model.Eval(c) == 1 {
		e.st.ModelDecided++
		return Sat, e.model
	}
	if !e.noPref {
		switch e.sepDecide(c) {
		case 0:
			e.st.DomDecided++
			return Unsat, nil
		case 1:
			e.st.DomDecided++
			return Sat, e.model
		}
	}
	e.st.FeasQ++
	e.checkDeadline()
	return e.sol.Check(e, e.pc, c, true)
}

func pickVal(s *[4]uint64) int {
	// prefer printable
	for v := 32; v < 127; v++ {
		if s[v>>6]>>(uint(v)&63)&1 == 1 {
			return v
		}
	}
	for v := 0; v < 256; v++ {
		if s[v>>6]>>(uint(v)&63)&1 == 1 {
			return v
		}
	}
	return 0
}

func (e *Eng) inPrefix() bool { return e.nest == 0 && e.pi < len(e.prefix) }

func (e *Eng) nextDec() Dec {
	d := e.prefix[e.pi]
	e.pi++
	if d.At != e.curInstr {
		panic(pathAbort{k: abUnsupported, why: "prefix divergence"})
	}
	return d
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (e *Eng) branch(c *Term) bool {
	if c.IsConst() {
		return c.cv == 1
	}
	if c.Op == ONot {
		return !e.branch(c.args[0])
	}
	if v, ok := e.implied[c]; ok {
		return v
	}
	if e.inPrefix() {
		d := e.nextDec()
		e.decs = append(e.decs, d)
		v := d.V == 1
		lit := c
		if !v {
			lit = e.tt.Not(c)
		}
		if d.Forced {
			e.setImplied(lit, true)
		} else {
			e.assume(lit, nil)
		}
		return v
	}
	e.ensureModel()
	nc := e.tt.Not(c)
	vt, mt := e.feas(c)
	if vt == Unsat {
		e.setImplied(nc, true)
		e.recDec(Dec{V: 0, Forced: true})
		return false
	}
	vf, mf := e.feas(nc)
	if vf == Unsat {
		e.setImplied(c, true)
		e.recDec(Dec{V: 1, Forced: true})
		return true
	}
	e.st.Forks++
	e.pushChoice([]alt{{cond: nc, model: mf, dec: Dec{V: 0}, apply: func() { e.setImplied(c, false) }}})
	e.recDec(Dec{V: 1})
	e.assumeAlt(c, mt)
	return true
}

func (e *Eng) assumeAlt(c *Term, m *Model) {
	if m == nil {
		// solver could not produce a model (unknown): drop the cached one
		e.pc = append(e.pc, c)
		e.assumeFacts(c)
		e.model = nil
		return
	}
	e.assume(c, m)
}

func (e *Eng) recDec(d Dec) {
	if e.nest == 0 {
		if d.At == nil {
			d.At = e.curInstr
		}
		e.decs = append(e.decs, d)
	}
}

func (e *Eng) pushChoice(alts []alt) {
	for i := range alts {
		alts[i].dec.At = e.curInstr
	}
	ch := &choice{top: e.top, trailLen: e.instrTrail, factLen: len(e.trail), pcLen: len(e.pc), decLen: len(e.decs), inLen: len(e.inputs), ufLen: len(e.ufApps),
		obsLen: len(e.obs), ufN: e.ufN, steps: e.steps, alts: alts}
	e.choices = append(e.choices, ch)
	e.gen++
}

func (e *Eng) backtrack(base int) bool {
	for len(e.choices) > base {
		ch := e.choices[len(e.choices)-1]
		if ch.next >= len(ch.alts) {
			e.choices = e.choices[:len(e.choices)-1]
			continue
		}
		a := ch.alts[ch.next]
		ch.next++
		e.restore(ch)
		if ch.next >= len(ch.alts) {
			e.choices = e.choices[:len(e.choices)-1]
		}
		e.gen++
		e.recDec(a.dec)
		if a.cond != nil {
			e.assumeAlt(a.cond, a.model)
		} else {
			e.model = a.model
		}
		if a.apply != nil {
			a.apply()
		}
		return true
	}
	return false
}

func (e *Eng) restore(ch *choice) {
	e.undoState(ch.trailLen, ch.factLen)
	e.top = ch.top
	e.pc = e.pc[:ch.pcLen]
	if e.nest == 0 {
		e.decs = e.decs[:ch.decLen]
	}
	e.inputs = e.inputs[:ch.inLen]
	e.ufApps = e.ufApps[:ch.ufLen]
	e.ufN = ch.ufN
	e.obs = e.obs[:ch.obsLen]
	e.steps = ch.steps
}

// choose picks one of the alternatives; the chosen index is returned. cond may
// be nil for unconditional choices. dec values identify alternatives.
func (e *Eng) choose(conds []*Term, vals []uint64, apply func(i int)) {
	if e.inPrefix() {
		d := e.nextDec()
		e.decs = append(e.decs, d)
		for i, v := range vals {
			if v == d.V {
				if conds != nil && conds[i] != nil {
					if d.Forced {
						e.setImplied(conds[i], true)
					} else {
						e.assume(conds[i], nil)
					}
				}
				apply(i)
				return
			}
		}
		panic(pathAbort{k: abUnsupported, why: "prefix divergence"})
	}
	if conds == nil {
		var alts []alt
		for i := 1; i < len(vals); i++ {
			i := i
			alts = append(alts, alt{model: e.model, dec: Dec{V: vals[i]}, apply: func() { apply(i) }})
		}
		if len(alts) > 0 {
			e.st.Forks++
			e.pushChoice(alts)
		}
		e.recDec(Dec{V: vals[0]})
		apply(0)
		return
	}
	e.ensureModel()
	type fe struct {
		i int
		m *Model
	}
	var fs []fe
	for i, c := range conds {
		v, m := e.feas(c)
		if v != Unsat {
			fs = append(fs, fe{i, m})
		}
	}
	if len(fs) == 0 {
		panic(pathAbort{k: abUnsupported, why: "no feasible alternative"})
	}
	if len(fs) == 1 {
		i := fs[0].i
		e.setImplied(conds[i], true)
		e.recDec(Dec{V: vals[i], Forced: true})
		apply(i)
		return
	}
	e.st.Forks++
	var alts []alt
	for _, f := range fs[1:] {
		f := f
		alts = append(alts, alt{cond: conds[f.i], model: f.m, dec: Dec{V: vals[f.i]}, apply: func() { apply(f.i) }})
	}
	e.pushChoice(alts)
	e.recDec(Dec{V: vals[fs[0].i]})
	e.assumeAlt(conds[fs[0].i], fs[0].m)
	apply(fs[0].i)
}

// concretize enumerates all feasible values of t and forks over them. Because a
// fork restarts the current instruction, the chosen value is remembered.
func (e *Eng) concretize(t *Term) uint64 {
	if t.Op == OConst {
		return t.cv
	}
	if v, ok := e.concr[t]; ok {
		return v
	}
	note := func(v uint64) {
		e.concr[t] = v
		e.trailFact(func() { delete(e.concr, t) })
	}
	if e.inPrefix() {
		d := e.nextDec()
		e.decs = append(e.decs, d)
		c := e.tt.Eq(t, e.tt.Const(t.W, d.V))
		if d.Forced {
			e.setImplied(c, true)
		} else {
			e.assume(c, nil)
		}
		note(d.V)
		return d.V
	}
	e.ensureModel()
	type fe struct {
		v uint64
		m *Model
	}
	var fs []fe
	const limit = 300
	if isConstTree(t) {
		seen := map[uint64]bool{}
		var leaves func(x *Term)
		leaves = func(x *Term) {
			if x.Op == OIte {
				leaves(x.args[1])
				leaves(x.args[2])
				return
			}
			seen[x.cv] = true
		}
		leaves(t)
		for v := range seen {
			fs = append(fs, fe{v: v})
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].v < fs[j].v })
		k := 0
		for _, f := range fs {
			vd, m := e.feas(e.tt.Eq(t, e.tt.Const(t.W, f.v)))
			if vd != Unsat {
				fs[k] = fe{f.v, m}
				k++
			}
		}
		fs = fs[:k]
	} else {
		excl := e.tt.t
		m := e.model
		if m == nil {
			e.unsupported("concretisation without model")
		}
		for {
			v := m.Eval(t)
			fs = append(fs, fe{v, m})
			if len(fs) > limit {
				e.unsupported(fmt.Sprintf("more than %d values for a concretised term", limit))
			}
			excl = e.tt.And(excl, e.tt.Not(e.tt.Eq(t, e.tt.Const(t.W, v))))
			e.st.FeasQ++
			e.checkDeadline()
			vd, nm := e.sol.Check(e, e.pc, excl, true)
			if vd == Unsat {
				break
			}
			if vd == Unknown {
				e.unsupported("solver gave no verdict while enumerating values")
			}
			m = nm
		}
		sort.Slice(fs, func(i, j int) bool { return sx(fs[i].v, t.W) < sx(fs[j].v, t.W) })
	}
	if len(fs) == 0 {
		e.unsupported("no feasible value")
	}
	if len(fs) == 1 {
		c := e.tt.Eq(t, e.tt.Const(t.W, fs[0].v))
		e.setImplied(c, true)
		e.recDec(Dec{V: fs[0].v, Forced: true})
		note(fs[0].v)
		return fs[0].v
	}
	e.st.Forks++
	var alts []alt
	for _, f := range fs[1:] {
		f := f
		alts = append(alts, alt{cond: e.tt.Eq(t, e.tt.Const(t.W, f.v)), model: f.m, dec: Dec{V: f.v}, apply: func() { note(f.v) }})
	}
	e.pushChoice(alts)
	e.recDec(Dec{V: fs[0].v})
	e.assumeAlt(e.tt.Eq(t, e.tt.Const(t.W, fs[0].v)), fs[0].m)
	note(fs[0].v)
	return fs[0].v
}

func (e *Eng) concInt(v Value) int {
	t := v.(*Term)
	return int(sx(e.concretize(t), t.W))
}

func (e *Eng) checkDeadline() {
	if !e.deadline.IsZero() && time.Now().After(e.deadline) {
		panic(pathAbort{k: abDeadline, why: "time budget"})
	}
}

// ---------------------------------------------------------------- exploration

type outcome struct {
	k    abortKind
	why  string
	ret  Value
	conc bool
}

// execUntilEnd runs the current path to its end (return of the base frame or abort).
func (e *Eng) execUntilEnd() (out outcome) {
	defer func() {
		if r := recover(); r != nil {
			if pa, ok := r.(pathAbort); ok {
				out = outcome{k: pa.k, why: pa.why, conc: pa.conc}
				return
			}
			if os.Getenv("GOSMT_DEBUG") != "" {
				panic(r)
			}
			loc := ""
			if e.curInstr != nil && e.curInstr.Parent() != nil {
				loc = e.curInstr.Parent().String() + ": " + e.curInstr.String()
			}
			out = outcome{k: abUnsupported, why: fmt.Sprintf("internal: %v at %s", r, loc)}
		}
	}()
	e.run()
	return outcome{k: abEnd, ret: e.retVal}
}

// explore runs all paths above the current choice base.
func (e *Eng) explore(onEnd func(outcome) bool) {
	base := len(e.choices)
	for {
		out := e.execUntilEnd()
		if !onEnd(out) {
			return
		}
		if !e.backtrack(base) {
			return
		}
	}
}

type job struct {
	harness string
	prefix  []Dec
}

// runJob explores a harness (sub)tree. share is called between paths to give work away.
func (e *Eng) runJob(j job, fn *ssa.Function, share func(e *Eng)) {
	e.harness = j.harness
	tmark := len(e.trail)
	e.inputs = e.inputs[:0]
	e.ufApps = e.ufApps[:0]
	e.obs = e.obs[:0]
	e.ufN = 0
	e.pc = e.pc[:0]
	e.genCtr++
	e.model = &Model{gen: e.genCtr}
	e.decs = e.decs[:0]
	e.prefix = j.prefix
	e.pi = 0
	e.choices = e.choices[:0]
	e.nest = 0
	e.steps = 0
	e.gen++
	e.top = nil
	e.instrTrail = len(e.trail)
	e.pushFrame(fn, nil, nil, -1)
	e.top.base = true
	e.explore(func(o outcome) bool {
		e.st.Paths++
		switch o.k {
		case abEnd:
			e.st.Ended++
			e.pathDone()
		case abAssume:
			e.st.AssumedOut++
		case abUnsupported:
			e.st.Unsupported++
			e.unsup[o.why]++
		case abSteps, abDepth:
			e.st.StepLimit++
			e.nonTermination(o.why)
		case abPanic:
			e.st.Ended++
			e.panicViolation(o.why)
		case abViolation:
			e.st.Ended++
		case abDeadline:
			e.unsup["time budget exhausted"]++
			return false
		}
		if !e.deadline.IsZero() && time.Now().After(e.deadline) && len(e.choices) > 0 {
			e.unsup["time budget exhausted"]++
			return false
		}
		if share != nil {
			share(e)
		}
		return true
	})
	e.choices = e.choices[:0]
	e.undoTo(tmark)
}

// split removes one alternative from the bottom-most open choice.
func (e *Eng) split() (job, bool) {
	for _, ch := range e.choices {
		if ch.next < len(ch.alts) {
			a := ch.alts[len(ch.alts)-1]
			if ch.next == len(ch.alts)-1 && ch == e.choices[len(e.choices)-1] {
				// last alternative of the top choice: still fine to give away
			}
			ch.alts = ch.alts[:len(ch.alts)-1]
			p := make([]Dec, 0, ch.decLen+1)
			p = append(p, e.decs[:ch.decLen]...)
			p = append(p, a.dec)
			return job{e.harness, p}, true
		}
	}
	return job{}, false
}

func (e *Eng) openAlts() int {
	n := 0
	for _, ch := range e.choices {
		n += len(ch.alts) - ch.next
	}
	return n
}

// pathDone confirms the finished path with the solver and keeps a sample.
func (e *Eng) pathDone() {
	e.sampleN++
	keep := len(e.samples) < e.L.maxSamples || e.sampleN%97 == 0
	if !keep {
		return
	}
	e.st.ConfirmQ++
	v, m := e.sol.Check(e, e.pc, nil, true)
	if v != Sat {
		if v == Unsat {
			e.unsup["engine: finished path has unsatisfiable condition"]++
		}
		return
	}
	ps := PathSample{Inputs: e.concInputs(m)}
	for _, o := range e.obs {
		s, ok := e.renderObs(o, m)
		if !ok {
			return
		}
		ps.Obs = append(ps.Obs, s)
	}
	if len(e.samples) < e.L.maxSamples {
		e.samples = append(e.samples, ps)
	} else {
		e.samples[e.sampleN/97%e.L.maxSamples] = ps
	}
}

func (e *Eng) renderObs(o obsRec, m *Model) (string, bool) {
	switch x := o.v.(type) {
	case *Term:
		v := m.Eval(x)
		if x.W == 0 {
			return fmt.Sprintf("%s=%v", o.tag, v == 1), true
		}
		return fmt.Sprintf("%s=%d", o.tag, sx(v, x.W)), true
	case *Str:
		if x.op != nil {
			return "", false
		}
		b := make([]byte, x.Len())
		for i, t := range e.strBytes(x) {
			b[i] = byte(m.Eval(t))
		}
		return fmt.Sprintf("%s=%q", o.tag, b), true
	}
	return "", false
}

func (e *Eng) concInputs(m *Model) []RInput {
	var r []RInput
	for i, in := range e.inputs {
		if in.kind == "free" { // not an input of the harness
			continue
		}
		ri := RInput{Kind: in.kind}
		switch in.kind {
		case "choose":
			ri.Val = in.val
		case "pred":
			for p, v := range m.uf {
				if p.id == uint64(in.uf) && v {
					ri.Tab = append(ri.Tab, [2]int64{sx(p.arg, 32), 1})
				}
			}
			sort.Slice(ri.Tab, func(a, b int) bool { return ri.Tab[a][0] < ri.Tab[b][0] })
		default:
			ri.Val = m.val(i) & mask(in.t.W)
		}
		r = append(r, ri)
	}
	return r
}

// report records a violation candidate with the model m.
func (e *Eng) report(kind, label, detail string, m *Model, extra *Term) {
	key := kind + "|" + label
	if kind == "panic" {
		key = "panic|" + label + "|" + trimDigits(detail)
	}
	if e.violSeen[key] {
		return
	}
	e.violSeen[key] = true
	e.viol = append(e.viol, Violation{Harness: e.harness, Label: label, Kind: kind, Inputs: e.concInputs(m), Detail: detail, Query: dumpQuery(e.pc, extra)})
}

func trimDigits(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return -1
		}
		return r
	}, s)
}

func (e *Eng) confirmPath() *Model {
	e.st.ConfirmQ++
	v, m := e.sol.Check(e, e.pc, nil, true)
	if v == Sat {
		return m
	}
	if v == Unknown {
		e.unsup["solver gave no verdict on a path condition"]++
	}
	return nil
}

func (e *Eng) panicViolation(why string) {
	if e.violSeen["panic|"+"no panic"+"|"+trimDigits(why)] {
		return
	}
	if m := e.confirmPath(); m != nil {
		e.report("panic", "no panic", why, m, nil)
	}
}

func (e *Eng) nonTermination(why string) {
	if e.violSeen["hang|termination"] {
		return
	}
	if m := e.confirmPath(); m != nil {
		e.report("hang", "termination", why, m, nil)
	}
}

func (e *Eng) assertStat(label string) *AssertStat {
	a := e.asserts[label]
	if a == nil {
		a = &AssertStat{}
		e.asserts[label] = a
	}
	return a
}

func (e *Eng) doAssert(c *Term, label string) {
	if e.inPrefix() {
		e.setImplied(c, true)
		return
	}
	a := e.assertStat(label)
	a.Reached++
	if c.IsTrue() {
		a.Trivial++
		return
	}
	if v, ok := e.implied[c]; ok && v {
		a.Trivial++
		return
	}
	if c.IsFalse() {
		if e.violSeen["assert|"+label] {
			panic(pathAbort{k: abViolation, why: label})
		}
		if m := e.confirmPath(); m != nil {
			a.Solver++
			e.report("assert", label, "assertion is false on this path", m, nil)
		}
		panic(pathAbort{k: abViolation, why: label})
	}
	if e.sepDecide(c) == 1 {
		a.Trivial++
		e.setImplied(c, true)
		return
	}
	nc := e.tt.Not(c)
	if debugA {
		println(label, c.str(8))
		for _, p := range e.pc {
			println("   pc", p.str(8))
		}
	}
	e.st.AssertQ++
	v, m := e.sol.Check(e, e.pc, nc, true)
	if e.L.xcheck && (v == Unsat) && len(e.xcheck) < e.L.xcheckMax {
		e.xcheckN++
		if e.xcheckN&(e.xcheckN-1) == 0 || e.xcheckN%50 == 0 {
			e.xcheck = append(e.xcheck, dumpQuery(e.pc, nc))
		}
	}
	switch v {
	case Unsat:
		a.Solver++
		e.setImplied(c, true)
	case Sat:
		a.Solver++
		e.report("assert", label, "solver found a counterexample", m, nc)
		// continue on the part of the path where the assertion holds
		v2, m2 := e.feas(c)
		if v2 == Unsat {
			panic(pathAbort{k: abViolation, why: label})
		}
		e.assumeAlt(c, m2)
	default:
		a.Unknown++
	}
}

func (e *Eng) doAssume(c *Term) {
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		panic(pathAbort{k: abAssume})
	}
	if v, ok := e.implied[c]; ok {
		if v {
			return
		}
		panic(pathAbort{k: abAssume})
	}
	if e.inPrefix() {
		e.pc = append(e.pc, c)
		e.assumeFacts(c)
		if e.model != nil && e.model.Eval(c) != 1 {
			e.model = nil
		}
		return
	}
	e.ensureModel()
	v, m := e.feas(c)
	if v == Unsat {
		panic(pathAbort{k: abAssume})
	}
	e.assumeAlt(c, m)
}

var debugA = os.Getenv("DEBUGA") != ""
