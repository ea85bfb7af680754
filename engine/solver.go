package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Verdict int

const (
	Unsat Verdict = iota
	Sat
	Unknown
)

// Solver drives one z3 process over a pipe. The assertion stack mirrors the
// path condition; terms are emitted once as global define-funs.
type Solver struct {
	path    string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	epoch   int32
	stack   []*Term
	decl    map[string]bool
	ndefs   int
	buf     strings.Builder
	timeout int // ms
	// statistics
	Queries, NSat, NUnsat, NUnknown int
	Time                            time.Duration
	Restarts                        int
	Errors                          []string
	slow                            time.Duration
}

var epochCounter int32

func NewSolver(timeoutMS int) *Solver {
	p := "/usr/local/bin/z3-new"
	if v := os.Getenv("GOSMT_Z3"); v != "" {
		p = v
	} else if _, err := os.Stat(p); err != nil {
		p = "z3"
	}
	s := &Solver{path: p, args: []string{"-in", "-smt2"}, timeout: timeoutMS}
	return s
}

func (s *Solver) start(epoch int32) error {
	s.kill()
	s.cmd = exec.Command(s.path, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.epoch = epoch
	s.stack = s.stack[:0]
	s.decl = map[string]bool{}
	s.ndefs = 0
	s.buf.Reset()
	s.Restarts++
	fmt.Fprintf(&s.buf, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :model.completion true)\n", s.timeout)
	return nil
}

func (s *Solver) kill() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) emit(t *Term) {
	if t.Op == OConst || t.def == s.epoch {
		return
	}
	if t.Op == OVar {
		fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", t.ref(), sortStr(t.W))
		t.def = s.epoch
		return
	}
	for i := 0; i < int(t.n); i++ {
		s.emit(t.args[i])
	}
	if t.Op == OUF {
		name := fmt.Sprintf("u%d", t.cv)
		if !s.decl[name] {
			s.decl[name] = true
			fmt.Fprintf(&s.buf, "(declare-fun %s (%s) Bool)\n", name, sortStr(t.args[0].W))
		}
	}
	if t.Op == OTab {
		tb := tables[t.cv]
		if !s.decl[tb.name] {
			s.decl[tb.name] = true
			s.buf.WriteString(tb.def)
		}
	}
	fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n", t.ref(), sortStr(t.W), t.body())
	t.def = s.epoch
	s.ndefs++
}

// Check decides pc ∧ extra. On Sat, fills the model for the given variables.
func (s *Solver) Check(e *Eng, pc []*Term, extra *Term, wantModel bool) (Verdict, *Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.slow {
			s.slow = d
		}
	}()
	s.Queries++
	if s.cmd == nil || s.ndefs > 60000 {
		e.epoch++
		if err := s.start(e.epoch); err != nil {
			s.Errors = append(s.Errors, err.Error())
			s.NUnknown++
			return Unknown, nil
		}
	}
	// sync stack
	common := 0
	for common < len(s.stack) && common < len(pc) && s.stack[common] == pc[common] {
		common++
	}
	if n := len(s.stack) - common; n > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", n)
		s.stack = s.stack[:common]
	}
	for _, t := range pc[common:] {
		s.emit(t)
		s.buf.WriteString("(push 1)\n(assert ")
		s.buf.WriteString(t.ref())
		s.buf.WriteString(")\n")
		s.stack = append(s.stack, t)
	}
	if extra != nil {
		s.emit(extra)
		s.buf.WriteString("(push 1)\n(assert ")
		s.buf.WriteString(extra.ref())
		s.buf.WriteString(")\n")
	}
	s.buf.WriteString("(check-sat)\n")
	if !s.flush() {
		return s.fail("write")
	}
	line, ok := s.readLine()
	if !ok {
		return s.fail("read")
	}
	var m *Model
	v := Unknown
	switch line {
	case "sat":
		v = Sat
		s.NSat++
		if wantModel {
			m = s.model(e)
			if m == nil {
				return s.fail("model")
			}
		}
	case "unsat":
		v = Unsat
		s.NUnsat++
	case "unknown", "timeout":
		s.NUnknown++
	default:
		return s.fail("unexpected reply: " + line)
	}
	if extra != nil {
		s.buf.WriteString("(pop 1)\n")
	}
	return v, m
}

func (s *Solver) fail(why string) (Verdict, *Model) {
	s.NUnknown++
	if len(s.Errors) < 20 {
		s.Errors = append(s.Errors, why)
	}
	s.kill()
	return Unknown, nil
}

func (s *Solver) flush() bool {
	if os.Getenv("GOSMT_TRACE") != "" {
		fmt.Fprint(os.Stderr, s.buf.String())
	}
	_, err := s.in.WriteString(s.buf.String())
	s.buf.Reset()
	if err != nil {
		return false
	}
	return s.in.Flush() == nil
}

func (s *Solver) readLine() (string, bool) {
	line, err := s.out.ReadString('\n')
	if err != nil {
		return "", false
	}
	return strings.TrimSpace(line), true
}

// model reads the values of all variables and predicate points of the engine.
func (s *Solver) model(e *Eng) *Model {
	e.genCtr++
	m := &Model{gen: e.genCtr, vals: make([]uint64, len(e.inputs))}
	var names []string
	var idx []int
	for i, in := range e.inputs {
		if in.t.def == s.epoch {
			names = append(names, in.t.ref())
			idx = append(idx, i)
		}
	}
	var ufs []*Term
	for _, u := range e.ufApps {
		if u.def == s.epoch {
			ufs = append(ufs, u)
			names = append(names, u.ref(), refArg(u))
		}
	}
	if len(names) == 0 {
		return m
	}
	s.buf.WriteString("(get-value (" + strings.Join(names, " ") + "))\n")
	if !s.flush() {
		return nil
	}
	// reply: ((x v) (x v) ...) possibly over several lines
	depth, started := 0, false
	var sb strings.Builder
	for !started || depth > 0 {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return nil
		}
		for _, c := range line {
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			}
		}
		sb.WriteString(line)
		if strings.Contains(line, "error") {
			s.Errors = append(s.Errors, strings.TrimSpace(line))
			return nil
		}
	}
	toks := strings.FieldsFunc(sb.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	if len(toks) != 2*len(names) {
		s.Errors = append(s.Errors, "model parse: "+sb.String())
		return nil
	}
	vals := make([]uint64, len(names))
	for i := range names {
		v, ok := parseVal(toks[2*i+1])
		if !ok {
			s.Errors = append(s.Errors, "value parse: "+toks[2*i+1])
			return nil
		}
		vals[i] = v
	}
	for k, i := range idx {
		m.vals[i] = vals[k]
	}
	if len(ufs) > 0 {
		m.uf = map[ufPoint]bool{}
		for k, u := range ufs {
			b := len(idx) + 2*k
			m.uf[ufPoint{u.cv, vals[b+1]}] = vals[b] == 1
		}
	}
	return m
}

func refArg(u *Term) string { return u.args[0].ref() }

func parseVal(s string) (uint64, bool) {
	switch {
	case s == "true":
		return 1, true
	case s == "false":
		return 0, true
	case strings.HasPrefix(s, "#x"):
		v, err := strconv.ParseUint(s[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(s, "#b"):
		v, err := strconv.ParseUint(s[2:], 2, 64)
		return v, err == nil
	}
	return 0, false
}

// dumpQuery renders a self-contained SMT-LIB2 script (for cross-checking and replay records).
func dumpQuery(pc []*Term, extra *Term) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	seen := map[*Term]bool{}
	ufd := map[string]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.Op == OConst || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OVar {
			fmt.Fprintf(&b, "(declare-const %s %s)\n", t.ref(), sortStr(t.W))
			return
		}
		for i := 0; i < int(t.n); i++ {
			rec(t.args[i])
		}
		if t.Op == OUF {
			n := fmt.Sprintf("u%d", t.cv)
			if !ufd[n] {
				ufd[n] = true
				fmt.Fprintf(&b, "(declare-fun %s (%s) Bool)\n", n, sortStr(t.args[0].W))
			}
		}
		if t.Op == OTab && !ufd[tables[t.cv].name] {
			ufd[tables[t.cv].name] = true
			b.WriteString(tables[t.cv].def)
		}
		fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", t.ref(), sortStr(t.W), t.body())
	}
	for _, t := range pc {
		rec(t)
		fmt.Fprintf(&b, "(assert %s)\n", t.ref())
	}
	if extra != nil {
		rec(extra)
		fmt.Fprintf(&b, "(assert %s)\n", extra.ref())
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}
