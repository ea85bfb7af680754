package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// HRes accumulates the results of one harness.
type HRes struct {
	name    string
	fn      *ssa.Function
	st      Stats
	unsup   map[string]int
	asserts map[string]*AssertStat
	covers  map[string]int
	viol    []Violation
	violKey map[string]bool
	samples []PathSample
	funcs   map[*ssa.Function]int64
	wall    time.Duration
	stop    bool
	started time.Time
	open    int
	done    bool
	xcheck  []string
	initErr map[string]bool
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type sched struct {
	mu     sync.Mutex
	cond   *sync.Cond
	queue  []job
	active int
	idle   int
	res    map[string]*HRes
	order  []*HRes
	known  func(h, label string) bool
}

func (s *sched) next(cur string) (job, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		if len(s.queue) > 0 {
			k := -1
			for i, j := range s.queue {
				if j.harness == cur {
					k = i
					break
				}
			}
			if k < 0 {
				// prefer the harness that is under way in the fewest workers
				k = 0
			}
			j := s.queue[k]
			s.queue = append(s.queue[:k], s.queue[k+1:]...)
			s.active++
			return j, true
		}
		if s.active == 0 {
			s.cond.Broadcast()
			return job{}, false
		}
		s.idle++
		s.cond.Wait()
		s.idle--
	}
}

func (s *sched) push(j job) {
	s.mu.Lock()
	s.queue = append(s.queue, j)
	s.res[j.harness].open++
	s.mu.Unlock()
	s.cond.Signal()
}

func (s *sched) finish(e *Eng, j job, d time.Duration) {
	s.mu.Lock()
	defer s.mu.Unlock()
	h := s.res[j.harness]
	s.active--
	h.open--
	h.wall += d
	addStats(&h.st, &e.st)
	for k, v := range e.unsup {
		h.unsup[k] += v
	}
	for k, v := range e.asserts {
		a := h.asserts[k]
		if a == nil {
			a = &AssertStat{}
			h.asserts[k] = a
		}
		a.Reached += v.Reached
		a.Trivial += v.Trivial
		a.Solver += v.Solver
		a.Unknown += v.Unknown
	}
	for k, v := range e.covers {
		h.covers[k] += v
	}
	for k, v := range e.funcs {
		h.funcs[k] += v
	}
	for _, v := range e.viol {
		if !s.known(j.harness, v.Label) && (v.Kind != "hang" || h.st.StepLimit+e.st.StepLimit >= maxHangs) {
			h.stop = true
		}
		k := v.Kind + "|" + v.Label
		if h.violKey[k] {
			continue
		}
		h.violKey[k] = true
		h.viol = append(h.viol, v)
	}
	for _, er := range e.initErr {
		h.initErr[er] = true
	}
	h.samples = append(h.samples, e.samples...)
	h.xcheck = append(h.xcheck, e.xcheck...)
	e.xcheck = nil
	s.cond.Broadcast()
}

func addStats(a, b *Stats) {
	a.Paths += b.Paths
	a.Ended += b.Ended
	a.AssumedOut += b.AssumedOut
	a.Unsupported += b.Unsupported
	a.StepLimit += b.StepLimit
	a.Infeasible += b.Infeasible
	a.Forks += b.Forks
	a.Merged += b.Merged
	a.Regions += b.Regions
	a.Instrs += b.Instrs
	a.DomDecided += b.DomDecided
	a.ModelDecided += b.ModelDecided
	a.FeasQ += b.FeasQ
	a.AssertQ += b.AssertQ
	a.ConfirmQ += b.ConfirmQ
}

type options struct {
	id, tier   string
	seed       int
	repo       string
	verif      string
	workers    int
	budget     time.Duration
	filter     *regexp.Regexp
	verbose    bool
	noReplay   bool
	noEvidence bool
	noSumm     bool
	noRegion   bool
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Println("usage: gosmt check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkCmd(os.Args[2:]))
	case "replay":
		os.Exit(replayCmd(os.Args[2:]))
	}
	fmt.Println("unknown command", os.Args[1])
	os.Exit(2)
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOWORK=") || strings.HasPrefix(kv, "GOPROXY=") || strings.HasPrefix(kv, "CGO_ENABLED=") || strings.HasPrefix(kv, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off", "GOPROXY=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local")
}

func checkCmd(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	o := &options{}
	var filter string
	var budget int
	fs.StringVar(&o.tier, "tier", envOr("VERIF_TIER", "quick"), "")
	fs.StringVar(&o.repo, "repo", "/repo", "")
	fs.StringVar(&o.verif, "verif", "/verif", "")
	fs.IntVar(&o.workers, "workers", 0, "")
	fs.IntVar(&budget, "budget", 0, "seconds")
	fs.StringVar(&filter, "harness", "", "")
	fs.BoolVar(&o.verbose, "v", false, "")
	fs.BoolVar(&o.noReplay, "noreplay", false, "")
	fs.BoolVar(&o.noEvidence, "noevidence", false, "")
	fs.BoolVar(&o.noSumm, "nosumm", false, "")
	fs.BoolVar(&o.noRegion, "noregion", false, "")
	if len(args) == 0 {
		fmt.Println("usage: gosmt check <property> [flags]")
		return 2
	}
	o.id = args[0]
	fs.Parse(args[1:])
	if filter != "" {
		o.filter = regexp.MustCompile(filter)
	}
	if o.workers == 0 {
		o.workers = runtime.NumCPU()
		if o.workers > 8 {
			o.workers = 8
		}
		if o.workers < 1 {
			o.workers = 1
		}
	}
	if budget == 0 {
		budget = 420
		if o.tier == "thorough" {
			budget = 3000
		}
	}
	o.budget = time.Duration(budget) * time.Second
	o.seed, _ = strconv.Atoi(envOr("VERIF_SEED", "1"))
	c := &check{o: o, t0: time.Now()}
	return c.run()
}

type check struct {
	o       *options
	t0      time.Time
	L       *Loaded
	s       *sched
	scratch string
	bin     string
	notes   []string
	known   []knownFinding
	solver  struct {
		q, sat, unsat, unknown, restarts int
		time                             time.Duration
		errs                             []string
	}
	solverName string
}

func (c *check) note(f string, a ...interface{}) {
	c.notes = append(c.notes, fmt.Sprintf(f, a...))
	fmt.Printf("note: "+f+"\n", a...)
}

func (c *check) run() int {
	o := c.o
	for _, kv := range goEnv() {
		i := strings.IndexByte(kv, '=')
		os.Setenv(kv[:i], kv[i+1:])
	}
	var err error
	if b, err := os.ReadFile(filepath.Join(o.verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &c.known); err != nil {
			c.note("known_findings.json: %v", err)
		}
	}
	c.scratch, err = os.MkdirTemp("", "gosmt")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(c.scratch)
	c.L, err = Load(o.repo, o.verif)
	if err != nil {
		// code that does not compile is no violation of a property
		c.note("cannot load: %v", err)
		c.evidence(nil, nil, nil)
		return 0
	}
	L := c.L
	L.thorough = o.tier == "thorough"
	if L.thorough {
		L.queryTimeoutMS = 60000
		L.maxSteps = 4000000
		L.xcheck = true
		L.xcheckMax = 40
	}
	L.exactQuote = o.id == "C36"
	if o.id == "C26" {
		L.maxSteps *= 4
	}
	if o.id == "C26" || o.id == "C33" || o.id == "C34" || o.id == "C35" {
		L.maxSteps *= 4 // the Lua grammar backtracks a lot
	}
	hs := L.harnesses(o.id)
	s := &sched{res: map[string]*HRes{}}
	c.s = s
	s.cond = sync.NewCond(&s.mu)
	s.known = func(h, label string) bool {
		_, ok := c.isKnown(h, label)
		return ok
	}
	for _, f := range hs {
		if o.filter != nil && !o.filter.MatchString(f.Name()) {
			continue
		}
		h := &HRes{name: f.Name(), fn: f, unsup: map[string]int{}, asserts: map[string]*AssertStat{}, covers: map[string]int{}, funcs: map[*ssa.Function]int64{}, violKey: map[string]bool{}, initErr: map[string]bool{}}
		s.res[h.name] = h
		s.order = append(s.order, h)
		s.queue = append(s.queue, job{harness: h.name})
		h.open = 1
	}
	if len(s.order) == 0 {
		c.note("no harness for %s", o.id)
	}
	loadT := time.Since(c.t0)
	deadline := c.t0.Add(o.budget)
	var wg sync.WaitGroup
	var smu sync.Mutex
	for w := 0; w < o.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e := NewEng(L)
			e.noSumm, e.noRegion = o.noSumm, o.noRegion
			defer e.sol.kill()
			cur := ""
			for {
				j, ok := s.next(cur)
				if !ok {
					break
				}
				h := s.res[j.harness]
				if j.harness != cur || e.tt.Size() > 3000000 {
					e.reset()
					cur = j.harness
				}
				e.clearStats()
				e.deadline = deadline
				t1 := time.Now()
				s.mu.Lock()
				stop := h.stop
				s.mu.Unlock()
				if !stop {
					e.runJob(j, h.fn, func(e *Eng) {
						s.mu.Lock()
						need := s.idle > len(s.queue)
						if h.stop {
							e.choices = e.choices[:0]
						} else {
							for _, v := range e.viol {
								if !s.known(h.name, v.Label) && (v.Kind != "hang" || e.st.StepLimit >= maxHangs) {
									h.stop = true
								}
							}
						}
						s.mu.Unlock()
						if need {
							if nj, ok := e.split(); ok {
								s.push(nj)
							}
						}
					})
				}
				s.finish(e, j, time.Since(t1))
			}
			smu.Lock()
			c.solver.q += e.sol.Queries
			c.solver.sat += e.sol.NSat
			c.solver.unsat += e.sol.NUnsat
			c.solver.unknown += e.sol.NUnknown
			c.solver.restarts += e.sol.Restarts
			c.solver.time += e.sol.Time
			c.solver.errs = append(c.solver.errs, e.sol.Errors...)
			c.solverName = e.sol.path
			smu.Unlock()
		}()
	}
	wg.Wait()
	exploreT := time.Since(c.t0) - loadT
	if o.verbose {
		fmt.Printf("load %.1fs explore %.1fs; solver: %d queries (%d sat %d unsat %d unknown) %.1fs restarts %d errs %v\n", loadT.Seconds(), exploreT.Seconds(),
			c.solver.q, c.solver.sat, c.solver.unsat, c.solver.unknown, c.solver.time.Seconds(), c.solver.restarts, first(c.solver.errs, 3))
		for _, h := range s.order {
			c.printH(h)
		}
	}
	// results
	var reported, knownSeen []string
	var replays []map[string]interface{}
	if !o.noReplay {
		if err := c.buildReplay(); err != nil {
			c.note("replay binary: %v", err)
		}
	}
	os.RemoveAll(filepath.Join(o.verif, "evidence", "replay", o.id))
	nv := 0
	exit := 0
	for _, h := range s.order {
		for _, v := range h.viol {
			if kf, ok := c.isKnown(h.name, v.Label); ok {
				ok, how := c.reproduce(v)
				if ok {
					line := fmt.Sprintf("KNOWN-FINDING: property=%s %s [%s: %s]", o.id, kf.What, h.name, v.Label)
					knownSeen = append(knownSeen, line)
					fmt.Println(line)
				} else {
					c.note("known finding %s/%s not reproduced: %s", h.name, v.Label, how)
				}
				continue
			}
			ok, how := c.reproduce(v)
			desc := fmt.Sprintf("%s: %s: %s (%s)", h.name, v.Label, v.Detail, how)
			if !ok {
				c.note("solver counterexample not reproduced against the compiled code, not reported: %s", desc)
				h.unsup["counterexample not reproduced: "+v.Label]++
				if o.verbose {
					b, _ := json.Marshal(v.Inputs)
					fmt.Println("   inputs", string(b))
				}
				continue
			}
			nv++
			p := c.writeReplay(nv, v, how)
			fmt.Printf("  %s\n", desc)
			fmt.Printf("VIOLATION property=%s replay=%s\n", o.id, p)
			reported = append(reported, desc)
			exit = 1
		}
	}
	validated, mism, sampleRep := c.validateSamples()
	if len(mism) > 0 {
		for _, m := range mism {
			if m.real {
				nv++
				p := c.writeReplay(nv, m.v, m.why)
				fmt.Printf("  %s\nVIOLATION property=%s replay=%s\n", m.why, o.id, p)
				reported = append(reported, m.why)
				exit = 1
			} else {
				c.note("symbolic path and compiled code disagree: %s", m.why)
			}
		}
	}
	_ = replays
	var xc map[string]interface{}
	if L.thorough {
		xc = c.crossCheck()
	}
	c.evidence(map[string]interface{}{
		"validated": validated, "samples": sampleRep, "xcheck": xc, "load_s": loadT.Seconds(), "explore_s": exploreT.Seconds(),
	}, reported, knownSeen)
	status := "held on everything explored"
	if exit == 1 {
		status = "VIOLATED"
	}
	inc := c.inconclusive()
	if len(inc) > 0 {
		fmt.Printf("inconclusive parts: %s\n", strings.Join(first(inc, 8), "; "))
	}
	var paths int64
	for _, h := range s.order {
		paths += h.st.Paths
	}
	fmt.Printf("%s %s: %s; %d harnesses, %d paths, %d solver queries, %d native replays, %.1fs\n", o.id, o.tier, status, len(s.order), paths, c.solver.q, validated, time.Since(c.t0).Seconds())
	return exit
}

func first(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// maxHangs is the number of paths over the step limit after which a harness is given up: a
// single one may as well be a read that is slow, which the replay then finds out.
const maxHangs = 8

func (c *check) isKnown(h, label string) (knownFinding, bool) {
	for _, k := range c.known {
		if k.Property == c.o.id && k.Status == "known" && k.Label == label && (k.Harness == "" || k.Harness == h) {
			return k, true
		}
	}
	return knownFinding{}, false
}

func (c *check) inconclusive() []string {
	var r []string
	for _, h := range c.s.order {
		if h.stop {
			continue
		}
		var ks []string
		for k, n := range h.unsup {
			ks = append(ks, fmt.Sprintf("%s: %s (%d paths)", h.name, k, n))
		}
		sort.Strings(ks)
		r = append(r, ks...)
		for l, a := range h.asserts {
			if a.Unknown > 0 {
				r = append(r, fmt.Sprintf("%s: %s: %d queries without verdict", h.name, l, a.Unknown))
			}
		}
		if h.st.Ended == 0 {
			r = append(r, h.name+": no path reached the end")
		}
	}
	if len(c.solver.errs) > 0 {
		r = append(r, fmt.Sprintf("%d solver errors, first: %s", len(c.solver.errs), c.solver.errs[0]))
	}
	return r
}

func (c *check) printH(h *HRes) {
	s := &h.st
	fmt.Printf("%-34s %6.2fs paths %d end %d assumed-out %d unsup %d steps %d | forks %d merged %d regions %d instrs %d | dom %d model %d feasQ %d assertQ %d\n", h.name, h.wall.Seconds(),
		s.Paths, s.Ended, s.AssumedOut, s.Unsupported, s.StepLimit, s.Forks, s.Merged, s.Regions, s.Instrs, s.DomDecided, s.ModelDecided, s.FeasQ, s.AssertQ)
	var ls []string
	for l, a := range h.asserts {
		ls = append(ls, fmt.Sprintf("      %-60s reached %d const %d solver %d unknown %d", l, a.Reached, a.Trivial, a.Solver, a.Unknown))
	}
	for l, n := range h.covers {
		ls = append(ls, fmt.Sprintf("      cover %-54s %d", l, n))
	}
	for l, n := range h.unsup {
		ls = append(ls, fmt.Sprintf("      UNSUPPORTED %s %d", l, n))
	}
	for l := range h.initErr {
		ls = append(ls, "      INIT "+l)
	}
	sort.Strings(ls)
	fmt.Println(strings.Join(ls, "\n"))
	for _, l := range c.unreached(h) {
		fmt.Println("      NOT REACHED:", l)
	}
	for _, v := range h.viol {
		fmt.Printf("      CANDIDATE %s %s: %s %s\n", v.Kind, v.Label, v.Detail, showInputs(v.Inputs))
	}
}

func showInputs(in []RInput) string {
	var b strings.Builder
	run := []byte{}
	flush := func() {
		if len(run) > 0 {
			fmt.Fprintf(&b, " %q", run)
			run = run[:0]
		}
	}
	for _, x := range in {
		if x.Kind == "byte" {
			run = append(run, byte(x.Val))
			continue
		}
		flush()
		switch x.Kind {
		case "pred":
			fmt.Fprintf(&b, " pred%v", x.Tab)
		default:
			fmt.Fprintf(&b, " %s:%d", x.Kind, int64(x.Val))
		}
	}
	flush()
	return strings.TrimSpace(b.String())
}

// unreached lists assertion and cover labels of the harness that no path reached.
func (c *check) unreached(h *HRes) []string {
	seen := map[*ssa.Function]bool{}
	labels := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || f.Pkg == nil || f.Pkg.Pkg.Path() != propsPath {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var rands [10]*ssa.Value
				for _, r := range in.Operands(rands[:0]) {
					if g, ok := (*r).(*ssa.Function); ok {
						walk(g)
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != vpPath {
					continue
				}
				var lv ssa.Value
				switch g.Name() {
				case "Assert":
					lv = ci.Common().Args[1]
				case "Cover":
					lv = ci.Common().Args[0]
				}
				if k, ok := lv.(*ssa.Const); ok {
					labels[strings.Trim(k.Value.ExactString(), `"`)] = true
				}
			}
		}
	}
	walk(h.fn)
	var r []string
	for l := range labels {
		if h.asserts[l] == nil && h.covers[l] == 0 {
			r = append(r, l)
		}
	}
	sort.Strings(r)
	return r
}

// ---------------------------------------------------------------- native replay

func (c *check) buildReplay() error {
	om, err := overlayMap(c.o.repo, c.o.verif)
	if err != nil {
		return err
	}
	var b bytes.Buffer
	b.WriteString("package main\n\nimport \"" + propsPath + "\"\n\nvar registry = map[string]func(){\n")
	for _, h := range c.s.order {
		fmt.Fprintf(&b, "\t%q: props.%s,\n", h.name, h.name)
	}
	b.WriteString("}\n\nvar _ = props.Keep\n")
	rf := filepath.Join(c.scratch, "registry.go")
	if err := os.WriteFile(rf, b.Bytes(), 0644); err != nil {
		return err
	}
	om[filepath.Join(c.o.repo, hdir, "replay", "registry.go")] = rf
	of, err := writeOverlay(c.scratch, om)
	if err != nil {
		return err
	}
	c.bin = filepath.Join(c.scratch, "replay")
	cmd := exec.Command("go", "build", "-overlay", of, "-o", c.bin, modPath+"/"+hdir+"/replay")
	cmd.Dir = c.o.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		c.bin = ""
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

type natCase struct {
	Harness  string   `json:"harness"`
	Thorough bool     `json:"thorough"`
	Inputs   []RInput `json:"inputs"`
}

type natRes struct {
	Failed []string `json:"failed"`
	Obs    []string `json:"obs"`
	Panic  string   `json:"panic"`
	Stop   string   `json:"stop"`
	ok     bool
}

// runNative runs cases in one process; how tells how the process ended.
func runNative(bin, scratch string, cs []natCase, timeout time.Duration) ([]natRes, string) {
	b, _ := json.Marshal(cs)
	f, err := os.CreateTemp(scratch, "case*.json")
	if err != nil {
		return nil, err.Error()
	}
	f.Write(b)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, f.Name())
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none")
	var out bytes.Buffer
	cmd.Stdout = &out
	var eb bytes.Buffer
	cmd.Stderr = &limitWriter{w: &eb, n: 1 << 16}
	err = cmd.Run()
	res := make([]natRes, len(cs))
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			p := strings.SplitN(l, " ", 3)
			i, _ := strconv.Atoi(p[1])
			if i < len(res) {
				if json.Unmarshal([]byte(p[2]), &res[i]) == nil {
					res[i].ok = true
				}
			}
		}
	}
	how := ""
	if ctx.Err() != nil {
		how = "does not terminate"
	} else if err != nil {
		if strings.Contains(out.String(), "MEMORY-LIMIT") {
			how = "memory exhausted"
		} else if strings.Contains(eb.String(), "stack overflow") || strings.Contains(eb.String(), "stack exceeds") {
			how = "stack overflow"
		} else {
			how = "crashed: " + err.Error() + " " + strings.SplitN(eb.String(), "\n", 2)[0]
		}
	}
	return res, how
}

type limitWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

func (c *check) reproduce(v Violation) (bool, string) {
	if c.bin == "" {
		return false, "no replay binary"
	}
	return judge(c.bin, c.scratch, v.Kind, v.Label, natCase{v.Harness, c.L.thorough, v.Inputs})
}

func judge(bin, scratch, kind, label string, nc natCase) (bool, string) {
	res, how := runNative(bin, scratch, []natCase{nc}, 20*time.Second)
	if len(res) == 0 {
		return false, how
	}
	if how != "" {
		return true, "replayed: " + how
	}
	r := res[0]
	if !r.ok {
		return false, "no result"
	}
	if r.Panic != "" {
		return true, "replayed: panic: " + r.Panic
	}
	if r.Stop != "" && len(r.Failed) == 0 {
		return false, "replay left the path: " + r.Stop
	}
	for _, f := range r.Failed {
		if f == label {
			return true, "replayed: assertion fails: " + f + "; " + strings.Join(r.Obs, " ")
		}
	}
	if len(r.Failed) > 0 {
		return true, "replayed: assertion fails: " + strings.Join(r.Failed, ", ")
	}
	return false, "assertion holds natively; " + strings.Join(r.Obs, " ")
}

func (c *check) writeReplay(n int, v Violation, how string) string {
	dir := filepath.Join(c.o.verif, "evidence", "replay", c.o.id)
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%d.json", n))
	m := map[string]interface{}{
		"property": c.o.id, "harness": v.Harness, "kind": v.Kind, "label": v.Label, "detail": v.Detail, "observed": how, "thorough": c.L.thorough,
		"inputs": v.Inputs, "shown": showInputs(v.Inputs), "query": v.Query,
		"rerun": "/verif/bin/gosmt replay " + p,
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(p, b, 0644)
	return p
}

func replayCmd(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var m struct {
		Property, Harness, Kind, Label string
		Thorough                       bool
		Inputs                         []RInput
	}
	if err := json.Unmarshal(b, &m); err != nil {
		fmt.Println(err)
		return 2
	}
	sc, _ := os.MkdirTemp("", "gosmt")
	defer os.RemoveAll(sc)
	c := &check{o: &options{repo: "/repo", verif: "/verif"}, scratch: sc, s: &sched{order: []*HRes{{name: m.Harness}}}}
	if err := c.buildReplay(); err != nil {
		fmt.Println(err)
		return 2
	}
	ok, how := judge(c.bin, sc, m.Kind, m.Label, natCase{m.Harness, m.Thorough, m.Inputs})
	fmt.Println(how)
	if ok {
		return 1
	}
	return 0
}

type mismatch struct {
	real bool
	why  string
	v    Violation
}

// validateSamples replays one model per sampled path natively and compares observations.
func (c *check) validateSamples() (int, []mismatch, []interface{}) {
	if c.bin == "" {
		return 0, nil, nil
	}
	var cs []natCase
	var want [][]string
	var rep []interface{}
	for _, h := range c.s.order {
		n := 0
		for _, s := range h.samples {
			if n >= 24 {
				break
			}
			n++
			cs = append(cs, natCase{h.name, c.L.thorough, s.Inputs})
			want = append(want, s.Obs)
			if n <= 2 && len(rep) < 24 {
				rep = append(rep, map[string]interface{}{"harness": h.name, "inputs": showInputs(s.Inputs), "observed": s.Obs})
			}
		}
	}
	if len(cs) == 0 {
		return 0, nil, rep
	}
	res, how := runNative(c.bin, c.scratch, cs, 60*time.Second)
	ok := 0
	var mm []mismatch
	for i := range cs {
		r := res[i]
		nc := cs[i]
		if !r.ok {
			mm = append(mm, mismatch{false, nc.Harness + ": native run of a path model gave no result: " + how + " inputs " + showInputs(nc.Inputs), Violation{}})
			break
		}
		isKnown := len(r.Failed) > 0
		for _, f := range r.Failed {
			if _, k := c.isKnown(nc.Harness, f); !k {
				isKnown = false
			}
		}
		if r.Panic != "" || (len(r.Failed) > 0 && !isKnown) {
			why := fmt.Sprintf("%s: native run of a path model fails: %s %v inputs %s", nc.Harness, r.Panic, r.Failed, showInputs(nc.Inputs))
			lab, kind := "no panic", "panic"
			if len(r.Failed) > 0 {
				lab, kind = r.Failed[0], "assert"
			}
			mm = append(mm, mismatch{true, why, Violation{Harness: nc.Harness, Label: lab, Kind: kind, Inputs: nc.Inputs, Detail: "found while validating a path"}})
			continue
		}
		if r.Stop != "" {
			mm = append(mm, mismatch{false, nc.Harness + ": native run left the path: " + r.Stop + " inputs " + showInputs(nc.Inputs), Violation{}})
			continue
		}
		if strings.Join(r.Obs, "\n") != strings.Join(want[i], "\n") {
			mm = append(mm, mismatch{false, fmt.Sprintf("%s: inputs %s: symbolic %v native %v", nc.Harness, showInputs(nc.Inputs), want[i], r.Obs), Violation{}})
			continue
		}
		ok++
	}
	return ok, mm, rep
}

// crossCheck runs recorded unsat queries through a second solver.
func (c *check) crossCheck() map[string]interface{} {
	var qs []string
	for _, h := range c.s.order {
		qs = append(qs, h.xcheck...)
	}
	if len(qs) > 160 {
		step := len(qs)/160 + 1
		var r []string
		for i := 0; i < len(qs); i += step {
			r = append(r, qs[i])
		}
		qs = r
	}
	var mu sync.Mutex
	agree, dis, unk := 0, 0, 0
	var wg sync.WaitGroup
	ch := make(chan string)
	for w := 0; w < c.o.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for q := range ch {
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				cmd := exec.CommandContext(ctx, "cvc5", "--lang=smt2", "-")
				cmd.Stdin = strings.NewReader(q)
				out, _ := cmd.Output()
				cancel()
				a := strings.TrimSpace(string(out))
				mu.Lock()
				switch {
				case strings.HasPrefix(a, "unsat"):
					agree++
				case strings.HasPrefix(a, "sat"):
					dis++
				default:
					unk++
				}
				mu.Unlock()
			}
		}()
	}
	for _, q := range qs {
		ch <- q
	}
	close(ch)
	wg.Wait()
	if dis > 0 {
		c.note("cvc5 disagrees with z3 on %d recorded queries", dis)
	}
	return map[string]interface{}{"solver": "cvc5", "queries": len(qs), "agree": agree, "disagree": dis, "no_verdict": unk}
}

// ---------------------------------------------------------------- evidence

func (c *check) evidence(x map[string]interface{}, reported, known []string) {
	if c.o.noEvidence {
		return
	}
	o := c.o
	var tot Stats
	fset := map[*ssa.Function]int64{}
	var hrep []interface{}
	var asrt, asrtSolver int
	bounds := []string{}
	if c.s != nil {
		for _, h := range c.s.order {
			addStats(&tot, &h.st)
			for f, n := range h.funcs {
				fset[f] += n
			}
			var labels []string
			for l, a := range h.asserts {
				labels = append(labels, fmt.Sprintf("%s: reached on %d paths, %d by the solver, %d constant on the path, %d no verdict", l, a.Reached, a.Solver, a.Trivial, a.Unknown))
				asrt += a.Reached
				asrtSolver += a.Solver
			}
			sort.Strings(labels)
			var un []string
			for k, n := range h.unsup {
				un = append(un, fmt.Sprintf("%s (%d)", k, n))
			}
			sort.Strings(un)
			hrep = append(hrep, map[string]interface{}{
				"harness": h.name, "bound": docOf(h.fn), "paths": h.st.Paths, "completed": h.st.Ended, "excluded_by_assumption": h.st.AssumedOut,
				"cpu_s": round(h.wall.Seconds()), "assertions": labels, "not_reached": c.unreached(h), "inconclusive": un,
			})
			bounds = append(bounds, h.name+": "+docOf(h.fn))
		}
	}
	var inRepo, other []string
	for f := range fset {
		n := f.String()
		if strings.Contains(n, modPath) && !strings.Contains(n, "/"+hdir+"/") {
			inRepo = append(inRepo, strings.ReplaceAll(n, modPath, "tok"))
		} else if !strings.Contains(n, "/"+hdir+"/") {
			other = append(other, n)
		}
	}
	sort.Strings(inRepo)
	sort.Strings(other)
	inc := []string{}
	if c.s != nil {
		inc = c.inconclusive()
	}
	cov := map[string]interface{}{
		"states":                        tot.Paths,
		"transitions":                   tot.Forks,
		"traces_validated_against_impl": 0,
		"samples":                       []interface{}{},
		"instructions_executed":         tot.Instrs,
		"functions_encoded":             inRepo,
		"library_functions_encoded":     other,
		"harnesses":                     hrep,
		"bounds":                        bounds,
		"assertions_reached":            asrt,
		"assertions_decided_by_solver":  asrtSolver,
		"queries": map[string]interface{}{"total": c.solver.q, "sat": c.solver.sat, "unsat": c.solver.unsat, "unknown": c.solver.unknown,
			"feasibility": tot.FeasQ, "assertion": tot.AssertQ, "path_confirmation": tot.ConfirmQ, "solver": c.solverName},
		"solver_time_s":              round(c.solver.time.Seconds()),
		"branches_decided_by_domain": tot.DomDecided,
		"branches_decided_by_model":  tot.ModelDecided,
		"merged_calls":               tot.Merged,
		"merged_regions":             tot.Regions,
		"inconclusive":               inc,
		"conclusive":                 len(inc) == 0 && len(c.notes) == 0,
		"notes":                      c.notes,
		"violations_found":           reported,
		"known_findings_seen":        known,
	}
	if x != nil {
		cov["traces_validated_against_impl"] = x["validated"]
		if s, ok := x["samples"].([]interface{}); ok && s != nil {
			cov["samples"] = s
		}
		if xc, ok := x["xcheck"].(map[string]interface{}); ok && xc != nil {
			cov["second_solver"] = xc
		}
		cov["load_s"] = round(x["load_s"].(float64))
		cov["explore_s"] = round(x["explore_s"].(float64))
	}
	ev := map[string]interface{}{
		"property": o.id, "tier": o.tier, "seed": o.seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.Since(c.t0).Seconds()),
		"violations": len(reported),
		"assumptions": []string{
			"the claim covers only the inputs within the bound stated per harness; longer texts, more sub-readers or segments are outside it",
			"go/ssa translates the sources as the compiler does; the executor's model of the Go memory and string operations (cross-checked by replaying path models natively) is trusted",
			"fmt, strings searches, utf8 and unicode tables are executed from their sources or from equivalent models in /verif/harness/model",
			"z3's verdicts are trusted (a sample is cross-checked with cvc5 in the thorough tier)",
		},
	}
	dir := filepath.Join(o.verif, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, o.id+".json"), append(b, '\n'), 0644)
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

// docOf is the comment of a harness, which states its bound.
func docOf(f *ssa.Function) string {
	if d, ok := f.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
		return strings.Join(strings.Fields(strings.TrimPrefix(d.Doc.Text(), f.Name())), " ")
	}
	return ""
}
