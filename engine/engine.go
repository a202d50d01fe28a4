package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Options struct {
	workers   int
	maxPaths  int64
	maxSteps  int64
	concLimit int
	memLimit  int64
	timeout   time.Duration
	solverTmo int
	tier      string
	verbose   bool
	params    map[string]string
	montFull  bool
	maxDec    int
}

type Engine struct {
	*Program
	opt   Options
	stats Stats

	hname string
	hfn   *ssa.Function

	qmu   sync.Mutex
	qcond *sync.Cond
	queue []Item
	busy  int
	stop  bool

	hangs, paths, okPaths, assumeEnd, panics, unsup, limits, bounded int64
	asserts                                                          map[string]int64
	dischargedN                                                      int64
	reach                                                            map[string]int64
	notes                                                            map[string]int64
	incomplete                                                       map[string]int64
	fnset                                                            sync.Map
	mu                                                               sync.Mutex
	cands                                                            []*Cand
	deadline                                                         time.Time
	maxStepsSeen                                                     int64
	maxNondet                                                        int
	samples                                                          []string
	onViol                                                           func(c *Cand) bool // returns true to stop
	rng                                                              *rand.Rand
	sampleN, sampleSeen                                              int
	sampleC                                                          []*Cand
	forks                                                            map[string]int64
	decisions, stepsN                                                int64
}

// Cand is a candidate counterexample.
type Cand struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Values  []CandValue       `json:"values"`
	Where   string            `json:"where,omitempty"`
	Params  map[string]string `json:"params,omitempty"`
	Tier    string            `json:"tier"`
	Hang    bool              `json:"hang,omitempty"` // the run must not end
}

type CandValue struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Int    uint64 `json:"int,omitempty"`
	Hex    string `json:"hex,omitempty"`
	Lit    string `json:"lit,omitempty"`
	Script []int  `json:"script,omitempty"` // for tamper: triples kind,a: 0 lit v | 1 copy j | 2 xor v at same index
}

type Worker struct {
	solver *Solver
	id     int
}

func NewEngine(p *Program, h string, opt Options) *Engine {
	e := &Engine{Program: p, opt: opt, hname: h, hfn: p.harness[h],
		asserts: map[string]int64{}, reach: map[string]int64{}, notes: map[string]int64{}, incomplete: map[string]int64{}, forks: map[string]int64{}}
	e.qcond = sync.NewCond(&e.qmu)
	return e
}

func (e *Engine) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	e.mu.Unlock()
}
func (e *Engine) noteIncomplete(s string) {
	e.mu.Lock()
	e.incomplete[s]++
	e.mu.Unlock()
}
func (e *Engine) noteUnknown() { e.noteIncomplete("solver returned unknown (treated as feasible)") }
func (e *Engine) assertSeen(s string) {
	e.mu.Lock()
	e.asserts[s]++
	e.mu.Unlock()
}
func (e *Engine) addSimpl()   { atomic.AddInt64(&e.stats.Simplified, 1) }
func (e *Engine) discharged() { atomic.AddInt64(&e.dischargedN, 1) }
func (e *Engine) encoded(fn *ssa.Function) {
	if _, ok := e.fnset.Load(fn); !ok {
		e.fnset.Store(fn, true)
	}
}

func (e *Engine) pushItem(it Item) {
	e.qmu.Lock()
	e.queue = append(e.queue, it)
	e.qmu.Unlock()
	e.qcond.Signal()
}

func (e *Engine) setStop() {
	e.qmu.Lock()
	e.stop = true
	e.qmu.Unlock()
	e.qcond.Broadcast()
}

func (e *Engine) Run() {
	e.deadline = time.Now().Add(e.opt.timeout)
	e.queue = []Item{{model: Model{}}}
	var wg sync.WaitGroup
	for i := 0; i < e.opt.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &Worker{solver: NewSolver("z3-new", e.opt.solverTmo, "-in"), id: i}
			defer w.solver.Close()
			nth, seed := 0, uint64(i+1)*0x9e3779b97f4a7c15
			for {
				e.qmu.Lock()
				for len(e.queue) == 0 && e.busy > 0 && !e.stop {
					e.qcond.Wait()
				}
				if e.stop || len(e.queue) == 0 {
					e.qmu.Unlock()
					e.qcond.Broadcast()
					return
				}
				l := len(e.queue) - 1
				if nth++; nth%3 == 0 && l > 0 {
					// not only depth first: spread over the alternatives
					seed ^= seed << 13
					seed ^= seed >> 7
					seed ^= seed << 17
					k := int(seed % uint64(l+1))
					e.queue[k], e.queue[l] = e.queue[l], e.queue[k]
				}
				it := e.queue[l]
				e.queue = e.queue[:l]
				e.busy++
				e.qmu.Unlock()
				e.runPath(w, it)
				e.qmu.Lock()
				e.busy--
				if time.Now().After(e.deadline) && !e.stop {
					if len(e.queue) > 0 || e.busy > 0 {
						e.stop = true
						e.mu.Lock()
						e.incomplete[fmt.Sprintf("time budget: %d queued path prefixes not explored", len(e.queue))]++
						e.mu.Unlock()
					}
				}
				if e.opt.maxPaths > 0 && atomic.LoadInt64(&e.paths) >= e.opt.maxPaths && !e.stop && (len(e.queue) > 0 || e.busy > 0) {
					e.stop = true
					e.mu.Lock()
					e.incomplete[fmt.Sprintf("path budget: %d queued path prefixes not explored", len(e.queue))]++
					e.mu.Unlock()
				}
				e.qmu.Unlock()
				e.qcond.Broadcast()
			}
		}(i)
	}
	wg.Wait()
}

func (e *Engine) runPath(w *Worker, it Item) {
	m := &Machine{eng: e, w: w, tb: NewTB(), item: it, vcons: map[uint32][]int32{}, oracM: map[string]*OracleCall{},
		axioms: map[[2]int32]*Term{}, globals: map[*ssa.Global]*Cell{}, counts: map[string]int{}, maxSteps: e.opt.maxSteps,
		natives: map[string]interface{}{}, reached: map[string]bool{}}
	m.model = make(Model, len(it.model))
	for k, v := range it.model {
		m.model[k] = v
	}
	atomic.AddInt64(&e.paths, 1)
	end := m.exec()
	switch end.kind {
	case endOK:
		atomic.AddInt64(&e.okPaths, 1)
	case endAssume, endInfeas:
		atomic.AddInt64(&e.assumeEnd, 1)
	case endUnsup:
		atomic.AddInt64(&e.unsup, 1)
		e.noteIncomplete("unsupported: " + end.msg)
	case endBound:
		atomic.AddInt64(&e.bounded, 1)
	case endLimit:
		atomic.AddInt64(&e.limits, 1)
		e.noteIncomplete("limit: " + end.msg)
		if strings.HasPrefix(end.msg, "step limit") || strings.HasPrefix(end.msg, "call depth") {
			m.hang(end.msg)
		}
	}
	e.mu.Lock()
	for r := range m.reached {
		e.reach[r]++
	}
	if m.steps > e.maxStepsSeen {
		e.maxStepsSeen = m.steps
	}
	if len(m.nondets) > e.maxNondet {
		e.maxNondet = len(m.nondets)
	}
	if end.kind == endOK && len(e.samples) < 3 {
		e.samples = append(e.samples, m.sample())
	}
	e.decisions += int64(len(m.trace) - len(m.item.prefix))
	e.stepsN += m.steps
	e.mu.Unlock()
	if end.kind == endOK && e.sampleN > 0 {
		e.mu.Lock()
		e.sampleSeen++
		k := len(e.sampleC)
		if k >= e.sampleN {
			k = e.rng.Intn(e.sampleSeen)
		}
		e.mu.Unlock()
		if k < e.sampleN {
			if c := m.pathCand(); c != nil {
				e.mu.Lock()
				if k >= len(e.sampleC) {
					e.sampleC = append(e.sampleC, c)
				} else {
					e.sampleC[k] = c
				}
				e.mu.Unlock()
			}
		}
	}
	if e.opt.verbose {
		fmt.Fprintf(os.Stderr, "path %d end=%d %s steps=%d dec=%d pc=%d\n", atomic.LoadInt64(&e.paths), end.kind, end.msg, m.steps, len(m.trace), len(m.pc))
	}
}

func (m *Machine) sample() string {
	var sb strings.Builder
	ev := m.evalerOf(m.model)
	for i, nd := range m.nondets {
		if i > 8 {
			sb.WriteString(" ...")
			break
		}
		fmt.Fprintf(&sb, "%s=", nd.name)
		if len(nd.ts) == 1 {
			fmt.Fprintf(&sb, "%d ", ev.eval(nd.ts[0])+nd.base)
		} else {
			var b []byte
			for _, t := range nd.ts {
				b = append(b, byte(ev.eval(t)))
			}
			h := hex.EncodeToString(b)
			if len(h) > 40 {
				h = h[:40] + ".."
			}
			fmt.Fprintf(&sb, "%s ", h)
		}
	}
	fmt.Fprintf(&sb, "| decisions=%d pc=%d", len(m.trace), len(m.pc))
	return sb.String()
}

func (m *Machine) exec() (end *pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *pathEnd:
				end = x
			case *goPanic:
				end = &pathEnd{kind: endPanic, msg: x.msg}
				m.handlePanic(x)
			case *exitPanic:
				end = &pathEnd{kind: endExit}
				m.eng.noteIncomplete("os.Exit outside a tool run")
			default:
				st := string(debug.Stack())
				if len(st) > 3000 {
					st = st[:3000]
				}
				where := ""
				for i := len(m.stack) - 1; i >= 0 && i > len(m.stack)-6; i-- {
					where += m.stack[i].String() + " < "
				}
				end = &pathEnd{kind: endUnsup, msg: fmt.Sprintf("engine error %v @ %s", r, where)}
				if m.eng.opt.verbose {
					fmt.Fprintln(os.Stderr, st)
				}
			}
		}
	}()
	m.callFn(m.eng.hfn, nil, nil, nil)
	return &pathEnd{kind: endOK}
}

func (m *Machine) handlePanic(g *goPanic) {
	defer func() {
		if r := recover(); r != nil {
			m.eng.note(fmt.Sprint("handlePanic: ", r))
		}
	}()
	atomic.AddInt64(&m.eng.panics, 1)
	// the path condition must be satisfiable
	m.violate(nil, "crash: "+g.msg+" in "+g.where)
}

// pathCand turns a completed path into concrete values.
func (m *Machine) pathCand() (c *Cand) {
	defer func() {
		if recover() != nil {
			c = nil
		}
	}()
	r, mod := m.solve(m.cone(m.pc...))
	if r != Sat {
		return nil
	}
	full := make(Model, len(m.model))
	for k, v := range m.model {
		full[k] = v
	}
	for k, v := range mod {
		full[k] = v
	}
	return m.eng.mkCand(m, full, m.pc, "")
}

// hang reports the first path of a harness that does not end within the limits.
func (m *Machine) hang(msg string) {
	if atomic.AddInt64(&m.eng.hangs, 1) > 1 || m.eng.onViol == nil {
		return
	}
	c := m.pathCand()
	if c == nil {
		return
	}
	c.Msg, c.Hang = "does not end: "+msg, true
	if m.eng.onViol(c) {
		m.eng.setStop()
	}
}

// violation turns a model into a candidate.
func (e *Engine) violation(m *Machine, mod Model, extra *Term, cs []*Term, msg string) {
	c := e.mkCand(m, mod, cs, msg)
	if e.onViol != nil {
		if e.onViol(c) {
			e.setStop()
		}
	}
}

func (e *Engine) mkCand(m *Machine, mod Model, cs []*Term, msg string) *Cand {
	c := &Cand{Harness: e.hname, Msg: msg, Params: e.opt.params, Tier: e.opt.tier}
	ev := m.evalerOf(mod)
	// tampered arrays: find bytes forced equal to original bytes
	for _, nd := range m.nondets {
		v := CandValue{Name: nd.name, Kind: nd.kind}
		switch nd.kind {
		case "fault":
			v.Lit = nd.lit
		case "bytes", "key", "tamper":
			b := make([]byte, len(nd.ts))
			for i, t := range nd.ts {
				b[i] = byte(ev.eval(t))
			}
			v.Hex = hex.EncodeToString(b)
			if nd.kind == "tamper" {
				v.Script = m.tamperScript(nd, ev, cs)
			}
		default:
			if len(nd.ts) > 0 {
				v.Int = ev.eval(nd.ts[0]) + nd.base
			} else {
				v.Int = nd.base
			}
		}
		c.Values = append(c.Values, v)
	}
	return c
}

// tamperScript expresses tampered bytes relative to the original ones.
func (m *Machine) tamperScript(nd Nondet, ev *evaler, cs []*Term) []int {
	tb := m.tb
	n := len(nd.ts)
	out := make([]int, 0, 2*n)
	ov := make([]byte, len(nd.orig))
	for i, t := range nd.orig {
		ov[i] = byte(ev.eval(t))
	}
	forced := func(i, j int) bool {
		e := tb.Eq(nd.ts[i], nd.orig[j])
		if e.op == OConst {
			return e.val != 0
		}
		r, _ := m.solve(append(append([]*Term{}, cs...), tb.Not(e)))
		return r == Unsat
	}
	prevJ := -2
	for i := 0; i < n; i++ {
		x := byte(ev.eval(nd.ts[i]))
		if nd.ts[i].op == OConst {
			out = append(out, 0, int(x))
			prevJ = -2
			continue
		}
		best := -1
		try := func(j int) bool {
			if j >= 0 && j < len(ov) && ov[j] == x && nd.orig[j].op != OConst && forced(i, j) {
				best = j
				return true
			}
			return false
		}
		if !try(prevJ+1) && !try(i) {
			cnt := 0
			for j := range ov {
				if j == i || j == prevJ+1 {
					continue
				}
				if ov[j] == x && cnt < 6 {
					cnt++
					if try(j) {
						break
					}
				}
			}
		}
		if best >= 0 {
			out = append(out, 1, best)
			prevJ = best
			continue
		}
		prevJ = -2
		if i < len(ov) && nd.orig[i].op != OConst {
			out = append(out, 2, int(x^ov[i]))
		} else {
			out = append(out, 0, int(x))
		}
	}
	return out
}

// ---- report ----

type HResult struct {
	Harness    string           `json:"harness"`
	Bound      string           `json:"bound,omitempty"`
	Paths      int64            `json:"paths"`
	Complete   int64            `json:"paths_completed"`
	Assumed    int64            `json:"paths_cut_by_assumption"`
	Bounded    int64            `json:"cut_at_decision_bound"`
	Panics     int64            `json:"paths_panicking"`
	Asserts    map[string]int64 `json:"assertions"`
	BySolver   int64            `json:"assertions_discharged_by_solver"`
	BySimpl    int64            `json:"assertions_discharged_by_simplifier"`
	Queries    int64            `json:"solver_queries"`
	CacheHits  int64            `json:"query_cache_hits"`
	SatN       int64            `json:"sat"`
	UnsatN     int64            `json:"unsat"`
	UnkN       int64            `json:"unknown"`
	SolverS    float64          `json:"solver_s"`
	WallS      float64          `json:"wall_s"`
	Decisions  int64            `json:"decisions"`
	Steps      int64            `json:"ssa_instructions"`
	MaxSteps   int64            `json:"max_ssa_instructions_on_a_path"`
	Reach      map[string]int64 `json:"reached"`
	Incomplete map[string]int64 `json:"reduced_bound,omitempty"`
	Notes      map[string]int64 `json:"notes,omitempty"`
	Functions  []string         `json:"functions_encoded"`
	Samples    []string         `json:"samples"`
	NonRepro   []string         `json:"non_reproducing,omitempty"`
}

func (e *Engine) Result(wall time.Duration) *HResult {
	r := &HResult{Harness: e.hname, Bound: e.hopts[e.hname]["bound"], Paths: e.paths, Complete: e.okPaths, Assumed: e.assumeEnd, Bounded: e.bounded, Panics: e.panics, Asserts: e.asserts,
		BySolver: e.dischargedN, BySimpl: e.stats.Simplified, Queries: e.stats.Queries, CacheHits: e.stats.CacheHits, SatN: e.stats.SatN, UnsatN: e.stats.UnsatN,
		UnkN: e.stats.UnkN, SolverS: float64(e.stats.SolverNS) / 1e9, WallS: wall.Seconds(), MaxSteps: e.maxStepsSeen, Decisions: e.decisions, Steps: e.stepsN, Reach: e.reach,
		Incomplete: e.incomplete, Notes: e.notes, Samples: e.samples}
	e.fnset.Range(func(k, _ interface{}) bool {
		r.Functions = append(r.Functions, k.(*ssa.Function).RelString(nil))
		return true
	})
	sort.Strings(r.Functions)
	for i := range r.Functions {
		r.Functions[i] = strings.ReplaceAll(r.Functions[i], modPath+"/", "")
	}
	return r
}

func (c *Cand) JSON() []byte {
	b, _ := json.MarshalIndent(c, "", " ")
	return b
}
