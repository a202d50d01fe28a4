package main

// Machine: one path's state, decisions, path condition, oracles.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type endKind int

const (
	endOK     endKind = iota
	endAssume         // assumption infeasible
	endUnsup          // engine limitation
	endPanic          // uncaught Go panic
	endExit           // os.Exit outside RunTool
	endLimit          // step/time limit
	endInfeas         // infeasible path discovered
	endStop
	endBound // stated bound on the number of data-dependent decisions
)

type pathEnd struct {
	kind endKind
	msg  string
}

type exitPanic struct{ code *Term }

type goPanic struct {
	val   Iface
	msg   string
	where string
	rt    bool
}

type Decision struct {
	val    uint64
	forced bool
	conc   bool
}

type Item struct {
	prefix []Decision
	model  Model
}

type Nondet struct {
	name string
	kind string // byte, bytes, int, bool, tamper, u32...
	ts   []*Term
	base uint64
	orig []*Term // for tamper
	lit  string
}

type OracleCall struct {
	dom   string
	parts [][]*Term
	words []*Term
	id    int
	flags int
	n     int
}

const (
	ofInj       = 1
	ofUnordered = 2
	ofMont      = 4
)

type Machine struct {
	free  int // data-dependent decisions taken
	eng   *Engine
	w     *Worker
	tb    *TB
	pc    []*Term
	pcv   [][]uint32
	vcons map[uint32][]int32

	item  Item
	pos   int
	trace []Decision
	model Model

	orac    []*OracleCall
	oracM   map[string]*OracleCall
	axioms  map[[2]int32]*Term
	globals map[*ssa.Global]*Cell
	nondets []Nondet
	counts  map[string]int
	toks    []token
	events  []string

	steps    int64
	maxSteps int64
	depth    int
	inTool   int
	stack    []*ssa.Function
	natives  map[string]interface{}
	reached  map[string]bool
	incompl  string
	bigs     *bigState
	recs     [][2]string
}

type token struct {
	bytes []*Term
	enc   string
	text  string
}

func (m *Machine) unsup(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if n := len(m.stack); n > 0 {
		var st []string
		for i := n - 1; i >= 0 && i >= n-6; i-- {
			st = append(st, m.stack[i].String())
		}
		s += " @ " + strings.Join(st, " < ")
	}
	panic(&pathEnd{kind: endUnsup, msg: s})
}

// ---- path condition ----

func (m *Machine) assertPC(c *Term) {
	if c.op == OConst {
		return
	}
	if c.op == OAnd {
		m.assertPC(c.a)
		m.assertPC(c.b)
		return
	}
	if c.op == ONot && c.a.op == OOr {
		m.assertPC(m.tb.Not(c.a.a))
		m.assertPC(m.tb.Not(c.a.b))
		return
	}
	for _, p := range m.pc {
		if p == c {
			return
		}
	}
	ix := int32(len(m.pc))
	m.pc = append(m.pc, c)
	var vs []uint32
	collectVars(c, map[*Term]bool{}, func(v *Term) {
		vs = append(vs, uint32(v.val))
		m.vcons[uint32(v.val)] = append(m.vcons[uint32(v.val)], ix)
	})
	m.pcv = append(m.pcv, vs)
}

// cone returns the constraints relevant to the given terms.
func (m *Machine) cone(ts ...*Term) []*Term {
	var out []*Term
	inC := map[int32]bool{}
	seenV := map[uint32]bool{}
	byDom := map[string][]*OracleCall{}
	inO := map[int]bool{}
	var work []uint32
	seenT := map[*Term]bool{}
	addT := func(t *Term) {
		collectVars(t, seenT, func(v *Term) {
			ix := uint32(v.val)
			if !seenV[ix] {
				seenV[ix] = true
				work = append(work, ix)
			}
		})
	}
	for _, t := range ts {
		addT(t)
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, ci := range m.vcons[v] {
			if !inC[ci] {
				inC[ci] = true
				out = append(out, m.pc[ci])
				addT(m.pc[ci])
			}
		}
		if o := m.tb.vinfo[v].orac; o != nil && !inO[o.id] {
			inO[o.id] = true
			if o.flags&ofInj != 0 {
				for _, w := range o.words {
					if w.w == 64 {
						out = append(out, m.tb.Not(m.tb.Eq(w, K(64, 0))))
					}
				}
			}
			// outputs of different hash functions do not collide either
			dom := o.dom
			if strings.HasPrefix(dom, "hash:") || strings.HasPrefix(dom, "hmac:") {
				dom = "H"
			}
			key := fmt.Sprintf("%s/%d", dom, o.n)
			for _, p := range byDom[key] {
				ax := m.axiom(p, o)
				if ax.op != OConst {
					out = append(out, ax)
					addT(ax)
				} else if ax.val == 0 {
					out = append(out, ax)
				}
			}
			byDom[key] = append(byDom[key], o)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (m *Machine) partsEq(a, b [][]*Term) *Term {
	if len(a) != len(b) {
		return tFalse
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return tFalse
		}
	}
	r := tTrue
	for i := range a {
		r = m.tb.And(r, m.tb.BytesEq(a[i], b[i]))
		if r == tFalse {
			return r
		}
	}
	return r
}

func (m *Machine) axiom(p, q *OracleCall) *Term {
	if p.id > q.id {
		p, q = q, p
	}
	k := [2]int32{int32(p.id), int32(q.id)}
	if t, ok := m.axioms[k]; ok {
		return t
	}
	eq := tFalse
	if p.dom == q.dom {
		eq = m.partsEq(p.parts, q.parts)
	}
	if p.dom == q.dom && p.flags&ofUnordered != 0 && len(p.parts) == 2 {
		eq = m.tb.Or(eq, m.partsEq(p.parts, [][]*Term{q.parts[1], q.parts[0]}))
	}
	same := tTrue
	diff := tTrue
	for i := range p.words {
		e := m.tb.Eq(p.words[i], q.words[i])
		same = m.tb.And(same, e)
		if (p.words[i].w == 64 || p.dom == "rand" && p.words[i].w == 32) && p.flags&ofInj != 0 {
			diff = m.tb.And(diff, m.tb.Not(e))
		}
	}
	t := m.tb.Ite(eq, same, diff)
	m.axioms[k] = t
	return t
}

func (m *Machine) Oracle(dom string, n int, flags int, parts [][]*Term) []*Term {
	var kb strings.Builder
	fmt.Fprintf(&kb, "%s|%d|", dom, n)
	if flags&ofUnordered != 0 && len(parts) == 2 {
		// canonical order by ids
		a, b := m.partKey(parts[0]), m.partKey(parts[1])
		if a > b {
			parts = [][]*Term{parts[1], parts[0]}
			a, b = b, a
		}
		kb.WriteString(a + "|" + b)
	} else {
		for _, p := range parts {
			kb.WriteString(m.partKey(p))
			kb.WriteByte('|')
		}
	}
	key := kb.String()
	o := m.oracM[key]
	if o == nil {
		cp := make([][]*Term, len(parts))
		for i := range parts {
			cp[i] = append([]*Term(nil), parts[i]...)
			for j := range cp[i] {
				cp[i][j] = m.tb.norm(cp[i][j])
			}
		}
		o = &OracleCall{dom: dom, parts: cp, id: len(m.orac), flags: flags, n: n}
		for i := 0; i < n; i += 8 {
			w := n - i
			if w > 8 {
				w = 8
			}
			lo, hi := uint64(0), mask(uint8(8*w))
			if flags&ofMont != 0 && i == 0 {
				// below 2^255; by default without a leading zero byte
				hi >>= 1
				if !m.eng.opt.montFull {
					lo = 1 << 56
				}
			}
			o.words = append(o.words, m.tb.Var(uint8(8*w), lo, hi, o))
		}
		m.orac = append(m.orac, o)
		m.oracM[key] = o
	}
	out := make([]*Term, n)
	for i := range out {
		w := o.words[i/8]
		k := uint64(w.w) - 8*uint64(i%8) - 8
		out[i] = m.tb.Extract(w, k, 8)
	}
	return out
}

func (m *Machine) partKey(p []*Term) string {
	var sb strings.Builder
	for _, t := range p {
		if t.op == OConst {
			fmt.Fprintf(&sb, "%02x", t.val)
		} else {
			fmt.Fprintf(&sb, "<%d>", t.id)
		}
	}
	return sb.String()
}

// ---- solving ----

func (m *Machine) modelSat(cs []*Term) (bool, *evaler) {
	e := m.evalerOf(m.model)
	for _, c := range cs {
		if e.eval(c) == 0 {
			return false, e
		}
	}
	// ranges of vars
	return true, e
}

func (m *Machine) solve(cs []*Term) (SatRes, Model) {
	r, mod, err := m.w.solver.Cached(&m.eng.stats, cs)
	if err != nil {
		m.eng.note("solver error: " + err.Error())
		r, mod, err = m.w.solver.Cached(&m.eng.stats, cs)
	}
	if r == Unknown {
		m.eng.noteUnknown()
	}
	return r, mod
}

func (m *Machine) merge(mod Model) {
	for k, v := range mod {
		m.model[k] = v
	}
}

// repair looks for a model of cone && c that changes only few input variables
// of the current model, which satisfies cone. It never decides "no".
func (m *Machine) repair(c *Term, cone []*Term) Model {
	var vars []*Term
	consts := map[uint64]bool{}
	seen := map[*Term]bool{}
	big := false
	var parts []*Term // bytes of oracle outputs
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || big {
			return
		}
		seen[t] = true
		if len(seen) > 4000 {
			big = true
			return
		}
		switch t.op {
		case OConst:
			if len(consts) < 200 {
				consts[t.val] = true
			}
			return
		case OVar:
			if m.tb.vinfo[uint32(t.val)].orac == nil && len(vars) < 24 {
				vars = append(vars, t)
			}
			return
		case OExtract:
			if t.a.op == OVar && m.tb.vinfo[uint32(t.a.val)].orac != nil {
				if t.w <= 8 && len(parts) < 6 {
					parts = append(parts, t)
				}
				return
			}
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	walk(c)
	if big || len(vars)+len(parts) == 0 {
		return nil
	}
	cands := func(v *Term) []uint64 {
		var cs []uint64
		add := func(x uint64) {
			if x >= v.umin && x <= v.umax {
				cs = append(cs, x)
			}
		}
		if v.w == 0 {
			return []uint64{0, 1}
		}
		if v.w <= 8 {
			for x := v.umin; x <= v.umax && x < 256; x++ {
				cs = append(cs, x)
			}
			return cs
		}
		ks := make([]uint64, 0, len(consts))
		for k := range consts {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		for _, k := range ks {
			add(k & mask(v.w))
			add((k + 1) & mask(v.w))
			add((k - 1) & mask(v.w))
			add(-k & mask(v.w))
		}
		add(0)
		add(v.umin)
		add(v.umax)
		add(v.umin + (v.umax-v.umin)/3)
		return cs
	}
	tries := 0
	try := func(ov Model) bool {
		e := m.evalerOf(m.model)
		e.ov = ov
		if e.eval(c) == 0 {
			return false
		}
		tries++
		for _, x := range cone {
			if e.eval(x) == 0 {
				return false
			}
		}
		return true
	}
	budget := 1500
	all := make([][]uint64, len(vars))
	for i, v := range vars {
		all[i] = cands(v)
		for _, x := range all[i] {
			if budget--; budget < 0 || tries > 12 {
				return nil
			}
			ov := Model{uint32(v.val): x}
			if try(ov) {
				return ov
			}
		}
	}
	for _, p := range parts {
		cur := m.evalerOf(m.model).variable(p.a)
		lo := p.val
		for x := uint64(0); x <= mask(p.w); x++ {
			if budget--; budget < 0 || tries > 12 {
				return nil
			}
			y := cur&^(mask(p.w)<<lo) | x<<lo
			if y < p.a.umin || y > p.a.umax {
				continue
			}
			ov := Model{uint32(p.a.val): y}
			if try(ov) {
				return ov
			}
		}
	}
	if len(vars) > 1 {
		h := uint64(len(m.trace))*0x9e3779b97f4a7c15 + 1
		for k := 0; k < 100 && tries <= 12; k++ {
			ov := Model{}
			for i, v := range vars {
				h ^= h << 13
				h ^= h >> 7
				h ^= h << 17
				if len(all[i]) > 0 && h>>60 < 12 {
					ov[uint32(v.val)] = all[i][(h>>20)%uint64(len(all[i]))]
				}
			}
			if try(ov) {
				return ov
			}
		}
	}
	return nil
}

// feasible checks PC && c, using the current model first.
func (m *Machine) feasible(c *Term, cone []*Term) (SatRes, Model) {
	if c.op == OConst {
		if c.val == 0 {
			return Unsat, nil
		}
		return Sat, nil
	}
	if ok, _ := m.modelSat(cone); ok {
		if mod := m.repair(c, cone); mod != nil {
			atomic.AddInt64(&m.eng.stats.Repaired, 1)
			return Sat, mod
		}
	}
	cs := append(append([]*Term{}, cone...), c)
	return m.solve(cs)
}

func (m *Machine) push(val uint64, conc bool, mod Model) {
	pre := make([]Decision, len(m.trace)+1)
	copy(pre, m.trace)
	pre[len(m.trace)] = Decision{val: val, conc: conc}
	nm := make(Model, len(m.model)+len(mod))
	for k, v := range m.model {
		nm[k] = v
	}
	for k, v := range mod {
		nm[k] = v
	}
	m.eng.pushItem(Item{prefix: pre, model: nm})
}

func (m *Machine) branch(c *Term) bool {
	if c.op == OConst {
		return c.val != 0
	}
	if m.pos < len(m.item.prefix) {
		d := m.item.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		if !d.forced {
			m.free++
		}
		if d.conc {
			panic(&pathEnd{kind: endUnsup, msg: "replay divergence (branch)"})
		}
		if !d.forced {
			if d.val != 0 {
				m.assertPC(c)
			} else {
				m.assertPC(m.tb.Not(c))
			}
		}
		return d.val != 0
	}
	m.pos++
	m.checkBound()
	nc := m.tb.Not(c)
	cone := m.cone(c)
	var rt, rf SatRes
	var mt, mf Model
	if ok, ev := m.modelSat(cone); ok {
		if ev.eval(c) != 0 {
			rt = Sat
		} else {
			rf = Sat
		}
	}
	if rt == Unknown {
		rt, mt = m.feasible(c, cone)
		if rt == Unsat && rf == Unknown {
			rf = Sat // PC is satisfiable
		}
	}
	if rf == Unknown {
		rf, mf = m.feasible(nc, cone)
	}
	if rt == Unsat && rf == Unsat {
		panic(&pathEnd{kind: endInfeas, msg: "infeasible path"})
	}
	if rt != Unsat && rf != Unsat {
		m.forkAt()
		m.free++
		m.push(0, false, mf)
		m.merge(mt)
		m.trace = append(m.trace, Decision{val: 1})
		m.assertPC(c)
		return true
	}
	if rt != Unsat {
		m.merge(mt)
		m.trace = append(m.trace, Decision{val: 1, forced: true})
		return true
	}
	m.merge(mf)
	m.trace = append(m.trace, Decision{val: 0, forced: true})
	return false
}

// checkBound ends paths that reach the bound on decisions or the time limit.
func (m *Machine) checkBound() {
	if m.eng.opt.maxDec > 0 && m.free >= m.eng.opt.maxDec {
		panic(&pathEnd{kind: endBound})
	}
	if time.Now().After(m.eng.deadline) {
		panic(&pathEnd{kind: endLimit, msg: "time budget reached inside a path"})
	}
}

// forkAt records where paths split (for diagnostics).
func (m *Machine) forkAt() {
	w := ""
	for i := len(m.stack) - 1; i >= 0 && i >= len(m.stack)-3; i-- {
		w += m.stack[i].String() + " < "
	}
	m.eng.mu.Lock()
	m.eng.forks[w]++
	m.eng.mu.Unlock()
}

// choose explores n alternatives without constraints.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.pos < len(m.item.prefix) {
		d := m.item.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		return int(d.val)
	}
	m.pos++
	for i := n - 1; i >= 1; i-- {
		m.push(uint64(i), true, nil)
	}
	m.trace = append(m.trace, Decision{val: 0, conc: true})
	return 0
}

func (m *Machine) concretize(t *Term, limit int) uint64 {
	if t.op == OConst {
		return t.val
	}
	if m.pos < len(m.item.prefix) {
		d := m.item.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		if !d.forced {
			m.free++
		}
		if !d.conc {
			panic(&pathEnd{kind: endUnsup, msg: "replay divergence (concretize)"})
		}
		if !d.forced {
			m.assertPC(m.tb.Eq(t, K(t.w, d.val)))
		}
		return d.val
	}
	m.pos++
	m.checkBound()
	cone := m.cone(t)
	type sol struct {
		v   uint64
		mod Model
	}
	var sols []sol
	cs := append([]*Term{}, cone...)
	if ok, ev := m.modelSat(cone); ok {
		v := ev.eval(t)
		sols = append(sols, sol{v, nil})
		cs = append(cs, m.tb.Not(m.tb.Eq(t, K(t.w, v))))
	}
	full := false
	for len(sols) < limit {
		var r SatRes
		var mod Model
		if len(sols) > 0 {
			more := tTrue
			for _, x := range sols {
				more = m.tb.And(more, m.tb.Not(m.tb.Eq(t, K(t.w, x.v))))
			}
			r, mod = m.feasible(more, cone)
			if r == Sat {
				full := make(Model, len(m.model)+len(mod))
				for k, v := range m.model {
					full[k] = v
				}
				for k, v := range mod {
					full[k] = v
				}
				mod = full
			}
		} else {
			r, mod = m.solve(cs)
		}
		if r == Unsat {
			full = true
			break
		}
		if r == Unknown {
			break
		}
		e := m.evalerOf(mod)
		v := e.eval(t)
		sols = append(sols, sol{v, mod})
		cs = append(cs, m.tb.Not(m.tb.Eq(t, K(t.w, v))))
	}
	if !full {
		m.eng.noteIncomplete(fmt.Sprintf("concretisation limit (%d values) in %s", limit, m.where()))
	}
	if len(sols) == 0 {
		panic(&pathEnd{kind: endInfeas, msg: "infeasible path"})
	}
	sort.Slice(sols, func(i, j int) bool { return sols[i].v < sols[j].v })
	for i := len(sols) - 1; i >= 1; i-- {
		m.push(sols[i].v, true, sols[i].mod)
	}
	m.merge(sols[0].mod)
	forced := len(sols) == 1 && full
	if !forced {
		m.forkAt()
		m.free++
	}
	m.trace = append(m.trace, Decision{val: sols[0].v, conc: true, forced: forced})
	if !forced {
		m.assertPC(m.tb.Eq(t, K(t.w, sols[0].v)))
	}
	return sols[0].v
}

func (m *Machine) concInt(t *Term) int {
	return int(int64(sx(m.concretize(t, m.eng.opt.concLimit), t.w)))
}

func (m *Machine) where() string {
	if n := len(m.stack); n > 0 {
		return m.stack[n-1].String()
	}
	return "?"
}

func (m *Machine) assume(c *Term) {
	if c.op == OConst {
		if c.val == 0 {
			panic(&pathEnd{kind: endAssume})
		}
		return
	}
	// treated like a branch where only the true side continues
	if m.pos < len(m.item.prefix) {
		d := m.item.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		m.assertPC(c)
		return
	}
	m.pos++
	cone := m.cone(c)
	if ok, ev := m.modelSat(cone); ok && ev.eval(c) != 0 {
	} else {
		r, mod := m.feasible(c, cone)
		if r == Unsat {
			panic(&pathEnd{kind: endAssume})
		}
		m.merge(mod)
	}
	m.trace = append(m.trace, Decision{val: 1})
	m.assertPC(c)
}

// assertProp checks the property c on this path.
func (m *Machine) assertProp(c *Term, msg string) {
	e := m.eng
	e.assertSeen(msg)
	if c.op == OConst && c.val != 0 {
		e.addSimpl()
		return
	}
	if m.pos < len(m.item.prefix) {
		d := m.item.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		if d.forced { // was violated unconditionally
			panic(&pathEnd{kind: endStop})
		}
		if d.val == 1 {
			m.assertPC(c)
		}
		return
	}
	m.pos++
	nc := m.tb.Not(c)
	cone := m.cone(nc)
	r, mod := m.feasible(nc, cone)
	switch r {
	case Unsat:
		e.discharged()
		m.trace = append(m.trace, Decision{val: 0})
		return
	case Unknown:
		e.noteIncomplete("solver unknown on assertion: " + msg)
		m.trace = append(m.trace, Decision{val: 1})
		m.assertPC(c)
		return
	}
	// violation
	save := m.model
	m.model = make(Model, len(save))
	for k, v := range save {
		m.model[k] = v
	}
	m.merge(mod)
	m.violate(nc, msg)
	m.model = save
	// continue on the side where it holds, if any
	r, mod = m.feasible(c, cone)
	if r == Unsat {
		panic(&pathEnd{kind: endStop})
	}
	m.merge(mod)
	m.trace = append(m.trace, Decision{val: 1})
	m.assertPC(c)
}

// violate records a counterexample: PC && extra is satisfiable.
func (m *Machine) violate(extra *Term, msg string) {
	// one full query for a consistent model of everything on this path
	var all []*Term
	for _, nd := range m.nondets {
		all = append(all, nd.ts...)
		all = append(all, nd.orig...)
	}
	if extra != nil {
		all = append(all, extra)
	}
	// everything on the path, with the axioms of every oracle it mentions
	all = append(all, m.pc...)
	cs := m.cone(all...)
	if extra != nil && extra.op != OConst {
		cs = append(cs, extra)
	}
	r, mod := m.solve(cs)
	if r != Sat {
		if r == Unsat {
			m.eng.discharged() // the slice was too small; the whole path excludes it
		} else {
			m.eng.noteIncomplete("unknown on full counterexample query: " + msg)
		}
		return
	}
	full := make(Model, len(m.model))
	for k, v := range m.model {
		full[k] = v
	}
	for k, v := range mod {
		full[k] = v
	}
	m.eng.violation(m, full, extra, cs, msg)
}

func (m *Machine) globalCell(g *ssa.Global) *Cell {
	if c, ok := m.globals[g]; ok {
		return c
	}
	et := g.Type().(*types.Pointer).Elem()
	c := &Cell{}
	m.globals[g] = c
	if f, ok := m.eng.globalOv[g.String()]; ok {
		// override: vxm global with same type
		src := m.globalCell(f)
		c.v = src.v
		return c
	}
	if f, ok := globalInit[g.String()]; ok {
		c.v = f(m, et)
		return c
	}
	c.v = zeroVal(et)
	m.initGlobal(g)
	return c
}
