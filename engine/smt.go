package main

// SMT-LIB printing and solver processes.

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unknown SatRes = iota
	Sat
	Unsat
)

type Stats struct {
	Queries, CacheHits, SatN, UnsatN, UnkN int64
	SolverNS                               int64
	Simplified, Repaired                   int64
}

type printer struct {
	sb    strings.Builder
	names map[*Term]string
	refs  map[*Term]int
	vars  []*Term
	n     int
}

func (p *printer) count(t *Term) {
	if t == nil || t.op == OConst {
		return
	}
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	if t.op == OVar {
		p.vars = append(p.vars, t)
		return
	}
	p.count(t.a)
	p.count(t.b)
	p.count(t.c)
}

func (p *printer) expr(t *Term) string {
	if t.op == OConst {
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.val)
		}
		return fmt.Sprintf("#b%0*b", t.w, t.val)
	}
	if n, ok := p.names[t]; ok {
		return n
	}
	var s string
	if t.op == OVar {
		s = "v" + strconv.FormatUint(t.val, 10)
		p.names[t] = s
		return s
	}
	bin := func(o string) string { return "(" + o + " " + p.expr(t.a) + " " + p.expr(t.b) + ")" }
	switch t.op {
	case ONot:
		s = "(not " + p.expr(t.a) + ")"
	case OAnd:
		s = bin("and")
	case OOr:
		s = bin("or")
	case OEq:
		s = bin("=")
	case OUlt:
		s = bin("bvult")
	case OSlt:
		s = bin("bvslt")
	case OBNot:
		s = "(bvnot " + p.expr(t.a) + ")"
	case OBAnd:
		s = bin("bvand")
	case OBOr:
		s = bin("bvor")
	case OBXor:
		s = bin("bvxor")
	case OAdd:
		s = bin("bvadd")
	case OMul:
		s = bin("bvmul")
	case OUdiv:
		s = bin("bvudiv")
	case OUrem:
		s = bin("bvurem")
	case OSdiv:
		s = bin("bvsdiv")
	case OSrem:
		s = bin("bvsrem")
	case OShl:
		s = bin("bvshl")
	case OLshr:
		s = bin("bvlshr")
	case OAshr:
		s = bin("bvashr")
	case OConcat:
		s = bin("concat")
	case OExtract:
		s = fmt.Sprintf("((_ extract %d %d) %s)", t.val+uint64(t.w)-1, t.val, p.expr(t.a))
	case OSExt:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, p.expr(t.a))
	case OIte:
		s = "(ite " + p.expr(t.a) + " " + p.expr(t.b) + " " + p.expr(t.c) + ")"
	}
	if p.refs[t] > 1 && len(s) > 12 {
		p.n++
		n := "t" + strconv.Itoa(p.n)
		srt := "Bool"
		if t.w > 0 {
			srt = fmt.Sprintf("(_ BitVec %d)", t.w)
		}
		fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, srt, s)
		s = n
	}
	p.names[t] = s
	return s
}

// render returns the body of a query and its variables.
func render(cs []*Term) (string, []*Term) {
	p := &printer{names: map[*Term]string{}, refs: map[*Term]int{}}
	for _, c := range cs {
		p.count(c)
	}
	for _, v := range p.vars {
		if v.w == 0 {
			fmt.Fprintf(&p.sb, "(declare-const v%d Bool)\n", v.val)
		} else {
			fmt.Fprintf(&p.sb, "(declare-const v%d (_ BitVec %d))\n", v.val, v.w)
		}
		if v.w > 0 {
			if v.umin > 0 {
				fmt.Fprintf(&p.sb, "(assert (bvuge v%d %s))\n", v.val, p.expr(K(v.w, v.umin)))
			}
			if v.umax < mask(v.w) {
				fmt.Fprintf(&p.sb, "(assert (bvule v%d %s))\n", v.val, p.expr(K(v.w, v.umax)))
			}
		}
	}
	for _, c := range cs {
		s := p.expr(c)
		fmt.Fprintf(&p.sb, "(assert %s)\n", s)
	}
	return p.sb.String(), p.vars
}

type Solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	n    int
	name string
	args []string
	tmo  int
}

func NewSolver(name string, tmo int, args ...string) *Solver {
	return &Solver{name: name, args: args, tmo: tmo}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.name, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.n = 0
	if err := s.cmd.Start(); err != nil {
		return err
	}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n")
	if strings.HasPrefix(s.name, "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.tmo)
	}
	fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) readLine(d time.Duration) (string, error) {
	type r struct {
		s string
		e error
	}
	l, e := s.out.ReadString('\n')
	return strings.TrimSpace(l), e
}

// Check runs one query; on sat returns the model values of vars.
func (s *Solver) Check(body string, vars []*Term) (SatRes, Model, error) {
	if s.cmd == nil || s.n > 4000 {
		s.Close()
		if err := s.start(); err != nil {
			return Unknown, nil, err
		}
	}
	s.n++
	cmd := s.cmd
	timer := time.AfterFunc(time.Duration(s.tmo)*time.Millisecond+5*time.Second, func() { cmd.Process.Kill() })
	defer timer.Stop()
	fail := func(err error) (SatRes, Model, error) {
		s.Close()
		return Unknown, nil, err
	}
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	sb.WriteString(body)
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return fail(err)
	}
	l, err := s.readLine(0)
	if err != nil {
		return fail(fmt.Errorf("solver died: %v", err))
	}
	switch l {
	case "unsat":
		io.WriteString(s.in, "(pop 1)\n")
		return Unsat, nil, nil
	case "unknown", "timeout":
		io.WriteString(s.in, "(pop 1)\n")
		return Unknown, nil, nil
	case "sat":
	default:
		return fail(fmt.Errorf("solver said %q", l))
	}
	m := Model{}
	if len(vars) > 0 {
		sb.Reset()
		sb.WriteString("(get-value (")
		for _, v := range vars {
			fmt.Fprintf(&sb, "v%d ", v.val)
		}
		sb.WriteString("))\n(pop 1)\n")
		io.WriteString(s.in, sb.String())
		// parse balanced parens
		depth := 0
		var txt strings.Builder
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				return fail(err)
			}
			if strings.HasPrefix(l, "(error") {
				return fail(fmt.Errorf("solver: %s", l))
			}
			txt.WriteString(l)
			depth += strings.Count(l, "(") - strings.Count(l, ")")
			if depth <= 0 {
				break
			}
		}
		fs := strings.FieldsFunc(txt.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
		for i := 0; i+1 < len(fs); i += 2 {
			if fs[i][0] != 'v' {
				return fail(fmt.Errorf("model parse: %q", fs[i]))
			}
			ix, _ := strconv.ParseUint(fs[i][1:], 10, 32)
			var v uint64
			x := fs[i+1]
			switch {
			case x == "true":
				v = 1
			case x == "false":
			case strings.HasPrefix(x, "#x"):
				v, err = strconv.ParseUint(x[2:], 16, 64)
			case strings.HasPrefix(x, "#b"):
				v, err = strconv.ParseUint(x[2:], 2, 64)
			default:
				err = fmt.Errorf("model parse: %q", x)
			}
			if err != nil {
				return fail(err)
			}
			m[uint32(ix)] = v
		}
	} else {
		io.WriteString(s.in, "(pop 1)\n")
	}
	return Sat, m, nil
}

// global query cache
type qres struct {
	r SatRes
	m Model
}

var qcache sync.Map // [32]byte -> qres

func (s *Solver) Cached(st *Stats, cs []*Term) (SatRes, Model, error) {
	body, vars := render(cs)
	h := sha256.Sum256([]byte(body))
	if v, ok := qcache.Load(h); ok {
		atomic.AddInt64(&st.CacheHits, 1)
		q := v.(qres)
		return q.r, q.m, nil
	}
	t0 := time.Now()
	r, m, err := s.Check(body, vars)
	d := time.Since(t0)
	atomic.AddInt64(&st.SolverNS, int64(d))
	atomic.AddInt64(&st.Queries, 1)
	switch r {
	case Sat:
		atomic.AddInt64(&st.SatN, 1)
	case Unsat:
		atomic.AddInt64(&st.UnsatN, 1)
	default:
		atomic.AddInt64(&st.UnkN, 1)
	}
	if dumpSlow > 0 && d > time.Duration(dumpSlow)*time.Millisecond {
		fmt.Printf("SLOW %v %d terms=%d size=%d\n", d, r, len(cs), len(body))
		if f := os.Getenv("VX_SLOWDIR"); f != "" {
			os.WriteFile(fmt.Sprintf("%s/%d-%x.smt2", f, d.Milliseconds(), h[:4]), []byte("(set-logic QF_BV)\n"+body+"(check-sat)\n"), 0644)
		}
	}
	if err == nil && r != Unknown {
		qcache.Store(h, qres{r, m})
	}
	return r, m, err
}

var dumpSlow = func() int { n, _ := strconv.Atoi(os.Getenv("VX_SLOW")); return n }()
