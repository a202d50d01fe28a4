package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Harness  string `json:"harness,omitempty"`
	Msg      string `json:"msg,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vxe check|run|list|replay")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	root := fs.String("root", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	hn := fs.String("h", "", "harness (substring)")
	verb := fs.Bool("v", false, "")
	workers := fs.Int("j", runtime.NumCPU(), "")
	tmo := fs.Int("t", 0, "timeout per harness, s")
	norep := fs.Bool("norep", false, "do not replay")
	cand := fs.String("c", "", "candidate file")
	nsamp := fs.Int("samples", 0, "traces to validate per harness")
	nosamp := fs.Bool("nosamp", false, "")
	fs.Parse(os.Args[2:])
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	t0 := time.Now()
	p, err := Load(*root, *repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vxe:", err)
		os.Exit(3)
	}
	loadT := time.Since(t0)
	for _, d := range p.dropped {
		fmt.Println("note:", d)
	}
	var names []string
	for n := range p.harness {
		names = append(names, n)
	}
	sort.Strings(names)
	switch cmd {
	case "list":
		for _, n := range names {
			fmt.Println(n, p.hopts[n])
		}
		return
	case "replay":
		r, err := NewReplayer(*root, *repo, p)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		b, err := os.ReadFile(*cand)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		var c Cand
		json.Unmarshal(b, &c)
		res, err := r.Run(&c, 200, true)
		r.Close()
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		fmt.Print(res.Out)
		if res.Confirmed() {
			os.Exit(1)
		}
		return
	}
	var sel []string
	for _, n := range names {
		if *prop != "" && !strings.HasPrefix(n, "H_"+*prop+"_") {
			continue
		}
		if *hn != "" && !strings.Contains(n, *hn) {
			continue
		}
		if p.hopts[n]["tier"] == "thorough" && *tier != "thorough" && *hn == "" {
			continue
		}
		sel = append(sel, n)
	}
	if len(sel) == 0 {
		fmt.Fprintln(os.Stderr, "no harness selected")
		os.Exit(3)
	}
	rp, err := NewReplayer(*root, *repo, p)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	defer rp.Close()
	ck := &checker{root: *root, p: p, rp: rp, prop: *prop, tier: *tier, seed: seed, verbose: *verb, workers: *workers, tmo: *tmo, norep: *norep, nosamp: *nosamp, nsamp: *nsamp}
	ck.loadFindings()
	// the harnesses of one check share its time
	total := 420.0
	if *tier == "thorough" {
		total = 780
	}
	for i, n := range sel {
		ck.maxT = 0
		if *prop != "" {
			ck.maxT = int((total - time.Since(t0).Seconds()) / float64(len(sel)-i))
			if ck.maxT < 5 {
				ck.maxT = 5
			}
		}
		ck.harness(n)
	}
	code := ck.finish(t0, loadT, cmd == "check")
	rp.Close()
	os.Exit(code)
}

type checker struct {
	root       string
	p          *Program
	rp         *Replayer
	prop, tier string
	seed       int64
	verbose    bool
	workers    int
	tmo        int
	norep      bool
	nosamp     bool
	nsamp      int
	maxT       int

	finds   []Finding
	results []*HResult
	viols   []string
	known   map[string]bool
	nonrep  []string
	traces  int
	diverge []string
	nrep    int
	replayT time.Duration
}

func (ck *checker) loadFindings() {
	ck.known = map[string]bool{}
	b, err := os.ReadFile(filepath.Join(ck.root, "known-findings.json"))
	if err != nil {
		return
	}
	var x struct {
		Findings []Finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		fmt.Println("note: known-findings.json:", err)
	}
	ck.finds = x.Findings
}

func (ck *checker) knownFor(c *Cand) *Finding {
	for i := range ck.finds {
		f := &ck.finds[i]
		if f.Status == "known" && f.Property == ck.prop && f.Harness == c.Harness && f.Msg == c.Msg {
			return f
		}
	}
	return nil
}

func atoi(s string, d int) int {
	if n, err := strconv.Atoi(s); err == nil {
		return n
	}
	return d
}

func (ck *checker) harness(n string) {
	o := ck.p.hopts[n]
	key := func(k string, d int) int {
		if ck.tier == "thorough" {
			if v, ok := o[k+"T"]; ok {
				return atoi(v, d)
			}
		}
		return atoi(o[k], d)
	}
	dt := 60
	if ck.tier == "thorough" {
		dt = 900
	}
	if v, ok := o["timeout"]; ok && ck.tier == "quick" {
		dt = atoi(v, dt)
	}
	if ck.maxT > 0 && dt > ck.maxT {
		dt = ck.maxT
	}
	if ck.tmo > 0 {
		dt = ck.tmo
	}
	opt := Options{
		workers:   ck.workers,
		maxPaths:  int64(key("paths", 0)),
		maxSteps:  int64(key("steps", 30000000)),
		concLimit: key("conc", 300),
		memLimit:  int64(key("mem", 4)) << 30,
		timeout:   time.Duration(dt) * time.Second,
		solverTmo: key("solver", 10000),
		tier:      ck.tier,
		verbose:   ck.verbose,
		maxDec:    key("dec", 0),
		montFull:  o["mont"] == "full",
	}
	e := NewEngine(ck.p, n, opt)
	e.rng = rand.New(rand.NewSource(ck.seed))
	e.sampleN = key("samples", 3)
	if ck.nsamp > 0 {
		e.sampleN = ck.nsamp
	}
	var mu sync.Mutex
	tries := map[string]int{}
	done := map[string]bool{}
	maxTry := key("tries", 4)
	e.onViol = func(c *Cand) bool {
		mu.Lock()
		defer mu.Unlock()
		if done[c.Msg] || tries[c.Msg] >= maxTry {
			return false
		}
		tries[c.Msg]++
		if ck.norep {
			fmt.Printf("candidate %s: %s\n", n, c.Msg)
			if ck.verbose {
				fmt.Println(string(c.JSON()))
			}
			return false
		}
		att := 1
		if c.hasRandom() && !c.Hang {
			att = key("attempts", 60)
		}
		t := time.Now()
		res, err := ck.rp.Run(c, att, false)
		ck.replayT += time.Since(t)
		if err != nil {
			ck.nonrep = append(ck.nonrep, fmt.Sprintf("%s: %s: replay error: %v", n, c.Msg, err))
			return false
		}
		ck.nrep++
		if !res.Confirmed() {
			ck.nonrep = append(ck.nonrep, fmt.Sprintf("%s: %s: candidate did not reproduce (exit %d): %s", n, c.Msg, res.Code, strings.TrimSpace(res.Out)))
			if ck.verbose {
				fmt.Println(string(c.JSON()))
			}
			return false
		}
		done[c.Msg] = true
		c.Where = strings.TrimSpace(res.Out)
		return ck.report(c)
	}
	t := time.Now()
	e.Run()
	r := e.Result(time.Since(t))
	// validate the encoding against the real code on sampled paths
	if !ck.norep && !ck.nosamp && len(ck.viols) == 0 {
		for _, c := range e.sampleC {
			t := time.Now()
			res, err := ck.rp.Run(c, 1, false)
			ck.replayT += time.Since(t)
			if err != nil {
				ck.nonrep = append(ck.nonrep, fmt.Sprintf("%s: trace replay error: %v", n, err))
				break
			}
			switch {
			case res.Code == 0:
				ck.traces++
			case res.Confirmed():
				// the real code breaks the assertion on values for which the
				// encoding says it holds: run again before believing it
				res2, err := ck.rp.Run(c, 1, false)
				if err == nil && res2.Confirmed() {
					c.Msg = "trace replay: " + lastLine(res.Out)
					c.Where = strings.TrimSpace(res.Out)
					ck.diverge = append(ck.diverge, fmt.Sprintf("%s: %s", n, c.Where))
					// injected faults are counted differently by the model and
					// the instrumented os package when other files are in play
					if !c.hasFault() {
						ck.report(c)
					}
				}
			default:
				ck.diverge = append(ck.diverge, fmt.Sprintf("%s: sampled path ended with %d: %s", n, res.Code, strings.TrimSpace(res.Out)))
			}
			if len(ck.viols) > 0 {
				break
			}
		}
	}
	ck.results = append(ck.results, r)
	inc := ""
	if len(r.Incomplete) > 0 {
		inc = fmt.Sprintf(" REDUCED %v", keys(r.Incomplete))
	}
	fmt.Printf("%s: paths=%d ok=%d assume=%d bounded=%d asserts=%d queries=%d hits=%d solver=%.1fs wall=%.1fs%s\n", n, r.Paths, r.Complete, r.Assumed, r.Bounded, sum(r.Asserts), r.Queries, r.CacheHits, r.SolverS, r.WallS, inc)
	if ck.verbose {
		fmt.Println("  reach", r.Reach, "notes", r.Notes)
		for k, v := range e.forks {
			fmt.Println("  fork", v, k)
		}
	}
}

func lastLine(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	return l[len(l)-1]
}

// report handles a confirmed violation; it returns true to stop this harness.
func (ck *checker) report(c *Cand) bool {
	if f := ck.knownFor(c); f != nil {
		k := f.Harness + "|" + f.Msg
		if !ck.known[k] {
			ck.known[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.prop, f.What)
		}
		return false
	}
	dir := filepath.Join(ck.root, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	id := ck.prop
	if id == "" {
		id = "X"
	}
	fn := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, len(ck.viols)))
	os.WriteFile(fn, c.JSON(), 0644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, fn)
	fmt.Printf("  harness %s: %s\n  native replay: %s\n  (rerun: /verif/bin/vxe replay -c %s)\n", c.Harness, c.Msg, c.Where, fn)
	ck.viols = append(ck.viols, fn)
	return true
}

func keys(m map[string]int64) []string {
	var ks []string
	for k, v := range m {
		ks = append(ks, fmt.Sprintf("%s (x%d)", k, v))
	}
	sort.Strings(ks)
	if len(ks) > 6 {
		ks = append(ks[:6], "...")
	}
	return ks
}

func sum(m map[string]int64) int64 {
	var t int64
	for _, v := range m {
		t += v
	}
	return t
}

func (ck *checker) finish(t0 time.Time, loadT time.Duration, evid bool) int {
	for _, s := range ck.nonrep {
		fmt.Println("INCONCLUSIVE:", s)
	}
	for _, s := range ck.diverge {
		fmt.Println("DIVERGENCE:", s)
	}
	if evid && ck.prop != "" {
		ck.writeEvidence(t0, loadT)
	}
	fmt.Printf("total %.1fs (load %.1fs, replay %.1fs, %d traces validated)\n", time.Since(t0).Seconds(), loadT.Seconds(), ck.replayT.Seconds(), ck.traces)
	if len(ck.viols) > 0 {
		return 1
	}
	return 0
}

func (ck *checker) writeEvidence(t0 time.Time, loadT time.Duration) {
	fns := map[string]bool{}
	var paths, bnd, okp, q, hits, uns, sat, unk, bySolver, bySimpl, states, steps int64
	var st float64
	var samples, bounds, reduced []string
	for _, r := range ck.results {
		for _, f := range r.Functions {
			fns[f] = true
		}
		paths += r.Paths
		bnd += r.Bounded
		okp += r.Complete
		q += r.Queries
		hits += r.CacheHits
		uns += r.UnsatN
		sat += r.SatN
		unk += r.UnkN
		st += r.SolverS
		bySolver += r.BySolver
		bySimpl += r.BySimpl
		states += r.Decisions
		steps += r.Steps
		for _, s := range r.Samples {
			samples = append(samples, r.Harness+": "+s)
		}
		if r.Bound != "" {
			bounds = append(bounds, r.Harness+": "+strings.TrimSpace(r.Bound))
		}
		for _, k := range keys(r.Incomplete) {
			reduced = append(reduced, r.Harness+": "+k)
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]interface{}{
		"states":                              states + paths,
		"transitions":                         steps,
		"traces_validated_against_impl":       ck.traces,
		"samples":                             samples,
		"explanation":                         "states = symbolic states at decision points plus path ends; transitions = SSA instructions of the real code and its models executed symbolically; traces_validated = explored paths whose solver model was run through the compiled code with the same outcome",
		"paths":                               paths,
		"paths_completed":                     okp,
		"paths_cut_at_decision_bound":         bnd,
		"functions_encoded":                   fl,
		"bounds":                              bounds,
		"reduced_bounds_this_run":             reduced,
		"solver":                              "z3-new (Z3 5.3.2), QF_BV",
		"queries":                             q,
		"query_cache_hits":                    hits,
		"queries_sat":                         sat,
		"queries_unsat":                       uns,
		"queries_unknown":                     unk,
		"solver_s":                            st,
		"assertions_discharged_by_solver":     bySolver,
		"assertions_discharged_by_simplifier": bySimpl,
		"candidates_replayed":                 ck.nrep,
		"candidates_not_reproduced":           ck.nonrep,
		"divergences":                         ck.diverge,
		"harnesses":                           ck.results,
		"load_s":                              loadT.Seconds(),
		"exhaustive":                          len(reduced) == 0,
		"known_findings_seen":                 len(ck.known),
		"white_box_harnesses_dropped":         ck.p.dropped,
	}
	ev := map[string]interface{}{
		"property": ck.prop, "tier": ck.tier, "seed": ck.seed, "level": "model_checking",
		"coverage":   cov,
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(ck.viols),
		"assumptions": []string{
			"cryptographic primitives are replaced by ideal ones (collision-free hashes/KDFs, unforgeable AEAD and signatures, independent key streams); see DESIGN.md",
			"the operating system is an in-memory model with at most one injected fault",
			"claims hold within the stated bounds only",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(ck.root, "evidence"), 0755)
	os.WriteFile(filepath.Join(ck.root, "evidence", ck.prop+".json"), b, 0644)
}
