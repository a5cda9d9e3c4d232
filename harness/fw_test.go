//go:build go1.22

package main

// Enumeration framework: runs every case of a check on a worker pool, re-runs
// failing cases before believing them, matches known findings, measures
// coverage and writes the evidence and replay files.  (The pool is in
// pool_test.go.)

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/consensys/gnark/frontend"
	gtest "github.com/consensys/gnark/test"
)

type mcRes struct {
	Outcome string // what was observed, a small vocabulary ("accept", "reject", ...)
	State   string // end state, hashed for the distinct-state count
	Fail    string // non-empty: the property is broken in this case
	Trivial bool   // the case does not exercise the property
}

type mcCase struct {
	ID   string
	Run  func() mcRes
	Conf bool // replay against gnark's own unmodified engine / solver
}

type mcCheck struct {
	Prop, Tier string
	Thorough   bool
	Seed       int64
	Cases      []mcCase
	Rule       string
	Bounds     map[string]any
	Assume     []string
	Note       string
	Direct     bool   // every case calls the implementation without the engine
	NoRerun    bool   // failures may depend on what ran before: believe them at once
	Broken     string // setting up the cases failed half-way
	seen       map[string]bool
	sampleID   map[string]bool
}

var (
	mcTrans atomic.Int64
	mcExecs atomic.Int64

	mcStMu  sync.Mutex
	mcStSet = map[uint64]struct{}{}
)

// mcState records one distinct end state of the exploration.
func mcState(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	k := h.Sum64()
	mcStMu.Lock()
	mcStSet[k] = struct{}{}
	mcStMu.Unlock()
}

func (c *mcCheck) add(id string, f func() mcRes) {
	if c.seen == nil {
		c.seen = map[string]bool{}
	}
	if c.seen[id] {
		panic("harness: duplicate case " + id)
	}
	c.seen[id] = true
	c.Cases = append(c.Cases, mcCase{ID: id, Run: f})
}

func (c *mcCheck) addConf(id string, f func() mcRes) {
	c.add(id, f)
	c.Cases[len(c.Cases)-1].Conf = true
}

// ---- executing the code under test -----------------------------------------

// exec runs f on the explicit-state engine with an optional hint policy.
func mcExec(f func(api frontend.API) error, hint func(*mcHintEv)) error {
	e := newEng()
	e.onHint = hint
	err := e.run(f)
	mcTrans.Add(e.nOps)
	mcExecs.Add(1)
	return err
}

type mcFn struct {
	f func(frontend.API) error
}
type mcWrap struct {
	p *mcFn
}

func (w *mcWrap) Define(api frontend.API) error { return w.p.f(api) }

// mcReal runs f on gnark's own, unmodified test engine, every deferred check
// included.
func mcReal(f func(api frontend.API) error) error {
	p := &mcFn{f}
	mcExecs.Add(1)
	return gtest.IsSolved(&mcWrap{p}, &mcWrap{p}, mcQ)
}

func verdict(err error) string {
	if err == nil {
		return "accept"
	}
	return "reject"
}

func oneLine(err error) string {
	if err == nil {
		return ""
	}
	s := strings.SplitN(err.Error(), "\n", 2)[0]
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// want compares a verdict with the oracle.
func want(err error, accept bool) mcRes {
	r := mcRes{Outcome: verdict(err), State: verdict(err)}
	if (err == nil) != accept {
		if accept {
			r.Fail = "expected accept, got reject: " + oneLine(err)
		} else {
			r.Fail = "expected reject, got accept"
		}
	}
	return r
}

// ---- known findings --------------------------------------------------------

type mcFinding struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	What     string `json:"what"`
}

func mcFindings(prop string) map[string]mcFinding {
	m := map[string]mcFinding{}
	p := os.Getenv("VERIF_KNOWN")
	if p == "" {
		return m
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return m
	}
	var doc struct {
		Findings []mcFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		panic("harness: known findings file: " + err.Error())
	}
	for _, f := range doc.Findings {
		if f.Property == prop {
			m[f.Case] = f
		}
	}
	return m
}

// ---- running ---------------------------------------------------------------

func safeRun(cs mcCase) (r mcRes) {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 4096)
			n := runtime.Stack(buf, false)
			r = mcRes{Outcome: "harness-panic", State: "panic", Fail: fmt.Sprintf("panic outside the engine: %v\n%s", p, buf[:n])}
		}
	}()
	return cs.Run()
}

func TestVerifCheck(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("not run by the check driver")
	}
	t0 := time.Now()
	c := &mcCheck{Prop: prop, Tier: os.Getenv("VERIF_TIER"), Bounds: map[string]any{}}
	if c.Tier == "" {
		c.Tier = "quick"
	}
	c.Thorough = c.Tier == "thorough"
	c.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget := 700 * time.Second
	if c.Thorough {
		budget = 780 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil && s > 0 {
		budget = time.Duration(s) * time.Second
	}
	mcDefineSafe(c)
	sort.SliceStable(c.Cases, func(i, j int) bool { return c.Cases[i].Conf && !c.Cases[j].Conf })
	known := mcFindings(prop)

	if os.Getenv("VERIF_WORKER") != "" {
		mcWorker(c)
		return
	}
	if only := os.Getenv("VERIF_CASE"); only != "" {
		mcReplay(c, only, known)
		return
	}

	workers := runtime.NumCPU()
	if w, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && w > 0 {
		workers = w
	}
	x := &mcExplorer{c: c, known: known, end: t0.Add(budget), outcomes: map[string]int{}, perOutcome: map[string]int{}}
	x.run(workers)
	kfs, viols := x.confirm(t0.Add(budget + 100*time.Second))
	evals, nontriv, conf, outcomes, samples, unstable := x.evals, x.nontriv, x.conf, x.outcomes, x.samples, x.unstable
	capped, next := x.capped, x.next
	for _, k := range kfs {
		fmt.Println(k)
	}
	evid := os.Getenv("VERIF_EVIDENCE")
	for i, f := range viols {
		if i >= 4 {
			break
		}
		rp := filepath.Join(filepath.Dir(evid), fmt.Sprintf("%s.replay%d.json", prop, i))
		doc := map[string]any{
			"property": prop, "tier": c.Tier, "case": f.cs.ID, "observed": f.r.Outcome, "what": f.r.Fail,
			"replay": fmt.Sprintf("VERIF_CASE='%s' python3 /verif/check.py %s %s", f.cs.ID, prop, c.Tier),
		}
		if len(f.hist) > 0 { // it needs what ran before it in the same process
			doc["history"] = f.hist
			doc["replay"] = fmt.Sprintf("VERIF_HISTORY=%s VERIF_CASE='%s' python3 /verif/check.py %s %s", rp, f.cs.ID, prop, c.Tier)
		}
		b, _ := json.MarshalIndent(doc, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		fmt.Printf("case %s: %s\n", f.cs.ID, clip(f.r.Fail, 600))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	}
	cov := map[string]any{
		"states":                        len(mcStSet),
		"transitions":                   mcTrans.Load(),
		"traces_validated_against_impl": conf,
		"executions":                    mcExecs.Load(),
		"evaluations":                   evals,
		"distinct_nontrivial":           nontriv,
		"rule":                          c.Rule,
		"outcomes":                      outcomes,
		"bounds":                        c.Bounds,
		"cases_enumerated":              len(c.Cases),
		"cases_completed":               evals,
		"known_findings_seen":           len(kfs),
		"unstable":                      unstable,
		"exhaustive":                    !capped && next >= len(c.Cases) && len(viols) == 0,
		"samples":                       samples,
	}
	if c.Note != "" {
		cov["explanation"] = c.Note
	}
	doc := map[string]any{
		"property": prop, "tier": c.Tier, "seed": c.Seed, "level": "model_checking",
		"coverage": cov, "assumptions": c.Assume, "wall_s": time.Since(t0).Seconds(), "violations": len(viols),
	}
	if evid != "" {
		b, err := json.MarshalIndent(doc, "", " ")
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(evid, append(b, '\n'), 0o644); err != nil {
			panic(err)
		}
	}
	fmt.Printf("%s %s: %d cases, %d executions, %d engine steps, %v, exhaustive=%v, %.1fs\n", prop, c.Tier, evals, mcExecs.Load(), mcTrans.Load(), outcomes, cov["exhaustive"], time.Since(t0).Seconds())
	switch {
	case len(viols) > 0:
		mcResult(1)
	case c.Broken != "":
		fmt.Println("check: the cases could not all be set up: " + c.Broken)
		mcResult(2)
	default:
		mcResult(0)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func mcResult(code int) {
	if p := os.Getenv("VERIF_RESULT"); p != "" {
		os.WriteFile(p, []byte(strconv.Itoa(code)), 0o644)
	}
}
