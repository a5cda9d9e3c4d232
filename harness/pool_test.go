//go:build go1.22

package main

// The worker pool.  Each worker is a process of its own which runs one case at
// a time, so a case never runs concurrently with another one, whatever global
// state the code under test keeps, and the history of a process is a known
// sequence of cases.  A failure is believed only after it was seen again: in
// the same process, in a fresh one, or in a fresh one after the same history.

import (
	"bufio"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

func mcDefineSafe(c *mcCheck) {
	defer func() {
		if p := recover(); p != nil {
			if len(c.Cases) == 0 {
				panic(p)
			}
			c.Broken = fmt.Sprint(p)
		}
	}()
	mcDefine(c)
}

// what a worker answers
type mcMsg struct {
	R      mcRes
	States string
	Trans  int64
	Execs  int64
}

type mcRunner interface {
	run(i int) (mcMsg, bool) // false: the process died
	close()
}

// in this process (checks whose cases are processes anyway)
type mcLocal struct{ c *mcCheck }

func (l *mcLocal) run(i int) (mcMsg, bool) { return mcMsg{R: safeRun(l.c.Cases[i])}, true }
func (l *mcLocal) close()                  {}

// a process
type mcProc struct {
	c    *mcCheck
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	tail *mcTail
	wait time.Duration
	late bool
}

type mcTail struct {
	mu sync.Mutex
	b  []byte
}

func (t *mcTail) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte(nil), t.b[len(t.b)-1<<15:]...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func (t *mcTail) fatal() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.b)
	for _, k := range []string{"fatal error: ", "panic: ", "runtime: goroutine stack exceeds"} {
		if i := strings.Index(s, k); i >= 0 {
			return strings.SplitN(s[i:], "\n", 2)[0]
		}
	}
	return ""
}

func mcSpawn(c *mcCheck, wait time.Duration) *mcProc {
	cmd := exec.Command(os.Args[0], "-test.run", "^TestVerifCheck$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "VERIF_WORKER=1", "VERIF_RESULT=", "VERIF_CASE=")
	p := &mcProc{c: c, cmd: cmd, tail: &mcTail{}, wait: wait}
	cmd.Stderr = p.tail
	var err error
	if p.in, err = cmd.StdinPipe(); err != nil {
		panic(err)
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.ExtraFiles = []*os.File{w}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	w.Close()
	p.out = bufio.NewReaderSize(r, 1<<20)
	return p
}

func (p *mcProc) run(i int) (mcMsg, bool) {
	var m mcMsg
	t := time.AfterFunc(p.wait, func() { p.late = true; p.cmd.Process.Kill() })
	defer t.Stop()
	fmt.Fprintln(p.in, p.c.Cases[i].ID)
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		p.cmd.Wait()
		return m, false
	}
	if err := json.Unmarshal(line, &m); err != nil {
		panic("harness: worker answer: " + err.Error())
	}
	return m, true
}

func (p *mcProc) close() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// mcWorker is the other end.
func mcWorker(c *mcCheck) {
	out := os.NewFile(3, "results")
	sc := bufio.NewScanner(os.Stdin)
	var t0, e0 int64
	by := map[string]mcCase{}
	for _, cs := range c.Cases {
		by[cs.ID] = cs
	}
	for sc.Scan() {
		cs, ok := by[sc.Text()]
		if !ok {
			panic("harness: the workers know other cases: " + sc.Text())
		}
		m := mcMsg{R: safeRun(cs)}
		t, e := mcTrans.Load(), mcExecs.Load()
		m.Trans, m.Execs = t-t0, e-e0
		t0, e0 = t, e
		mcStMu.Lock()
		b := make([]byte, 0, 8*len(mcStSet))
		for k := range mcStSet {
			b = binary.LittleEndian.AppendUint64(b, k)
		}
		clear(mcStSet)
		mcStMu.Unlock()
		m.States = base64.StdEncoding.EncodeToString(b)
		m.R.Fail = clip(m.R.Fail, 6000)
		line, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		if _, err := out.Write(append(line, '\n')); err != nil {
			return
		}
	}
}

type mcFail struct {
	cs   mcCase
	i    int
	r    mcRes
	past []int // what the process had run before
	seen bool  // failed again in the same process
	hist []string
}

type mcExplorer struct {
	c     *mcCheck
	known map[string]mcFinding
	end   time.Time

	mu                   sync.Mutex
	next                 int
	capped               bool
	nfail                int
	fails                []mcFail
	outcomes, perOutcome map[string]int
	samples              []map[string]string
	evals, nontriv, conf int
	unstable             int
}

const mcHang = 400 * time.Second

func (x *mcExplorer) spawn() mcRunner {
	if x.c.NoRerun {
		return &mcLocal{x.c}
	}
	return mcSpawn(x.c, mcHang)
}

// block hands out a run of neighbouring cases.
func (x *mcExplorer) block(workers int) (lo, hi int) {
	x.mu.Lock()
	defer x.mu.Unlock()
	left := len(x.c.Cases) - x.next
	if left <= 0 || x.nfail >= 4 {
		return 0, 0
	}
	n := left / (workers * 6)
	if n < 1 {
		n = 1
	}
	if n > 24 {
		n = 24
	}
	lo, hi = x.next, x.next+n
	x.next = hi
	return
}

func (x *mcExplorer) run(workers int) {
	if workers > len(x.c.Cases) {
		workers = len(x.c.Cases)
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := x.spawn()
			defer func() { r.close() }()
			var past []int
			for {
				lo, hi := x.block(workers)
				if lo == hi {
					return
				}
				for i := lo; i < hi; i++ {
					x.mu.Lock()
					stop := x.nfail >= 4
					if time.Now().After(x.end) {
						x.capped, stop = true, true
					}
					x.mu.Unlock()
					if stop {
						return
					}
					ts := time.Now()
					cs := x.c.Cases[i]
					m, ok := r.run(i)
					f := mcFail{cs: cs, i: i, past: append([]int(nil), past...)}
					if !ok {
						m.R = x.died(r)
						r.close()
						r = x.spawn()
						past = nil
						if m.R.Fail == "" { // killed from outside: once more
							if m, ok = r.run(i); !ok {
								m.R = x.died(r)
								r = x.spawn()
								if m.R.Fail == "" {
									m.R = mcRes{Outcome: "killed", Trivial: true}
									x.mu.Lock()
									x.capped = true
									x.mu.Unlock()
								}
							}
						}
					} else {
						past = append(past, i)
					}
					if _, kn := x.known[cs.ID]; ok && m.R.Fail != "" && !kn && !x.c.NoRerun {
						again := 0
						for k := 0; k < 2; k++ {
							if m2, ok := r.run(i); ok && m2.R.Fail != "" {
								again++
							} else if !ok {
								r = x.spawn()
								past = nil
							}
						}
						f.seen = again == 2
					}
					f.r = m.R
					if os.Getenv("VERIF_TRACE") != "" {
						fmt.Fprintf(os.Stderr, "%8.2fs %-60s %s %s\n", time.Since(ts).Seconds(), cs.ID, m.R.Outcome, strings.SplitN(m.R.Fail, "\n", 2)[0])
					}
					x.record(f, m)
				}
			}
		}()
	}
	wg.Wait()
}

// died: why a worker is gone. A kill from outside (memory) says nothing.
func (x *mcExplorer) died(r mcRunner) mcRes {
	p := r.(*mcProc)
	if p.late {
		return mcRes{Outcome: "hang", Fail: fmt.Sprintf("no verdict after %s", mcHang)}
	}
	if s := p.tail.fatal(); strings.HasPrefix(s, "panic: harness:") {
		x.mu.Lock()
		x.c.Broken = s
		x.mu.Unlock()
		return mcRes{}
	} else if s != "" && !strings.Contains(s, "out of memory") && !strings.Contains(s, "cannot allocate") {
		return mcRes{Outcome: "crash", Fail: "the process died: " + s}
	}
	if st := p.cmd.ProcessState; st != nil && st.Exited() {
		return mcRes{Outcome: "exit", Fail: fmt.Sprintf("the code ended the process (status %d)", st.ExitCode())}
	}
	return mcRes{}
}

func (x *mcExplorer) record(f mcFail, m mcMsg) {
	r := m.R
	mcTrans.Add(m.Trans)
	mcExecs.Add(m.Execs)
	if b, err := base64.StdEncoding.DecodeString(m.States); err == nil && len(b) > 0 {
		mcStMu.Lock()
		for ; len(b) >= 8; b = b[8:] {
			mcStSet[binary.LittleEndian.Uint64(b)] = struct{}{}
		}
		mcStMu.Unlock()
	}
	mcState(f.cs.ID, "|", r.State)
	x.mu.Lock()
	defer x.mu.Unlock()
	x.evals++
	x.outcomes[r.Outcome]++
	if !r.Trivial && r.Outcome != "" {
		x.nontriv++
	}
	if (f.cs.Conf || x.c.Direct) && r.Fail == "" {
		x.conf++
	}
	if x.perOutcome[r.Outcome] < 3 || (r.Fail != "" && x.perOutcome["!"] < 5) {
		x.perOutcome[r.Outcome]++
		if r.Fail != "" {
			x.perOutcome["!"]++
		}
		x.samples = append(x.samples, map[string]string{"case": f.cs.ID, "outcome": r.Outcome, "fail": clip(r.Fail, 300)})
	}
	if r.Fail != "" {
		x.fails = append(x.fails, f)
		if _, ok := x.known[f.cs.ID]; !ok {
			x.nfail++
		}
	}
}

// confirm: a failure counts when it was seen again.
func (x *mcExplorer) confirm(limit time.Time) (kfs []string, viols []mcFail) {
	sort.SliceStable(x.fails, func(a, b int) bool { return x.fails[a].i < x.fails[b].i })
	for _, f := range x.fails {
		if k, ok := x.known[f.cs.ID]; ok {
			kfs = append(kfs, fmt.Sprintf("KNOWN-FINDING: property=%s %s [%s]", x.c.Prop, k.What, f.cs.ID))
			continue
		}
		if x.c.NoRerun || len(viols) > 0 && f.seen {
			viols = append(viols, f)
			continue
		}
		if len(viols) > 0 {
			continue
		}
		left := time.Until(limit)
		if x.replay(nil, f.i, left) {
			viols = append(viols, f) // alone, in a fresh process
			continue
		}
		for n := 8; ; n *= 4 {
			from := max(0, len(f.past)-n)
			if x.replay(f.past[from:], f.i, time.Until(limit)) {
				for _, j := range f.past[from:] {
					f.hist = append(f.hist, x.c.Cases[j].ID)
				}
				viols = append(viols, f)
				break
			}
			if from == 0 {
				break
			}
		}
		if len(viols) == 0 {
			if f.seen { // three times in one process
				for _, j := range f.past {
					f.hist = append(f.hist, x.c.Cases[j].ID)
				}
				viols = append(viols, f)
			} else {
				x.unstable++
				fmt.Printf("NOTE: case %s failed once and not again: %s\n", f.cs.ID, clip(f.r.Fail, 300))
			}
		}
	}
	return
}

// replay runs past and then the case in a fresh process.
func (x *mcExplorer) replay(past []int, i int, left time.Duration) bool {
	if left < 5*time.Second {
		return false
	}
	hang := len(x.fails) > 0 && x.fails[0].r.Outcome == "hang"
	if hang && left > 150*time.Second {
		left = 150 * time.Second
	}
	end := time.Now().Add(left)
	p := mcSpawn(x.c, left)
	defer p.close()
	for _, j := range past {
		if p.wait = time.Until(end); p.wait <= 0 {
			return false
		}
		if _, ok := p.run(j); !ok {
			return false
		}
	}
	if p.wait = time.Until(end); p.wait <= 0 {
		return false
	}
	m, ok := p.run(i)
	if !ok {
		return (hang || !p.late) && x.died(p).Fail != ""
	}
	return m.R.Fail != ""
}

func mcReplay(c *mcCheck, only string, known map[string]mcFinding) {
	by := map[string]mcCase{}
	for _, cs := range c.Cases {
		by[cs.ID] = cs
	}
	if h := os.Getenv("VERIF_HISTORY"); h != "" {
		var doc struct {
			History []string `json:"history"`
		}
		if b, err := os.ReadFile(h); err == nil && json.Unmarshal(b, &doc) == nil {
			for _, id := range doc.History {
				if cs, ok := by[id]; ok {
					safeRun(cs)
				}
			}
		}
	}
	cs, ok := by[only]
	if !ok {
		fmt.Printf("no such case: %s\n", only)
		mcResult(2)
		return
	}
	r := safeRun(cs)
	fmt.Printf("REPLAY case=%s outcome=%s\n", cs.ID, r.Outcome)
	if r.Fail != "" {
		fmt.Printf("  %s\n", r.Fail)
		if _, ok := known[cs.ID]; !ok {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, os.Getenv("VERIF_REPLAY"))
			mcResult(1)
			return
		}
	}
	runtime.KeepAlive(c)
	mcResult(0)
}
