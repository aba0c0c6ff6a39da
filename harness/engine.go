package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Case is one generated test case: plain data, so that it can be written to a
// replay file and checked again without the generator.
type Case struct {
	Prop   string            `json:"prop"`
	Kind   string            `json:"kind"`
	Src    string            `json:"src,omitempty"`
	Src2   string            `json:"src2,omitempty"`
	Srcs   []string          `json:"srcs,omitempty"`
	Raw    []byte            `json:"raw,omitempty"` // source that is not valid UTF-8
	Want   json.RawMessage   `json:"want,omitempty"`
	Errs   []string          `json:"errs,omitempty"` // acceptable error kinds, empty: must be accepted
	Map    map[string]string `json:"map,omitempty"`
	N      int               `json:"n,omitempty"`
	Soak   int               `json:"soak,omitempty"`
	Files  []FileSpec        `json:"files,omitempty"`
	Runs   []RunSpec         `json:"runs,omitempty"`
	Cases  []*Case           `json:"cases,omitempty"`  // cases to be decided at once
	Labels []string          `json:"labels,omitempty"` // classes this case belongs to
	Plain  bool              `json:"plain,omitempty"`  // trivial by the property's rule
}

func (c *Case) label(l string) { c.Labels = append(c.Labels, l) }

// Prop is one property: a generator of cases and a decision procedure for a case.
type Prop struct {
	ID       string
	Rule     string // how cases are made and what makes one non-trivial
	Quick    int    // cases in the quick tier (all shards together)
	Thorough int
	Shards   int // 0: default
	Gen      func(t *rapid.T) *Case
	Check    func(c *Case) string    // "" or what is wrong
	Check1   func(src string) string // the same of one source, if the check needs no more
	Assume   []string
	Setup    func() error
	Cleanup  func()
	Extra    func(e *env) (evals int, nontrivial int, violation *Failure, notes []string) // fixed, exhaustive or external part, run in the parent
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type Failure struct {
	Case *Case  `json:"case"`
	Msg  string `json:"msg"`
}

type shardResult struct {
	Evals   int              `json:"evals"`
	Hashes  []uint64         `json:"hashes"` // of distinct non-trivial cases
	Labels  map[string]int   `json:"labels"`
	Samples []*Case          `json:"samples"`
	Fail    *Failure         `json:"fail"`
	Err     string           `json:"err"`
	MaxMs   int64            `json:"max_ms"`
	SlowSrc *Case            `json:"slow,omitempty"`
	Capped  bool             `json:"capped"`
	Sizes   map[string][]int `json:"-"`
}

type env struct {
	verif string
	tier  string
	seed  uint64
}

// mix is splitmix64: spreads seeds.
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func hashCase(c *Case) uint64 {
	h := sha256.New()
	fmt.Fprintf(h, "%s\x00%s\x00%s\x00%d\x00", c.Kind, c.Src, c.Src2, c.N)
	for _, s := range c.Srcs {
		fmt.Fprintf(h, "%s\x00", s)
	}
	h.Write(c.Raw)
	for _, s := range c.Cases {
		fmt.Fprintf(h, "%d\x00", hashCase(s))
	}
	if len(c.Files)+len(c.Runs)+len(c.Map) > 0 {
		b, _ := json.Marshal([]any{c.Files, c.Runs, c.Map})
		h.Write(b)
	}
	if c.Src == "" && c.Srcs == nil && c.Raw == nil {
		h.Write(c.Want)
	}
	return binary.LittleEndian.Uint64(h.Sum(nil))
}

// fakeTB lets rapid.Check run outside of go test.
type fakeTB struct {
	failed bool
	log    []string
}

func (f *fakeTB) Helper()                        {}
func (f *fakeTB) Name() string                   { return "kfcheck" }
func (f *fakeTB) Logf(format string, a ...any)   { f.log = append(f.log, fmt.Sprintf(format, a...)) }
func (f *fakeTB) Log(a ...any)                   { f.log = append(f.log, fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(format string, a ...any)  { f.SkipNow() }
func (f *fakeTB) Skip(a ...any)                  { f.SkipNow() }
func (f *fakeTB) SkipNow()                       { runtime.Goexit() }
func (f *fakeTB) Errorf(format string, a ...any) { f.Logf(format, a...); f.failed = true }
func (f *fakeTB) Error(a ...any)                 { f.Log(a...); f.failed = true }
func (f *fakeTB) Fatalf(format string, a ...any) { f.Errorf(format, a...); f.FailNow() }
func (f *fakeTB) Fatal(a ...any)                 { f.Error(a...); f.FailNow() }
func (f *fakeTB) FailNow()                       { f.failed = true; runtime.Goexit() }
func (f *fakeTB) Fail()                          { f.failed = true }
func (f *fakeTB) Failed() bool                   { return f.failed }

// rapidCheck runs prop on n generated cases; it returns rapid's log if it failed.
func rapidCheck(seed uint64, n int, prop func(*rapid.T)) (bool, []string) {
	if seed == 0 {
		seed = 0x5eed
	}
	flag.Set("rapid.seed", fmt.Sprint(seed))
	flag.Set("rapid.checks", fmt.Sprint(n))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	tb := &fakeTB{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, prop)
	}()
	<-done
	return tb.failed, tb.log
}

// safeCheck decides a case; a panic that escapes from the code under test
// (panics of ParseKF are its own business, see call) is a violation of C14 and
// reported by call, so a panic here is a fault of the harness.
func safeCheck(p *Prop, c *Case) (msg string, internal string) {
	defer func() {
		if r := recover(); r != nil {
			internal = fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())
		}
	}()
	if len(c.Cases) > 0 {
		return checkTogether(p, c), ""
	}
	return p.Check(c), ""
}

// ---- worker

func workerMain(id, tier string, seed uint64, shard, shards int, out string, capSec int) {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(3)
	}
	if p.Setup != nil {
		if err := p.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			os.Exit(3)
		}
	}
	cur, err := os.Create(out + ".cur")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	total := p.Quick
	if tier == "thorough" {
		total = p.Thorough
	}
	n := (total + shards - 1) / shards
	res := &shardResult{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	var last *Failure
	var started atomic.Int64 // CPU time in ms when the case began, plus one
	go func() {              // watchdog: a case that runs for too long is left in the .cur file
		var stuck stuckFor
		for range time.Tick(500 * time.Millisecond) {
			s := started.Load()
			if s == 0 {
				stuck = 0
			} else if stuck.look() > 20 {
				fmt.Fprintln(os.Stderr, "watchdog: all goroutines wait")
				os.Exit(42)
			}
			if s != 0 && int64(cpuSeconds()*1000)-s > hangCPU*1000 {
				fmt.Fprintln(os.Stderr, "watchdog: case runs for too long")
				os.Exit(42)
			}
		}
	}()
	shrinking := false
	body := func(t *rapid.T) {
		c := p.Gen(t)
		c.Prop = id
		b, err := json.Marshal(c)
		if err != nil {
			panic("marshal case: " + err.Error())
		}
		// what is checked is what a replay file would hold
		cur.Truncate(0)
		cur.WriteAt(b, 0)
		started.Store(int64(cpuSeconds()*1000) + 1)
		t0 := time.Now()
		msg, internal := safeCheck(p, c)
		ms := time.Since(t0).Milliseconds()
		started.Store(0)
		if internal != "" {
			res.Err = internal
			t.Fatalf("internal")
		}
		if !shrinking {
			res.Evals++
			if ms > res.MaxMs {
				res.MaxMs = ms
				res.SlowSrc = c
			}
			for _, l := range c.Labels {
				res.Labels[l]++
			}
			if !c.Plain {
				seen[hashCase(c)] = true
				if len(res.Samples) < 3 && len(b) < 3000 {
					res.Samples = append(res.Samples, c)
				}
			}
		}
		if msg != "" {
			shrinking = true
			last = &Failure{c, msg}
			t.Fatalf("violation")
		}
	}
	deadline := time.Now().Add(time.Duration(capSec) * time.Second)
	base := mix(mix(seed) ^ mix(uint64(shard)+1) ^ mix(binary.LittleEndian.Uint64(append([]byte(id), 0, 0, 0, 0, 0, 0, 0, 0)[:8])))
	for batch := 0; n > 0; batch++ {
		k := 50
		if k > n {
			k = n
		}
		n -= k
		failed, log := rapidCheck(mix(base+uint64(batch)*7919), k, body)
		if failed {
			if last == nil && res.Err == "" {
				res.Err = "rapid: " + strings.Join(log, "\n")
			}
			break
		}
		if time.Now().After(deadline) {
			res.Capped = n > 0
			break
		}
	}
	res.Fail = last
	if last != nil {
		res.Err = ""
	}
	for h := range seen {
		res.Hashes = append(res.Hashes, h)
	}
	if res.MaxMs < 2000 {
		res.SlowSrc = nil
	}
	if p.Cleanup != nil {
		p.Cleanup()
	}
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

// ---- parent

func checkMain(id string, e *env) int {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 3
	}
	t0 := time.Now()
	scratch, err := os.MkdirTemp("", "kfcheck-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(scratch)
	os.Chmod(scratch, 0o755)
	os.Setenv("KF_SCRATCH", scratch)

	var notes []string
	var samples []*Case
	hashes := map[uint64]bool{}
	labels := map[string]int{}
	evals, nontriv := 0, 0
	var fail *Failure

	// 0. known findings: reproduced and reported, never added to here
	known := map[uint64]bool{}
	for _, k := range knownFindings(e, id) {
		if k.c == nil {
			fmt.Fprintln(os.Stderr, "known finding without a case:", k.what)
			return 3
		}
		known[hashCase(k.c)] = true
		st, msg := runOne(k.c, scratch)
		switch st {
		case oneViolated:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.what)
			notes = append(notes, "known finding reproduced: "+k.what+" ["+clip(msg, 200)+"]")
		case oneHeld:
			notes = append(notes, "known finding not reproduced: "+k.what)
		default:
			fmt.Fprintln(os.Stderr, "known finding", k.what, ":", msg)
			return 3
		}
		evals++
		labels["known-finding"]++
	}

	// 1. saved cases: earlier shrunk failures, decided without the generator
	corpus, _ := filepath.Glob(filepath.Join(e.verif, "corpus", id, "*.json"))
	sort.Strings(corpus)
	for _, f := range corpus {
		c, err := loadCase(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, f, err)
			return 3
		}
		st, msg := runOne(c, scratch)
		switch st {
		case oneHeld:
		case oneViolated:
			if fail == nil {
				fail = &Failure{c, "saved case " + filepath.Base(f) + ": " + msg}
			}
		default:
			fmt.Fprintln(os.Stderr, "saved case", f, ":", msg)
			return 3
		}
		evals++
		labels["saved-case"]++
		if !c.Plain {
			hashes[hashCase(c)] = true
		}
	}

	// 2. fixed / exhaustive / external part
	if fail == nil && p.Extra != nil {
		ev, nt, f, nn := p.Extra(e)
		evals += ev
		nontriv += nt
		fail = f
		notes = append(notes, nn...)
	}

	// 3. generated cases, in worker processes
	var maxMs int64
	capped := false
	if fail == nil && p.Gen != nil {
		shards := p.Shards
		if shards == 0 {
			shards = 8
		}
		capSec := 300
		if e.tier == "thorough" {
			capSec = max(60, 780-int(time.Since(t0).Seconds()))
		}
		results := make([]*shardResult, shards)
		errs := make([]string, shards)
		crash := make([]*Failure, shards)
		var wg sync.WaitGroup
		var mu sync.Mutex
		procs := map[int]*os.Process{}
		stop := false
		for i := 0; i < shards; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				out := filepath.Join(scratch, fmt.Sprintf("shard%d.json", i))
				se, _ := os.Create(out + ".stderr")
				defer se.Close()
				so, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
				defer so.Close()
				cmd := exec.Command(exeFor(id), "worker", "-prop", id, "-tier", e.tier, "-seed", fmt.Sprint(e.seed),
					"-shard", fmt.Sprint(i), "-shards", fmt.Sprint(shards), "-out", out, "-cap", fmt.Sprint(capSec))
				cmd.Stdout, cmd.Stderr = so, se
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
				cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
				mu.Lock()
				if stop {
					mu.Unlock()
					return
				}
				if err := cmd.Start(); err != nil {
					mu.Unlock()
					errs[i] = err.Error()
					return
				}
				procs[i] = cmd.Process
				mu.Unlock()
				werr := cmd.Wait()
				mu.Lock()
				delete(procs, i)
				stopped := stop
				mu.Unlock()
				b, rerr := os.ReadFile(out)
				if rerr == nil {
					r := &shardResult{}
					if err := json.Unmarshal(b, r); err != nil {
						errs[i] = err.Error()
						return
					}
					results[i] = r
					if r.Err != "" {
						errs[i] = r.Err
					}
					if r.Fail != nil {
						mu.Lock()
						stop = true
						for j, pr := range procs {
							if j != i {
								pr.Kill()
							}
						}
						mu.Unlock()
					}
					return
				}
				if stopped {
					return
				}
				// the worker died: look at the case it was on
				tail := tailOf(out+".stderr", 3000)
				c, cerr := loadCase(out + ".cur")
				if cerr != nil {
					errs[i] = fmt.Sprintf("worker died (%v) with no case: %s", werr, tail)
					return
				}
				st, msg := runOne(c, scratch)
				if st == oneViolated {
					crash[i] = &Failure{c, msg}
				} else {
					errs[i] = fmt.Sprintf("worker died (%v); its case did not reproduce that (%v %s): %s", werr, st, msg, tail)
					if b, _ := os.ReadFile(out + ".stderr"); strings.Contains(string(b), "WARNING: DATA RACE") {
						crash[i] = &Failure{c, "a data race between concurrent compilations:\n" + raceOf(string(b))}
					}
					if strings.Contains(tail, "fatal error: concurrent map") && strings.Contains(tail, "kuneiform") {
						crash[i] = &Failure{c, "runtime failure under concurrent compilation: " + firstLine(tail)}
					}
				}
			}(i)
		}
		wg.Wait()
		for i, r := range results {
			if r == nil {
				continue
			}
			evals += r.Evals
			for _, h := range r.Hashes {
				hashes[h] = true
			}
			for k, v := range r.Labels {
				labels[k] += v
			}
			if i < 3 || len(samples) < 3 {
				for _, s := range r.Samples {
					if len(samples) < 6 {
						samples = append(samples, s)
					}
				}
			}
			if r.MaxMs > maxMs {
				maxMs = r.MaxMs
			}
			if r.SlowSrc != nil {
				notes = append(notes, fmt.Sprintf("slowest case %d ms: %.300q", r.MaxMs, r.SlowSrc.Src))
			}
			capped = capped || r.Capped
			if r.Fail != nil && fail == nil {
				fail = r.Fail
			}
		}
		for _, f := range crash {
			if f != nil && fail == nil {
				fail = f
			}
		}
		if fail == nil {
			for i, m := range errs {
				if m != "" {
					fmt.Fprintf(os.Stderr, "shard %d: %s\n", i, m)
					return 3
				}
			}
		}
	}

	if fail != nil && known[hashCase(fail.Case)] {
		notes = append(notes, "the search met a known finding and stopped there")
		fail = nil
	}

	// evidence
	nontriv += len(hashes)
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": nontriv,
		"rule":                p.Rule,
		"classes":             labels,
		"slowest_case_ms":     maxMs,
	}
	if capped {
		notes = append(notes, "wall-clock cap reached: fewer cases than planned")
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	var ss []any
	for _, s := range samples {
		ss = append(ss, s)
	}
	if len(ss) == 0 && len(corpus) > 0 {
		if c, err := loadCase(corpus[0]); err == nil {
			ss = append(ss, c)
		}
	}
	if extraSamples[id] != nil {
		ss = append(ss, extraSamples[id]...)
	}
	if len(ss) == 0 {
		ss = append(ss, "none")
	}
	cov["samples"] = ss
	viol := 0
	if fail != nil {
		viol = 1
	}
	ev := map[string]any{
		"property": id, "tier": e.tier, "seed": e.seed, "level": levelOf(id), "coverage": cov,
		"wall_s": float64(int(time.Since(t0).Seconds()*100)) / 100, "violations": viol,
	}
	if len(p.Assume) > 0 {
		ev["assumptions"] = p.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(e.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(e.verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if fail != nil {
		path := saveReplay(e, id, fail)
		fmt.Printf("%s: %s\n", id, fail.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial), %.1f s\n", id, evals, nontriv, time.Since(t0).Seconds())
	return 0
}

var extraSamples = map[string][]any{}

type finding struct {
	what string
	c    *Case
}

// knownFindings reads the lines "known: property=C14 case=<file> <what fails>".
func knownFindings(e *env, id string) (r []finding) {
	b, err := os.ReadFile(filepath.Join(e.verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "case=") {
			c, _ := loadCase(filepath.Join(e.verif, strings.TrimPrefix(f[2], "case=")))
			r = append(r, finding{f[3], c})
		}
	}
	return
}

func saveReplay(e *env, id string, f *Failure) string {
	b, _ := json.MarshalIndent(f, "", " ")
	sum := sha256.Sum256(b)
	dir := filepath.Join(e.verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, id+"-"+hex.EncodeToString(sum[:6])+".json")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

func loadCase(path string) (*Case, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err == nil && f.Case != nil {
		return f.Case, nil
	}
	c := &Case{}
	if err := json.Unmarshal(b, c); err != nil {
		return nil, err
	}
	if c.Prop == "" {
		return nil, fmt.Errorf("%s: not a case", path)
	}
	return c, nil
}

func tailOf(path string, n int) string {
	b, _ := os.ReadFile(path)
	// the interesting part of a Go crash is its beginning
	s := string(b)
	for _, k := range []string{"fatal error:", "panic:", "runtime: goroutine stack exceeds"} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			if len(s) > n {
				s = s[:n]
			}
			return s
		}
	}
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

type oneStatus int

const (
	oneHeld oneStatus = iota
	oneViolated
	oneError
)

// CPU time one case may use in a process of its own before it counts as not
// terminating; ordinary cases need some milliseconds.
const hangCPU = 30

// cpuLimit is the limit for one case; the known slow inputs have a lower one.
func (c *Case) cpuLimit() float64 {
	if c.Kind == "slow-input" {
		return float64(c.N)
	}
	if len(c.Cases) > 0 {
		return 8 * hangCPU
	}
	if c.Kind == "long" {
		return 30 * hangCPU
	}
	if hasStr(c.Labels, "vast") && c.Prop != "C14" {
		return 10 * hangCPU
	}
	for _, l := range c.Labels {
		if strings.HasPrefix(l, "huge-") && (c.Prop != "C14" || l == "huge-nested") {
			return 4 * hangCPU
		}
	}
	return hangCPU
}

// runOne decides one case in a process of its own: a crash of that process or
// using up hangCPU seconds of CPU is a violation, anything else unusual an error.
func runOne(c *Case, scratch string) (oneStatus, string) {
	f, err := os.CreateTemp(scratch, "case-*.json")
	if err != nil {
		return oneError, err.Error()
	}
	json.NewEncoder(f).Encode(c)
	f.Close()
	cmd := exec.Command(exeFor(c.Prop), "one", f.Name())
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3000MiB", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	if len(c.Cases) > 0 {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=4")
	}
	err = cmd.Run()
	if err == nil {
		return oneHeld, ""
	}
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return oneError, err.Error()
	}
	switch ee.ExitCode() {
	case 1:
		out := so.String()
		if i := strings.LastIndex(out, oneMark); i >= 0 {
			return oneViolated, strings.TrimSpace(out[i+len(oneMark):])
		}
		return oneError, "exit 1: " + so.String() + se.String()
	case 66:
		return oneViolated, "a data race between concurrent compilations:\n" + raceOf(se.String())
	case 43:
		return oneViolated, fmt.Sprintf("the case did not end within %g s of CPU time", c.cpuLimit())
	case 45:
		return oneViolated, "the case waits for ever: every goroutine is blocked"
	case 2: // Go runtime crash
		s := se.String()
		if i := strings.Index(s, "goroutine stack exceeds"); i >= 0 {
			return oneViolated, "the process died: stack overflow"
		}
		if i := strings.Index(s, "fatal error: "); i >= 0 && !strings.Contains(s[i:], "out of memory") && !strings.Contains(s[i:], "cannot allocate") {
			return oneViolated, "the process died: " + firstLine(s[i:])
		}
		if i := strings.Index(s, "panic: "); i >= 0 {
			return oneViolated, "the process died: " + firstLine(s[i:])
		}
	}
	return oneError, fmt.Sprintf("%v %.2000s %.2000s", err, so.String(), se.String())
}

// raceOf is the report of the race detector.
func raceOf(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	return clip(s, 2500)
}

const oneMark = "\n@@KFCHECK-ONE@@ "

func oneMain(path string) int {
	c, err := loadCase(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	p := props[c.Prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", c.Prop)
		return 3
	}
	if p.Setup != nil {
		if err := p.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			return 3
		}
	}
	go func() {
		t0 := time.Now()
		var stuck stuckFor
		for range time.Tick(200 * time.Millisecond) {
			if stuck.look() > 40 {
				os.Exit(45)
			}
			if cpuSeconds() > c.cpuLimit() {
				os.Exit(43)
			}
			if time.Since(t0) > 400*time.Second {
				os.Exit(44)
			}
		}
	}()
	msg, internal := safeCheck(p, c)
	if p.Cleanup != nil {
		p.Cleanup()
	}
	if internal != "" {
		fmt.Fprintln(os.Stderr, internal)
		return 3
	}
	if msg != "" {
		fmt.Print(oneMark, msg)
		return 1
	}
	return 0
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func replayMain(path string, e *env) int {
	c, err := loadCase(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	scratch, err := os.MkdirTemp("", "kfcheck-")
	if err != nil {
		return 3
	}
	defer os.RemoveAll(scratch)
	os.Chmod(scratch, 0o755)
	os.Setenv("KF_SCRATCH", scratch)
	st, msg := runOne(c, scratch)
	switch st {
	case oneHeld:
		fmt.Println("replay: held")
		return 0
	case oneViolated:
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, path)
		return 1
	}
	fmt.Fprintln(os.Stderr, msg)
	return 3
}

func main() {
	testing.Init()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: kfcheck check|worker|one|replay|show ...")
		os.Exit(3)
	}
	cmd := os.Args[1]
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Uint64("seed", 1, "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	out := flag.String("out", "", "")
	capS := flag.Int("cap", 300, "")
	verif := flag.String("verif", "/verif", "")
	if cmd != "limited" {
		flag.CommandLine.Parse(os.Args[2:])
	}
	if os.Getenv("KF_FRESH") == "" { // the binary without race detector
		if exe, err := os.Executable(); err == nil {
			os.Setenv("KF_FRESH", exe)
		}
	}
	e := &env{verif: *verif, tier: *tier, seed: *seed}
	switch cmd {
	case "check":
		attachHuge()
		os.Exit(checkMain(*prop, e))
	case "worker":
		workerMain(*prop, *tier, *seed, *shard, *shards, *out, *capS)
	case "dict":
		fmt.Print(dictDump())
	case "sweep":
		sweepMain(*prop, *tier, *shard, *shards)
	case "together":
		togetherMain(*prop, *seed, *shard, *shards, *capS)
	case "one":
		os.Exit(oneMain(flag.Arg(0)))
	case "replay":
		os.Exit(replayMain(flag.Arg(0), e))
	case "show": // print generated cases
		p := props[*prop]
		if p.Setup != nil {
			p.Setup()
		}
		rapidCheck(mix(*seed), *shards, func(t *rapid.T) {
			c := p.Gen(t)
			fmt.Printf("---- %s %v plain=%v errs=%v\n%s\n", c.Kind, c.Labels, c.Plain, c.Errs, c.Src)
			if c.Src2 != "" {
				fmt.Printf("-- second:\n%s\n", c.Src2)
			}
			for _, s := range c.Srcs {
				fmt.Printf("-- srcs:\n%s\n", s)
			}
			if len(c.Runs) > 0 {
				b, _ := json.MarshalIndent([]any{c.Files, c.Runs}, "", " ")
				fmt.Println(string(b))
			}
			if msg := p.Check(c); msg != "" {
				fmt.Println("!! ", msg)
			}
		})
	case "limited":
		os.Exit(limitedMain(os.Args[2:]))
	case "fresh":
		os.Exit(freshMain())
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	default:
		os.Exit(3)
	}
}

// exeFor is the binary that decides cases of a property.
func exeFor(id string) string {
	if r := os.Getenv("KF_RACE"); r != "" && id == "C15" {
		return r
	}
	return "/proc/self/exe"
}

func levelOf(id string) string {
	if id == "C22" {
		return "fault_enumeration"
	}
	return "exploration"
}
