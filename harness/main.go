package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A property's check is a list of jobs. Each runs in a worker process of its own
// and returns what it covered and what it found.
type Job struct {
	Name string
	Run  func(r *Result)
}

type Finding struct {
	Key   string // identifies the failing input, call site or history
	Desc  string
	Steps []string `json:",omitempty"`
	// replayable form
	Actions  []Action `json:",omitempty"`
	Scenario string   `json:",omitempty"`
}

type Result struct {
	Job         string
	States      int
	Transitions int
	Traces      int // replayed against node processes, identical in every view
	Diverged    int
	Evals       int
	Distinct    int
	Samples     []string
	Findings    []Finding
	Unconfirmed []string
	Counts      map[string]int
	Capped      string
	Notes       []string
	Err         string
	Wall        float64
	distinct    map[string]bool
	deadline    time.Time
}

func (r *Result) count(k string, n int) {
	if r.Counts == nil {
		r.Counts = map[string]int{}
	}
	r.Counts[k] += n
}

// eval counts one evaluated case; it is non-trivial and distinct by its label
func (r *Result) eval(label string) {
	r.Evals++
	if label == "" {
		return
	}
	if r.distinct == nil {
		r.distinct = map[string]bool{}
	}
	if !r.distinct[label] {
		r.distinct[label] = true
		r.Distinct++
		if n := r.Distinct; len(r.Samples) < 12 && n&(n-1) == 0 {
			r.Samples = append(r.Samples, label)
		}
	}
}

func (r *Result) find(key, format string, a ...interface{}) {
	for _, f := range r.Findings {
		if f.Key == key {
			return
		}
	}
	if len(r.Findings) < 20 {
		r.Findings = append(r.Findings, Finding{Key: key, Desc: fmt.Sprintf(format, a...)})
	}
}

func (r *Result) late() bool {
	if !r.deadline.IsZero() && time.Now().After(r.deadline) {
		r.Capped = "time budget"
		return true
	}
	return false
}

type Prop struct {
	ID         string
	Level      string // model_checking or exploration
	Rule       string
	Assume     []string
	Jobs       func(thorough bool) []Job
	Budget     int // seconds per job, quick
	SingleCore bool
}

var props = map[string]*Prop{}

func register(p *Prop) {
	props[p.ID] = p
	jobs := p.Jobs
	p.Jobs = func(th bool) []Job { return append(busyJobs(p.ID, th), jobs(th)...) }
}

var thorough bool
var realOut *os.File

func main() {
	prop := flag.String("prop", "", "")
	job := flag.String("job", "", "")
	tier := flag.String("tier", "quick", "")
	node := flag.Int("node", -1, "")
	sd := flag.Int64("seed", 1, "")
	evidence := flag.String("evidence", "", "")
	known := flag.String("known", "", "")
	replayDir := flag.String("replay", "", "")
	verbose := flag.Bool("v", false, "")
	only := flag.String("only", "", "")
	rerun := flag.Int("rerun", 0, "")
	flag.Parse()
	_ = rerun
	seed = *sd
	thorough = *tier == "thorough"
	realOut = os.Stdout
	if *node >= 0 || *job != "" {
		mapsIterOn = true
		dir, err := os.MkdirTemp("", "zcheck-env")
		must(err)
		setupEnv(dir)
		null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
		must(err)
		os.Stdout = null
		log.SetOutput(io.Discard)
		warm()
		defer os.RemoveAll(dir)
	}
	switch {
	case *node >= 0:
		nodeMain(nodeID(*node), os.Stdin, realOut)
	case *job != "":
		if f := os.Getenv("ZPROF"); f != "" {
			o, _ := os.Create(f)
			pprof.StartCPUProfile(o)
			defer pprof.StopCPUProfile()
		}
		runJob(*job, *prop)
	default:
		code := parent(*prop, *tier, *evidence, *known, *replayDir, *only, *verbose)
		os.Exit(code)
	}
}

// workers print one JSON result on stdout
func runJob(name, prop string) {
	p := props[prop]
	var j *Job
	jobs := p.Jobs(thorough)
	for i := range jobs {
		if jobs[i].Name == name {
			j = &jobs[i]
		}
	}
	if j == nil {
		panic("no job " + name)
	}
	r := &Result{Job: name}
	t0 := time.Now()
	r.deadline = t0.Add(jobBudget(p))
	var mu sync.Mutex
	done := false
	flush := func() {
		mu.Lock()
		defer mu.Unlock()
		if done {
			return
		}
		done = true
		r.Wall = time.Since(t0).Seconds()
		must(json.NewEncoder(realOut).Encode(r))
	}
	// a step that does not end is a finding of its own
	go func() {
		for {
			time.Sleep(time.Second)
			if lim := 3 * jobBudget(p); time.Since(t0) > lim { // code called directly
				r = &Result{Job: name, Findings: []Finding{{Key: "hang", Desc: fmt.Sprintf("%s: does not end within %v", name, lim)}}}
				flush()
				os.Exit(0)
			}
			s := atomic.LoadInt64(&stepStart)
			if s != 0 && time.Now().UnixNano()-s > int64(40*time.Second) {
				what, _ := stepWhat.Load().(string)
				r = &Result{Job: name, Findings: []Finding{{Key: "hang", Desc: "does not end within 40 s: " + what}}}
				flush()
				osExitHook = nil
				os.Exit(0)
			}
		}
	}()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if c, ok := e.(harnessCrash); ok { // the ordinary course of the protocol fails
					r.find("ordinary:"+shortKey(c.what), "%s", c.what)
					return
				}
				r.Err = fmt.Sprint(e, "\n", string(debug.Stack()))
			}
		}()
		j.Run(r)
	}()
	flush()
}

func jobBudget(p *Prop) time.Duration {
	b := p.Budget
	if b == 0 {
		b = 90
	}
	if thorough {
		b = 420
		if p.Budget > 60 {
			b = p.Budget * 4
			if b > 600 {
				b = 600
			}
		}
	}
	return time.Duration(b) * time.Second
}

func runWorker(prop, job, tier string) *Result {
	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self, "-prop", prop, "-job", job, "-tier", tier, "-seed", fmt.Sprint(seed))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3500MiB")
	var stderr tail
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	r := &Result{Job: job}
	if e := json.Unmarshal(out, r); e != nil {
		r.Err = fmt.Sprintf("worker: %v %v\n%s", err, e, stderr.String())
		if where, what := crashOf(stderr.String()); where != "" {
			r.Err = ""
			r.Findings = []Finding{{Key: "crash:" + shortKey(where), Desc: fmt.Sprintf("%s: a goroutine of a node stops the process in %s: %s", job, where, what)}}
		}
	}
	return r
}

// crashOf: what ended a process, if that was code of the nodes in a goroutine of
// their own (whatever is called by the harness is recovered from)
func crashOf(stderr string) (where, what string) {
	l := strings.Split(stderr, "\n")
	for i, s := range l {
		if strings.HasPrefix(s, "panic: ") || strings.HasPrefix(s, "fatal error: ") {
			what = s
		}
		if !strings.HasPrefix(s, "goroutine ") || !strings.Contains(s, "[running") || what == "" {
			continue
		}
		for _, f := range l[i+1:] {
			if f == "" {
				break
			}
			if strings.HasPrefix(f, "\t") || strings.HasPrefix(f, "panic(") || strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "internal/") {
				continue
			}
			if strings.HasPrefix(f, "zRep/") {
				if j := strings.LastIndex(f, "("); j > 0 {
					f = f[:j]
				}
				return f, what
			}
			if !strings.Contains(f, "zRep/") && !strings.HasPrefix(f, "main.") && !strings.HasPrefix(f, "created by") {
				continue // a library the node calls
			}
			return "", ""
		}
		return "", ""
	}
	return "", ""
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 20000 {
		t.b = t.b[len(t.b)-20000:]
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

type knownEntry struct{ prop, key, desc string }

// lines of the form: known: property=<id> key=<key> <what fails>
func readKnown(path string) (l []knownEntry) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(line, "known: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		l = append(l, knownEntry{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return
}

func parent(prop, tier, evidence, known, replayDir, only string, verbose bool) int {
	p := props[prop]
	if p == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	t0 := time.Now()
	jobs := p.Jobs(thorough)
	results := make([]*Result, len(jobs))
	par := 8
	if p.SingleCore {
		par = 1
	}
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	for i := range jobs {
		if only != "" && !strings.Contains(jobs[i].Name, only) {
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			r := runWorker(prop, jobs[i].Name, tier)
			// whatever was found must be found again by a fresh process
			if len(r.Findings) > 0 && r.Err == "" && needsRerun(r) {
				again := runWorker(prop, jobs[i].Name, tier)
				keys := map[string]bool{}
				for _, f := range again.Findings {
					keys[f.Key] = true
				}
				var kept []Finding
				for _, f := range r.Findings {
					if keys[f.Key] {
						kept = append(kept, f)
					} else {
						r.Unconfirmed = append(r.Unconfirmed, f.Desc)
					}
				}
				if len(kept) == 0 && strings.HasPrefix(r.Findings[0].Key, "crash:") {
					again.Unconfirmed = append(again.Unconfirmed, r.Unconfirmed...)
					r = again // the process that ended told nothing else
				} else {
					r.Findings = kept
				}
			}
			results[i] = r
			if verbose {
				fmt.Printf("job %s: states %d transitions %d evals %d traces %d/%d div capped %q findings %d unconf %d %.1fs %s %v\n", r.Job, r.States, r.Transitions, r.Evals, r.Traces, r.Diverged, r.Capped, len(r.Findings), len(r.Unconfirmed), r.Wall, r.Err, r.Counts)
				for _, u := range r.Unconfirmed {
					fmt.Println("  unconfirmed:", u)
				}
				for _, n := range r.Notes {
					fmt.Println("  note:", n)
				}
			}
		}(i)
	}
	wg.Wait()
	total := &Result{Counts: map[string]int{}}
	var samples []interface{}
	jobInfo := []map[string]interface{}{}
	exhaustive := true
	var errs []string
	for _, r := range results {
		if r == nil {
			continue
		}
		total.States += r.States
		total.Transitions += r.Transitions
		total.Traces += r.Traces
		total.Diverged += r.Diverged
		total.Evals += r.Evals
		total.Distinct += r.Distinct
		total.Findings = append(total.Findings, r.Findings...)
		total.Unconfirmed = append(total.Unconfirmed, r.Unconfirmed...)
		for k, v := range r.Counts {
			total.Counts[k] += v
		}
		for i, s := range r.Samples {
			if i < 4 && len(samples) < 40 {
				samples = append(samples, map[string]string{"job": r.Job, "case": s})
			}
		}
		info := map[string]interface{}{"job": r.Job, "wall_s": r.Wall}
		if r.States > 0 {
			info["states"], info["transitions"] = r.States, r.Transitions
		}
		if r.Evals > 0 {
			info["evaluations"] = r.Evals
		}
		if r.Capped != "" {
			info["not_completed"] = r.Capped
			exhaustive = false
		}
		if len(r.Notes) > 0 {
			info["notes"] = r.Notes
		}
		jobInfo = append(jobInfo, info)
		if r.Err != "" {
			errs = append(errs, r.Job+": "+r.Err)
		}
	}
	// findings
	kn := readKnown(known)
	sort.SliceStable(total.Findings, func(i, j int) bool { return total.Findings[i].Key < total.Findings[j].Key })
	printed := map[string]bool{}
	violations := 0
	code := 0
	for _, f := range total.Findings {
		isKnown := false
		for _, k := range kn {
			if k.prop == prop && k.key == f.Key {
				isKnown = true
				if !printed[f.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.desc)
				}
				printed[f.Key] = true
			}
		}
		if isKnown || printed[f.Key] {
			continue
		}
		printed[f.Key] = true
		violations++
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", prop, violations))
		os.MkdirAll(replayDir, 0755)
		b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "seed": seed, "finding": f}, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("found: %s: %s\n", f.Key, f.Desc)
		for i, s := range f.Steps {
			if i < 60 {
				fmt.Println("   ", s)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		code = 1
	}
	for _, e := range errs {
		fmt.Println("internal error:", e)
	}
	if code == 0 && len(errs) > 0 {
		code = 3
	}
	cov := map[string]interface{}{
		"samples": samples, "exhaustive": exhaustive && len(errs) == 0, "counts": total.Counts, "jobs": jobInfo,
		"evaluations": total.Evals,
	}
	if p.Level == "model_checking" {
		cov["states"], cov["transitions"] = total.States, total.Transitions
		cov["traces_validated_against_impl"] = total.Traces
		cov["traces_diverged"] = total.Diverged
		cov["rule"] = p.Rule
	} else {
		cov["distinct_nontrivial"] = total.Distinct
		cov["rule"] = p.Rule
		if total.States > 0 {
			cov["states"], cov["transitions"] = total.States, total.Transitions
		}
		if total.Traces > 0 {
			cov["traces_validated_against_impl"] = total.Traces
		}
	}
	if len(total.Unconfirmed) > 0 {
		cov["unconfirmed"] = total.Unconfirmed
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(t0).Seconds(), "violations": violations}
	if evidence != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		must(os.MkdirAll(filepath.Dir(evidence), 0755))
		must(os.WriteFile(evidence, b, 0644))
	}
	fmt.Printf("%s %s: states %d, transitions %d, evaluations %d, traces replayed on node processes %d (%d diverged), exhaustive %v, violations %d, %.1f s\n",
		prop, tier, total.States, total.Transitions, total.Evals, total.Traces, total.Diverged, exhaustive, violations, time.Since(t0).Seconds())
	return code
}

// findings of world explorations are confirmed on node processes instead
func needsRerun(r *Result) bool {
	for _, f := range r.Findings {
		if len(f.Actions) == 0 {
			return true
		}
	}
	return false
}
