// Command harness explores the scenarios of one property.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"stompmc/mc"
)

type Task struct {
	Scen     string  `json:"scen"`
	Bound    Bound   `json:"bound"`
	Shard    int     `json:"shard"`
	Prop     string  `json:"prop"`
	Thorough bool    `json:"thorough"`
	Seconds  float64 `json:"seconds"`
	Findings string  `json:"findings"`
	Path     []int   `json:"path,omitempty"` // replay
	Replay   bool    `json:"replay,omitempty"`
}

type TaskResult struct {
	Task      Task             `json:"task"`
	Stats     mc.Stats         `json:"stats"`
	Complete  bool             `json:"complete"`
	Violation *mc.Violation    `json:"violation,omitempty"`
	Fatal     string           `json:"fatal,omitempty"`
	Known     map[string]int64 `json:"known,omitempty"`
	Sig       uint64           `json:"sig,omitempty"`
	Outcome   string           `json:"outcome,omitempty"`
	Trace     []string         `json:"trace,omitempty"`
	Wall      float64          `json:"wall"`
}

func (t *Task) cfg() mc.Config {
	c := mc.Config{Name: t.Scen, PB: t.Bound.PB, FB: t.Bound.FB, TimeDev: t.Bound.TimeDev,
		MaxSteps: t.Bound.Steps, Shard: t.Shard, Shards: t.Bound.Shards, Race: t.Bound.Race}
	if t.Bound.Delay {
		c.Mode = mc.Delay
	}
	if t.Seconds > 0 {
		c.Deadline = time.Now().Add(time.Duration(t.Seconds * float64(time.Second)))
	}
	return c
}

func runTask(t Task) (r TaskResult) {
	start := time.Now()
	r.Task = t
	active, thorough = t.Prop, t.Thorough
	if active == allProps {
		active = ""
	}
	if err := loadFindings(t.Findings); err != nil {
		r.Fatal = err.Error()
		return
	}
	s := find(t.Scen)
	if s == nil {
		r.Fatal = "no scenario " + t.Scen
		return
	}
	defer func() { r.Wall = time.Since(start).Seconds() }()
	fn := func() { s.Fn(t.Bound.Deep) }
	cfg := t.cfg()
	if t.Replay {
		v, fatal, out, sig := mc.Replay(cfg, t.Path, fn)
		r.Violation, r.Outcome, r.Sig = v, out, sig
		if fatal != nil {
			r.Fatal = fatal.Msg
		}
		r.Trace = mc.LastTrace()
		return
	}
	r.Known = map[string]int64{}
	cfg.Known = func(msg string) bool {
		if f := known(t.Scen, msg); f != nil {
			r.Known[f.text]++
			return true
		}
		return false
	}
	res := mc.Explore(cfg, fn)
	r.Stats, r.Complete, r.Violation = res.Stats, res.Complete, res.Violation
	if res.Fatal != nil {
		r.Fatal = res.Fatal.Msg
	}
	return
}

// worker reads tasks from stdin and answers on stdout.
func worker() {
	log.SetOutput(io.Discard)
	debug.SetGCPercent(200)
	debug.SetMaxStack(256 << 20)
	runtime.GOMAXPROCS(2)
	if d := os.Getenv("PROF"); d != "" {
		f, _ := os.Create(fmt.Sprintf("%s.%d", d, os.Getpid()))
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	in := bufio.NewReader(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	var cur Task
	go watchdog(&cur)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var t Task
		if err := json.Unmarshal(line, &t); err != nil {
			panic(err)
		}
		cur = t
		r := runTask(t)
		if err := out.Encode(r); err != nil {
			return
		}
	}
}

// watchdog turns code that spins, or allocates memory for ever, without a
// scheduling point into a violation.
func watchdog(cur *Task) {
	var last int64
	n := 0
	var u0 time.Duration
	cpu := func() time.Duration {
		var ru syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
		return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
	}
	rss := func() int64 {
		b, _ := os.ReadFile("/proc/self/statm")
		f := strings.Fields(string(b))
		if len(f) < 2 {
			return 0
		}
		v, _ := strconv.ParseInt(f[1], 10, 64)
		return v * int64(os.Getpagesize()) >> 20
	}
	for {
		time.Sleep(100 * time.Millisecond)
		p := mc.Progress.Load()
		if p != last || !mc.Exploring() || specBusy.Load() > 0 {
			last, n, u0 = p, 0, cpu()
			continue
		}
		n++
		msg := ""
		if n >= 200 && cpu()-u0 > 15*time.Second {
			msg = "endless loop without a synchronisation operation"
		} else if n >= 5 && rss() > 2800 {
			msg = "endless loop that allocates memory without a synchronisation operation"
		}
		if msg != "" {
			r := TaskResult{Task: *cur, Violation: &mc.Violation{Msg: msg, Path: mc.CurrentPath()}}
			buf := make([]byte, 1<<16)
			r.Violation.Stack = string(buf[:runtime.Stack(buf, true)])
			json.NewEncoder(os.Stdout).Encode(r)
			os.Exit(0)
		}
	}
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

// tail keeps what a worker writes to its standard error.
type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.buf) < 1<<16 {
		t.buf = append(t.buf, p[:min(len(p), 1<<16)]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.buf)
}

func newProc() (*proc, error) {
	c := exec.Command(os.Args[0], "worker")
	c.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB", "GOTRACEBACK=single")
	t := &tail{}
	c.Stderr = t
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &proc{c, in, bufio.NewReaderSize(out, 1<<20), t}, nil
}

var fatalError = regexp.MustCompile(`(?m)^(fatal error: |runtime: goroutine stack exceeds|panic: )[^\n]*`)

func (p *proc) do(t Task) (r TaskResult, err error) {
	b, _ := json.Marshal(t)
	if _, err = p.in.Write(append(b, '\n')); err != nil {
		return
	}
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		p.cmd.Wait()
		e := p.err.String()
		if m := fatalError.FindString(e); m != "" && !strings.HasPrefix(m, "panic: ") && !strings.Contains(m, "out of memory") {
			// what the Go runtime does not let anyone recover from
			return TaskResult{Task: t, Violation: &mc.Violation{Msg: died + m, Stack: e}}, nil
		}
		return r, fmt.Errorf("worker died on %s shard %d: %v\n%s", t.Scen, t.Shard, err, e)
	}
	err = json.Unmarshal(line, &r)
	return
}

const died = "the process dies: "

func (p *proc) kill() {
	if os.Getenv("PROF") != "" {
		p.in.Close()
		p.cmd.Wait()
	}
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

type BoundReport struct {
	Scenario    string           `json:"scenario"`
	What        string           `json:"what,omitempty"`
	Bound       Bound            `json:"bound"`
	Shards      int              `json:"shards"`
	Done        int              `json:"shards_complete"`
	Executions  int64            `json:"executions"`
	Pruned      int64            `json:"pruned_executions"`
	Transitions int64            `json:"transitions"`
	States      int64            `json:"states"`
	Cases       int64            `json:"cases,omitempty"`
	Ops         int64            `json:"operations,omitempty"`
	MaxDepth    int              `json:"max_choices"`
	MaxThreads  int              `json:"max_threads"`
	BoundHit    bool             `json:"schedules_beyond_bound_exist"`
	FaultHit    bool             `json:"faults_beyond_bound_exist"`
	Outcomes    int              `json:"distinct_outcomes"`
	Top         map[string]int64 `json:"outcomes,omitempty"`
	Wall        float64          `json:"cpu_s"`
	outs        map[string]int64
}

type options struct {
	prop, tier, findings, evidence, replays string
	seed, workers                           int
	budget                                  float64
	only                                    string
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness worker|run|replay|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker()
	case "list":
		for _, s := range scenarios {
			fmt.Println(s.Name, s.Props, s.What)
		}
	case "replay":
		replayFile(os.Args[2])
	case "run":
		o := options{workers: runtime.NumCPU(), seed: 1, tier: "quick"}
		for _, a := range os.Args[2:] {
			k, v, _ := strings.Cut(a, "=")
			switch k {
			case "prop":
				o.prop = v
			case "tier":
				o.tier = v
			case "findings":
				o.findings = v
			case "evidence":
				o.evidence = v
			case "replays":
				o.replays = v
			case "seed":
				o.seed, _ = strconv.Atoi(v)
			case "workers":
				o.workers, _ = strconv.Atoi(v)
			case "budget":
				o.budget, _ = strconv.ParseFloat(v, 64)
			case "only":
				o.only = v
			default:
				fmt.Fprintln(os.Stderr, "unknown option", a)
				os.Exit(2)
			}
		}
		os.Exit(run(o))
	default:
		os.Exit(2)
	}
}

func replayFile(name string) {
	b, err := os.ReadFile(name)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var doc struct {
		Message string `json:"message"`
		Task    Task   `json:"task"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	log.SetOutput(io.Discard)
	doc.Task.Replay = !strings.HasPrefix(doc.Message, died)
	r := runTask(doc.Task)
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	if r.Fatal != "" {
		fmt.Println("FATAL", r.Fatal)
		os.Exit(2)
	}
	if r.Violation != nil {
		fmt.Println("VIOLATION:", r.Violation.Msg)
		for _, l := range r.Violation.Blocks {
			fmt.Println("  blocked:", l)
		}
		fmt.Println(r.Violation.Stack)
		os.Exit(1)
	}
	fmt.Println("no violation; outcome", r.Outcome)
}

// allProps stands for every property at once (for measuring, not for checks)
const allProps = "ALL"

func tasksFor(s *Scenario, o options) [][]Task {
	bs := s.Quick
	if o.tier == "thorough" && len(s.Thorough) > 0 {
		bs = s.Thorough
	}
	var out [][]Task
	for _, b := range bs {
		if o.prop != allProps && (b.Only == "" && !has(s.Props, o.prop) || b.Only != "" && !has(strings.Split(b.Only, ","), o.prop)) {
			continue
		}
		n := b.Shards
		if n <= 1 {
			n = 1
			b.Shards = 0
		}
		var ts []Task
		for i := 0; i < n; i++ {
			ts = append(ts, Task{Scen: s.Name, Bound: b, Shard: i, Prop: o.prop, Thorough: o.tier == "thorough", Findings: o.findings})
		}
		out = append(out, ts)
	}
	return out
}

func run(o options) int {
	start := time.Now()
	budget := o.budget
	if budget == 0 {
		budget = 300
		if o.tier == "thorough" {
			budget = 780
		}
	}
	deadline := start.Add(time.Duration(budget * float64(time.Second)))
	var all []Task
	var reps []*BoundReport
	index := map[string]*BoundReport{}
	key := func(t Task) string { b, _ := json.Marshal(t.Bound); return t.Scen + string(b) }
	rounds := map[int][][]Task{}
	maxRound := 0
	for _, s := range scenarios {
		if o.only != "" && s.Name != o.only && !(strings.HasSuffix(o.only, "*") && strings.HasPrefix(s.Name, o.only[:len(o.only)-1])) {
			continue
		}
		for i, ts := range tasksFor(s, o) {
			rounds[i] = append(rounds[i], ts)
			maxRound = max(maxRound, i)
			r := &BoundReport{Scenario: s.Name, What: s.What, Bound: ts[0].Bound, Shards: len(ts), outs: map[string]int64{}}
			index[key(ts[0])] = r
			reps = append(reps, r)
		}
	}
	// smaller bounds of every scenario first
	for i := 0; i <= maxRound; i++ {
		for _, ts := range rounds[i] {
			all = append(all, ts...)
		}
	}
	if len(all) == 0 {
		fmt.Fprintln(os.Stderr, "no scenario for", o.prop)
		return 2
	}

	var mu sync.Mutex
	next := 0
	var found *TaskResult
	var fatal string
	stop := false
	knownN := map[string]int64{}
	var wg sync.WaitGroup
	procs := map[*proc]bool{}
	for w := 0; w < min(o.workers, len(all)); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p, err := newProc()
			if err != nil {
				mu.Lock()
				fatal, stop = err.Error(), true
				mu.Unlock()
				return
			}
			mu.Lock()
			procs[p] = true
			mu.Unlock()
			defer p.kill()
			for {
				mu.Lock()
				left := time.Until(deadline).Seconds()
				if stop || next >= len(all) || left < 0.5 {
					mu.Unlock()
					return
				}
				t := all[next]
				next++
				mu.Unlock()
				t.Seconds = left
				r, err := p.do(t)
				mu.Lock()
				if stop {
					mu.Unlock()
					return
				}
				if err != nil {
					fatal, stop = err.Error(), true
				} else if r.Fatal != "" {
					fatal, stop = r.Fatal, true
				} else {
					b := index[key(t)]
					b.add(&r)
					for k, n := range r.Known {
						knownN[k] += n
					}
					if r.Violation != nil && found == nil {
						found, stop = &r, true
					}
				}
				if stop {
					for q := range procs {
						if q != p {
							q.cmd.Process.Kill()
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if fatal != "" {
		fmt.Fprintln(os.Stderr, "error of the check:", fatal)
		return 2
	}
	code := 0
	nviol := 0
	if found != nil {
		endless := strings.HasPrefix(found.Violation.Msg, "endless loop")
		rt := found.Task
		rt.Replay, rt.Path, rt.Seconds = true, found.Violation.Path, 0
		var rep TaskResult
		if strings.HasPrefix(found.Violation.Msg, died) {
			// the task as a whole is the witness: it has to die again
			p, err := newProc()
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			rt = found.Task
			rt.Seconds = 600
			r, err := p.do(rt)
			p.kill()
			if err != nil || r.Violation == nil || r.Violation.Msg != found.Violation.Msg {
				fmt.Fprintf(os.Stderr, "error of the check: %s: %q does not repeat\n", rt.Scen, found.Violation.Msg)
				return 2
			}
			rep.Violation = found.Violation
		} else if !endless {
			var sig uint64
			for i := 0; i < 5; i++ {
				p, err := newProc()
				if err != nil {
					fmt.Fprintln(os.Stderr, err)
					return 2
				}
				rep, err = p.do(rt)
				p.kill()
				if err != nil || rep.Fatal != "" || rep.Violation == nil || rep.Violation.Msg != found.Violation.Msg || i > 0 && rep.Sig != sig {
					got := ""
					if rep.Violation != nil {
						got = rep.Violation.Msg
					}
					fmt.Fprintf(os.Stderr, "error of the check: %s: violation %q does not replay (%v %s; got %q)\n", rt.Scen, found.Violation.Msg, err, rep.Fatal, got)
					return 2
				}
				sig = rep.Sig
			}
		} else {
			rep.Violation = found.Violation
		}
		rt.Replay = false
		path := writeJSON(o.replays, fmt.Sprintf("%s-%s.json", o.prop, rt.Scen), map[string]any{
			"property": o.prop, "scenario": rt.Scen, "what": find(rt.Scen).What, "message": found.Violation.Msg,
			"task": rt, "trace": rep.Trace, "blocked": rep.Violation.Blocks, "stack": found.Violation.Stack,
			"replay_with": "/verif/check replay <this file>"})
		fmt.Printf("scenario %s: %s\n", rt.Scen, found.Violation.Msg)
		for _, b := range rep.Violation.Blocks {
			fmt.Println("  waiting:", b)
		}
		tr := rep.Trace
		if len(tr) > 60 {
			tr = tr[len(tr)-60:]
		}
		for _, l := range tr {
			fmt.Println("   ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, path)
		code, nviol = 1, 1
	}
	var ks []string
	for k := range knownN {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k)
	}

	// evidence
	cov := map[string]any{}
	exhaustive := next >= len(all) && found == nil
	var states, trans, execs int64
	for _, r := range reps {
		if r.Done < r.Shards || r.outs[tooMany] > 0 {
			exhaustive = false
		}
		states += r.States + r.Cases
		trans += r.Transitions + r.Ops
		execs += r.Executions - r.Pruned
		r.finish()
	}
	samples := []any{}
	if found == nil && len(all) > 0 {
		samples = append(samples, sample(all)...)
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = execs
	cov["samples"] = samples
	cov["exhaustive"] = exhaustive
	cov["explorations"] = reps
	cov["explanation"] = "Executions of the real code (mechanically rewritten so that every synchronisation goes through the explorer), not of a model: every complete execution is one trace checked against the implementation. states = distinct happens-before states at choice points; exhaustive = every execution within the stated preemption/deviation (pb) and fault/clock (fb) bounds was covered."
	ev := map[string]any{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": nviol,
		"assumptions": []string{
			"scheduling points at synchronisation operations suffice because unsynchronised accesses are reported as races (property C09)",
			"sync/atomic operations are sequentially consistent, as in the Go memory model",
			"histories, participants and deviations beyond the stated bounds are not explored",
		},
	}
	if o.evidence != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(o.evidence, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d executions, %d transitions, %d states, exhaustive within bounds: %v, %.1f s\n", o.prop, o.tier, execs, trans, states, exhaustive, time.Since(start).Seconds())
	if os.Getenv("VERBOSE") != "" {
		for _, r := range reps {
			fmt.Printf("  %-28s %+v %d/%d execs %d pruned %d trans %d states %d cases %d depth %d thr %d outs %d bh %v cpu %.1f\n", r.Scenario, r.Bound, r.Done, r.Shards, r.Executions, r.Pruned, r.Transitions, r.States, r.Cases, r.MaxDepth, r.MaxThreads, r.Outcomes, r.BoundHit, r.Wall)
			for k, v := range r.Top {
				fmt.Printf("      %8d %s\n", v, k)
			}
		}
	}
	return code
}

func (b *BoundReport) add(r *TaskResult) {
	if r.Complete {
		b.Done++
	}
	b.Executions += r.Stats.Execs
	b.Pruned += r.Stats.Pruned
	b.Transitions += r.Stats.Transitions
	b.States += r.Stats.States
	b.Cases += r.Stats.Cases
	b.Ops += r.Stats.Ops
	b.MaxDepth = max(b.MaxDepth, r.Stats.MaxDepth)
	b.MaxThreads = max(b.MaxThreads, r.Stats.MaxThreads)
	b.BoundHit = b.BoundHit || r.Stats.BoundHit
	b.FaultHit = b.FaultHit || r.Stats.FaultHit
	for k, n := range r.Stats.Outcomes {
		b.outs[k] += n
	}
	b.Wall += r.Wall
}

func (b *BoundReport) finish() {
	b.Outcomes = len(b.outs)
	var ks []string
	for k := range b.outs {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if b.outs[ks[i]] != b.outs[ks[j]] {
			return b.outs[ks[i]] > b.outs[ks[j]]
		}
		return ks[i] < ks[j]
	})
	b.Top = map[string]int64{}
	for i, k := range ks {
		if i < 8 || strings.HasPrefix(k, "cut:") {
			kk := k
			if len(kk) > 160 {
				kk = kk[:160]
			}
			b.Top[kk] = b.outs[k]
		}
	}
}

// sample writes out the default execution of some scenarios.
func sample(all []Task) []any {
	var out []any
	seen := map[string]bool{}
	p, err := newProc()
	if err != nil {
		return []any{"none: " + err.Error()}
	}
	defer p.kill()
	for _, t := range all {
		if seen[t.Scen] || len(out) >= 3 {
			continue
		}
		seen[t.Scen] = true
		t.Replay = true
		r, err := p.do(t)
		if err != nil {
			break
		}
		tr := r.Trace
		if len(tr) > 40 {
			tr = append(append([]string{}, tr[:20]...), append([]string{"..."}, tr[len(tr)-19:]...)...)
		}
		for i := range tr {
			if len(tr[i]) > 160 {
				tr[i] = tr[i][:160]
			}
		}
		out = append(out, map[string]any{"scenario": t.Scen, "trace": tr})
	}
	return out
}

func has(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

func writeJSON(dir, name string, v any) string {
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, name)
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}
