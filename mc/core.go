// Package mc is a controlled scheduler: every goroutine of the program under
// test is a coroutine, every synchronisation operation a transition chosen by
// the explorer. Exactly one coroutine runs at a time.
package mc

import (
	"fmt"
	"iter"
	"os"
	"regexp"
	"runtime/debug"
	"slices"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- hashing

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 32
	a *= 0xd6e8feb86659fd93
	a ^= a >> 29
	a *= 0x9fb21c651e98df25
	a ^= a >> 32
	return a
}

func Mix(a, b uint64) uint64 { return mix(a, b) }

func mix3(a, b, c uint64) uint64    { return mix(mix(a, b), c) }
func mix4(a, b, c, d uint64) uint64 { return mix(mix3(a, b, c), d) }

func fin(a uint64) uint64 { return mix(a, 0x5bd1e995a5a5a5a5) }

func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func HashBytes(s []byte) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// ---------------------------------------------------------------- threads

// Op is a pending visible operation of a thread.
type Op interface {
	// Alts is the number of ways the operation can happen now (0 = blocked).
	Alts(t *Thread) int
	// Hash predicts the thread's causal hash after alternative alt.
	Hash(t *Thread, alt int) uint64
	// Exec performs alternative alt; h is the predicted hash.
	Exec(t *Thread, alt int, h uint64)
	String() string
}

// pairOp is an Op whose execution completes another thread's pending op too.
type pairOp interface {
	Partner(t *Thread, alt int) (p *Thread, h uint64)
}

// costOp is an Op some of whose alternatives cost part of the fault budget.
type costOp interface {
	Cost(alt int) int
}

type Thread struct {
	num    int // creation order, index into vector clocks
	vc     vclock
	ord    []int32 // canonical position: the path in the spawn tree
	kids   int32
	Name   string
	h      uint64
	cnt    uint64
	co     *coro
	aborts int
	lost   bool
	op     Op
	done   bool
	quiet  bool   // parked at a lowest-priority operation
	daemon bool   // harness thread: may stay blocked
	code   bool   // goroutine of the code under test
	panicv string // panic to raise when resumed
	// reusable op records
	sendOp sendOp
	recvOp recvOp
	selOp  selectOp
	lockOp lockOp
	accOp  accOp
}

type coro struct {
	next  func() (struct{}, bool)
	stop  func()
	yield func(struct{}) bool
	job   func()
}

type abortT struct{}

var abortV = &abortT{}

// abortVal is what a thread of an execution that is over panics with. One
// that catches panics for ever is left where it is.
func abortVal() any {
	if t := x.cur; t != nil && x.abort {
		if t.aborts++; t.aborts > 40 {
			t.lost = true
			for {
				t.co.yield(struct{}{})
			}
		}
	}
	return abortV
}

// FatalError is raised for misuse of the runtime or replay divergence: it is
// an error of the machinery, never a verdict.
type FatalError struct{ Msg string }

func (e FatalError) Error() string { return e.Msg }

// ---------------------------------------------------------------- explorer

type Mode int

const (
	Preempt Mode = iota // switching away from an enabled thread costs 1
	Delay               // every departure from the default schedule costs 1
)

type Config struct {
	Name      string
	Mode      Mode
	PB        int // schedule bound; -1 = unbounded
	FB        int // budget for faults and clock deviations
	TimeDev   bool
	MaxSteps  int
	Shard     int
	Shards    int
	Deadline  time.Time // wall clock limit for the exploration (zero: none)
	MaxExecs  int64
	KeepTrace bool
	NoCache   bool
	Race      bool // report unsynchronised accesses as violations
	// Known tells that a violation is a listed finding: the execution ends
	// and the exploration goes on.
	Known func(msg string) bool
}

type alt struct {
	tid  int32 // -1: clock
	a    int32
	p, f int16 // total cost after taking it
	key  uint64
}

type point struct {
	cur  int
	sig  uint64
	alts []alt
	data bool
}

type Violation struct {
	Msg    string   `json:"msg"`
	Path   []int    `json:"path"`
	Trace  []string `json:"trace,omitempty"`
	Blocks []string `json:"blocked,omitempty"`
	Stack  string   `json:"stack,omitempty"`
}

type Stats struct {
	Execs       int64
	Pruned      int64
	Transitions int64 // transitions executed, replayed prefixes included
	NewTrans    int64 // transitions executed beyond replayed prefixes
	States      int64 // distinct happens-before states recorded
	MaxDepth    int
	MaxThreads  int
	BoundHit    bool // some alternative was skipped because of PB
	FaultHit    bool // some alternative was skipped because of FB
	Capped      bool
	Cases       int64 // inputs and histories evaluated within executions (see Count)
	Ops         int64
	Outcomes    map[string]int64
}

type Exec struct {
	cfg     Config
	threads []*Thread
	queue   []*Thread
	cur     *Thread // running thread (nil outside)
	last    *Thread // last scheduled thread
	sig     uint64
	now     int64 // virtual nanoseconds
	timers  []*timer
	tseq    uint64
	path    []point
	depth   int
	p, f    int16
	steps   int
	done    bool
	abort   bool
	pruned  bool
	viol    *Violation
	fatal   *FatalError
	trace   []string
	visited table
	stats   Stats
	pool    []*coro
	replay  bool
	forced  []int
	addr    map[any]*Obj
	tmp     []alt
	outcome string
	shadow  map[unsafe.Pointer]*shadow
}

// x is the exploration in progress; nil outside.
var x *Exec

// Count notes cases (inputs, histories) and operations evaluated by sequential
// code within an execution.
func Count(cases, ops int64) {
	if x != nil {
		x.stats.Cases += cases
		x.stats.Ops += ops
		x.steps = 0 // the limit of steps is for one case
	}
	Progress.Add(1)
}

// Progress is bumped for every transition; a watchdog may observe it.
var Progress atomic.Int64

func (e *Exec) setH(t *Thread, h uint64) {
	e.sig += fin(h) - fin(t.h)
	t.h = h
}

// Cur returns the running thread, failing if called from outside.
func Cur() *Thread {
	if x == nil || x.cur == nil {
		panic(FatalError{"mc operation outside a controlled thread"})
	}
	return x.cur
}

// Active reports whether the caller runs under the explorer.
func Active() bool { return x != nil && x.cur != nil }

func (t *Thread) Hash() uint64 { return t.h }

func (e *Exec) getCoro() *coro {
	if n := len(e.pool); n > 0 {
		c := e.pool[n-1]
		e.pool = e.pool[:n-1]
		return c
	}
	c := &coro{}
	c.next, c.stop = iter.Pull(func(yield func(struct{}) bool) {
		c.yield = yield
		for {
			c.job()
			if !yield(struct{}{}) {
				return
			}
		}
	})
	return c
}

// kid reserves the position of t's next child.
func (t *Thread) kid() []int32 {
	t.kids++
	return append(append(make([]int32, 0, len(t.ord)+1), t.ord...), t.kids)
}

// ID is the thread's canonical name.
func (t *Thread) ID() string {
	s := ""
	for i, k := range t.ord {
		if i > 0 {
			s += "."
		}
		s += fmt.Sprint(k)
	}
	return s
}

func (e *Exec) spawn(name string, fn func(), h uint64, ord []int32) *Thread {
	t := &Thread{ord: ord, Name: name, h: h, num: len(e.threads)}
	if e.cfg.Race {
		if p := e.cur; p != nil {
			t.vc = p.vc.clone()
			p.tick()
		}
		t.tick()
	}
	e.sig += fin(h)
	t.co = e.getCoro()
	t.co.job = func() {
		defer func() {
			r := recover()
			t.done = true
			if t.op != nil {
				t.op = nil
			}
			if r == nil || r == any(abortV) {
				return
			}
			if fe, ok := r.(FatalError); ok {
				if e.fatal == nil {
					e.fatal = &fe
				}
				e.done = true
				return
			}
			if e.abort {
				return
			}
			e.fail(fmt.Sprintf("panic in goroutine %s: %v", t.Name, r), string(debug.Stack()))
		}()
		if e.abort {
			return
		}
		fn()
	}
	i := len(e.threads)
	e.threads = append(e.threads, t)
	for i > 0 && slices.Compare(e.threads[i-1].ord, ord) > 0 {
		e.threads[i] = e.threads[i-1]
		i--
	}
	e.threads[i] = t
	if len(e.threads) > e.stats.MaxThreads {
		e.stats.MaxThreads = len(e.threads)
	}
	e.queue = append(e.queue, t)
	return t
}

// address: addresses in a message differ from run to run.
var address = regexp.MustCompile("0x[0-9a-f]{6,}")

func (e *Exec) fail(msg, stack string) {
	if e.viol == nil && !e.abort {
		msg = address.ReplaceAllString(msg, "0x")
		v := &Violation{Msg: msg, Stack: stack}
		e.viol = v
		for _, t := range e.threads {
			if !t.done && t.op != nil {
				v.Blocks = append(v.Blocks, fmt.Sprintf("%s#%s at %s", t.Name, t.ID(), t.op.String()))
			}
		}
	}
	e.done = true
}

// Fail records a violation and ends the execution; it does not return when
// called from a controlled thread.
func Fail(format string, a ...any) {
	if x == nil {
		panic(fmt.Sprintf(format, a...))
	}
	if x.abort {
		panic(abortVal())
	}
	x.fail(fmt.Sprintf(format, a...), "")
	if x.cur != nil {
		panic(abortVal())
	}
}

// Outcome labels this execution for the outcome statistics.
func Outcome(s string) {
	if x != nil && !x.abort {
		x.outcome = s
	}
}

// park makes op the running thread's pending operation and returns when it
// has been executed.
func park(op Op) {
	e := x
	t := e.cur
	if e.abort {
		panic(abortVal())
	}
	t.op = op
	if len(e.queue) == 0 && !e.done {
		e.pick()
		if len(e.queue) == 1 && e.queue[0] == t {
			e.queue = e.queue[:0]
			t.op = nil
			if t.panicv != "" {
				v := t.panicv
				t.panicv = ""
				panic(RuntimeError(v))
			}
			return
		}
	}
	t.co.yield(struct{}{})
	e.cur = t
	if e.abort {
		panic(abortVal())
	}
	t.op = nil
	if t.panicv != "" {
		v := t.panicv
		t.panicv = ""
		panic(RuntimeError(v))
	}
}

// Park is park for operations defined outside this package.
func Park(op Op) {
	Cur()
	park(op)
}

// RuntimeError stands for the panics the Go runtime raises.
type RuntimeError string

func (r RuntimeError) Error() string { return string(r) }
func (r RuntimeError) RuntimeError() {}

// Resume queues t (whose op has been executed) to run.
func (e *Exec) resume(t *Thread) { e.queue = append(e.queue, t) }

// pick chooses and executes the next transition; resumed threads end up in
// the queue, or done is set.
func (e *Exec) pick() {
	for {
		if e.done {
			return
		}
		e.steps++
		if e.steps > e.cfg.MaxSteps {
			e.fail(fmt.Sprintf("no end after %d steps (livelock)", e.cfg.MaxSteps), "")
			return
		}
		if e.steps&1023 == 0 {
			Progress.Add(1)
		}
		alts := e.enabled()
		if len(alts) == 0 {
			if e.nextTimer() >= 0 {
				e.advance()
				if len(e.queue) > 0 {
					// a timer has started threads
					return
				}
				continue
			}
			e.fail("deadlock: the driver is blocked for ever", "")
			return
		}
		i := e.decide(alts, false)
		if i < 0 {
			return
		}
		a := alts[i]
		e.p, e.f = a.p, a.f
		e.stats.Transitions++
		if a.tid < 0 {
			e.advance()
			if len(e.queue) > 0 {
				return
			}
			continue
		}
		t := e.threads[a.tid]
		h := t.op.Hash(t, int(a.a))
		if e.cfg.KeepTrace {
			e.trace = append(e.trace, fmt.Sprintf("%s#%s %s%s @%v", t.Name, t.ID(), t.op.String(), altString(t.op, int(a.a)), time.Duration(e.now)))
		}
		e.last = t
		var pt *Thread
		var ph uint64
		if po, ok := t.op.(pairOp); ok {
			pt, ph = po.Partner(t, int(a.a))
		}
		e.resume(t)
		t.op.Exec(t, int(a.a), h)
		e.setH(t, h)
		if pt != nil {
			e.setH(pt, ph)
			e.resume(pt)
		}
		return
	}
}

type altStringer interface{ AltString(alt int) string }

func altString(op Op, alt int) string {
	if s, ok := op.(altStringer); ok {
		return " " + s.AltString(alt)
	}
	if alt != 0 {
		return fmt.Sprintf(" alt%d", alt)
	}
	return ""
}

func (e *Exec) addAlts(out []alt, ti int, free bool) []alt {
	t := e.threads[ti]
	n := t.op.Alts(t)
	if n == 0 {
		return out
	}
	co, hasCost := t.op.(costOp)
	po, pair := t.op.(pairOp)
	for i := 0; i < n; i++ {
		a := alt{tid: int32(ti), a: int32(i), p: e.p, f: e.f}
		if e.cfg.PB >= 0 && (!free || e.cfg.Mode == Delay && len(out) > 0) {
			a.p++
		}
		if hasCost {
			if c := co.Cost(i); c != 0 {
				a.f += int16(c)
				if e.cfg.Mode == Delay && free && i > 0 {
					a.p = e.p
				}
			}
		}
		h := t.op.Hash(t, i)
		s := e.sig + fin(h) - fin(t.h)
		if pair {
			if pt, ph := po.Partner(t, i); pt != nil {
				s += fin(ph) - fin(pt.h)
			}
		}
		if e.cfg.PB >= 0 {
			s = mix(s, h)
		}
		a.key = s
		out = append(out, a)
	}
	return out
}

func (e *Exec) enabled() []alt {
	out := e.tmp[:0]
	n := len(e.threads)
	quiet := false
	li := 0
	for i, t := range e.threads {
		if t == e.last {
			li = i
			break
		}
	}
	if t := e.threads[li]; !t.done && t.op != nil {
		if t.quiet {
			quiet = true
		} else {
			out = e.addAlts(out, li, true)
		}
	}
	lastEnabled := len(out) > 0
	for k := 1; k < n; k++ {
		// cyclic order after the last thread
		i := li + k
		if i >= n {
			i -= n
		}
		t := e.threads[i]
		if t.done || t.op == nil {
			continue
		}
		if t.quiet {
			quiet = true
			continue
		}
		free := !lastEnabled
		if e.cfg.Mode == Delay {
			free = len(out) == 0
		}
		out = e.addAlts(out, i, free)
	}
	if len(out) == 0 && quiet {
		for i, t := range e.threads {
			if !t.done && t.op != nil && t.quiet {
				out = e.addAlts(out, i, true)
				if len(out) > 0 {
					break
				}
			}
		}
	} else if len(out) > 0 && e.cfg.TimeDev {
		if d := e.nextTimer(); d >= 0 {
			k := e.clockSig(d)
			if e.cfg.PB >= 0 && e.last != nil {
				k = mix(k, e.last.h)
			}
			out = append(out, alt{tid: -1, p: e.p, f: e.f + 1, key: k})
		}
	}
	e.tmp = out
	return out
}

// decide picks one of alts; -1 ends the execution (pruned or replay failure).
func (e *Exec) decide(alts []alt, data bool) int {
	if len(alts) == 1 && !data {
		return 0
	}
	d := e.depth
	if d < len(e.path) {
		pt := &e.path[d]
		if pt.sig != e.sig || len(pt.alts) != len(alts) || pt.data != data {
			panic(FatalError{fmt.Sprintf("%s: replay diverged at choice %d (%d/%d alternatives)", e.cfg.Name, d, len(pt.alts), len(alts))})
		}
		e.depth++
		return pt.cur
	}
	e.stats.NewTrans++
	if e.replay {
		c := 0
		if d < len(e.forced) {
			c = e.forced[d]
		}
		if c < 0 || c >= len(alts) {
			panic(FatalError{fmt.Sprintf("%s: replay choice %d out of range at %d (%d alternatives)", e.cfg.Name, c, d, len(alts))})
		}
		e.path = append(e.path, point{cur: c, sig: e.sig, data: data, alts: append([]alt(nil), alts...)})
		e.depth++
		return c
	}
	if e.cfg.Shards > 1 && !data && e.otherShard() {
		e.pruned = true
		e.done = true
		return -1
	}
	if !e.cfg.NoCache {
		k := mix(e.sig, 0xac7)
		if e.cfg.PB >= 0 && e.last != nil {
			k = mix(k, e.last.h)
		}
		if data {
			k = mix(k, e.cur.h)
		}
		if !e.visited.visit(mix(k, uint64(e.f)), uint8(min(int(e.p), 255))) {
			e.pruned = true
			e.done = true
			return -1
		}
	}
	var st []alt
	if cap(e.path) > d {
		st = e.path[:d+1][d].alts[:0]
	}
	st = append(st, alts...)
	e.path = append(e.path, point{cur: -1, sig: e.sig, data: data, alts: st})
	if !e.nextAlt(d) {
		e.path = e.path[:d]
		e.pruned = true
		e.done = true
		return -1
	}
	e.depth++
	if e.depth > e.stats.MaxDepth {
		e.stats.MaxDepth = e.depth
	}
	return e.path[d].cur
}

// shardAt tells whether the executions are divided among the shards at point
// d, and the number of the alternative taken there: at the first point if it
// is a scheduling choice, otherwise at the leading data choice with which the
// combinations become as many as there are shards. (States after different
// data choices differ, so what one shard leaves out another one covers.)
func (e *Exec) shardAt(d int) (idx int, at bool) {
	if d == 0 && !e.path[0].data {
		return e.path[0].cur, true
	}
	n := 1
	for i := 0; i <= d; i++ {
		if !e.path[i].data || n >= e.cfg.Shards {
			return 0, false
		}
		idx += n * e.path[i].cur
		n *= len(e.path[i].alts)
	}
	return idx, n >= e.cfg.Shards
}

// otherShard: the leading data choices were too few to divide the executions
// at, a scheduling choice follows, and this one belongs to another shard.
func (e *Exec) otherShard() bool {
	n, idx := 1, 0
	for i := range e.path {
		if !e.path[i].data || n >= e.cfg.Shards {
			return false
		}
		idx += n * e.path[i].cur
		n *= len(e.path[i].alts)
	}
	return n < e.cfg.Shards && len(e.path) > 0 && idx%e.cfg.Shards != e.cfg.Shard
}

// nextAlt moves point d to its next unexplored alternative.
func (e *Exec) nextAlt(d int) bool {
	pt := &e.path[d]
	for pt.cur++; pt.cur < len(pt.alts); pt.cur++ {
		if e.cfg.Shards > 1 {
			if idx, at := e.shardAt(d); at && idx%e.cfg.Shards != e.cfg.Shard {
				continue
			}
		}
		a := &pt.alts[pt.cur]
		if e.cfg.PB >= 0 && int(a.p) > e.cfg.PB {
			e.stats.BoundHit = true
			continue
		}
		if int(a.f) > e.cfg.FB {
			e.stats.FaultHit = true
			continue
		}
		if e.cfg.NoCache {
			return true
		}
		if e.visited.visit(mix(a.key, uint64(a.f)), uint8(min(int(a.p), 255))) {
			return true
		}
	}
	return false
}

// runOnce executes the program once along the current path.
func (e *Exec) runOnce(fn func()) {
	e.threads = e.threads[:0]
	e.queue = e.queue[:0]
	e.timers = e.timers[:0]
	e.sig, e.now, e.tseq = 0, 0, 0
	e.depth, e.p, e.f, e.steps, e.last = 0, 0, 0, 0, nil
	e.done, e.abort, e.pruned = false, false, false
	e.trace = e.trace[:0]
	e.outcome = ""
	e.addr = nil
	e.shadow = nil
	e.cur = nil
	for _, r := range resetsAt {
		r.f()
	}
	for _, r := range resets {
		r()
	}
	main := e.spawn("driver", fn, 1, []int32{0})
	for !e.done {
		if len(e.queue) > 0 {
			t := e.queue[0]
			e.queue = e.queue[:copy(e.queue, e.queue[1:])]
			e.run(t)
			if main.done {
				e.done = true
			}
			continue
		}
		e.safePick()
	}
	e.stats.Execs++
	Progress.Add(1)
	// abandon whatever still runs
	e.abort = true
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		if !t.done {
			e.run(t)
			if t.lost {
				t.co = nil
				continue
			}
			if !t.done {
				panic(FatalError{"thread survived abort: " + t.Name})
			}
		}
		e.pool = append(e.pool, t.co)
		t.co = nil
	}
	e.cur = nil
}

func (e *Exec) safePick() {
	defer func() {
		if r := recover(); r != nil {
			if fe, ok := r.(FatalError); ok {
				e.fatal = &fe
				e.done = true
				return
			}
			panic(r)
		}
	}()
	e.pick()
}

func (e *Exec) run(t *Thread) {
	e.cur = t
	t.co.next()
	e.cur = nil
}

var resets []func()

// RegisterReset adds a function that restores package state before every
// execution. Called from init functions in dependency order.
func RegisterReset(f func()) { resets = append(resets, f) }

type resetAt struct {
	pkg, n int
	f      func()
}

var resetsAt []resetAt

// RegisterResetAt is RegisterReset with an explicit position.
func RegisterResetAt(pkg, n int, f func()) {
	resetsAt = append(resetsAt, resetAt{pkg, n, f})
	slices.SortStableFunc(resetsAt, func(a, b resetAt) int {
		if a.pkg != b.pkg {
			return a.pkg - b.pkg
		}
		return a.n - b.n
	})
}

type Result struct {
	Stats     Stats
	Violation *Violation
	Fatal     *FatalError
	Complete  bool // every execution within PB and FB was covered
}

func newExec(cfg Config) *Exec {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	e := &Exec{cfg: cfg}
	e.stats.Outcomes = map[string]int64{}
	e.visited.init()
	return e
}

// Explore runs fn under every schedule and choice within the bounds.
func Explore(cfg Config, fn func()) (res Result) {
	e := newExec(cfg)
	x = e
	defer func() { x = nil }()
	for {
		e.runOnce(fn)
		if e.fatal != nil {
			res.Fatal = e.fatal
			break
		}
		if e.viol != nil && cfg.Known != nil && cfg.Known(e.viol.Msg) {
			e.viol = nil
			e.outcome = "known finding"
		}
		if e.viol != nil {
			e.viol.Path = e.choices()
			res.Violation = e.viol
			break
		}
		if e.pruned {
			e.stats.Pruned++
		} else {
			if len(e.stats.Outcomes) < 10000 || e.stats.Outcomes[e.outcome] > 0 {
				e.stats.Outcomes[e.outcome]++
			}
		}
		// backtrack
		d := len(e.path) - 1
		for d >= 0 && !e.nextAlt(d) {
			d--
		}
		if d < 0 {
			res.Complete = true
			break
		}
		e.path = e.path[:d+1]
		if cfg.MaxExecs > 0 && e.stats.Execs >= cfg.MaxExecs {
			e.stats.Capped = true
			break
		}
		if e.stats.Execs&63 == 0 && !cfg.Deadline.IsZero() && time.Now().After(cfg.Deadline) {
			e.stats.Capped = true
			break
		}
	}
	e.stats.States = int64(e.visited.n)
	res.Stats = e.stats
	for _, c := range e.pool {
		c.stop()
	}
	e.pool = nil
	return
}

// Exploring reports whether an exploration is in progress (racy by nature).
func Exploring() bool { return x != nil }

// Path of the execution in progress (for a watchdog; racy by nature).
func CurrentPath() []int {
	if e := x; e != nil {
		return e.choices()
	}
	return nil
}

func (e *Exec) choices() []int {
	var out []int
	for i := range e.path {
		if i >= e.depth {
			break
		}
		out = append(out, e.path[i].cur)
	}
	return out
}

// Replay runs fn once along path (then default choices) and returns what
// happened, with the full trace.
func Replay(cfg Config, path []int, fn func()) (v *Violation, fatal *FatalError, outcome string, sig uint64) {
	cfg.KeepTrace = true
	cfg.NoCache = true
	e := newExec(cfg)
	e.replay = true
	e.forced = path
	x = e
	defer func() { x = nil }()
	e.runOnce(fn)
	if e.viol != nil {
		e.viol.Path = e.choices()
		e.viol.Trace = append([]string(nil), e.trace...)
	}
	for _, c := range e.pool {
		c.stop()
	}
	if e.viol == nil && os.Getenv("MC_TRACE") != "" {
		fmt.Fprintln(os.Stderr, strings.Join(e.trace, "\n"))
	}
	lastTrace = append([]string(nil), e.trace...)
	h := e.sig
	for _, s := range e.trace {
		h = mix(h, HashString(s))
	}
	return e.viol, e.fatal, e.outcome, h
}

var lastTrace []string

// LastTrace is the trace of the last replay.
func LastTrace() []string { return lastTrace }

// ---------------------------------------------------------------- visited set

type table struct {
	keys []uint64
	cost []uint8
	n    int
	mask uint64
}

func (t *table) init() {
	t.keys = make([]uint64, 1<<12)
	t.cost = make([]uint8, 1<<12)
	t.mask = 1<<12 - 1
	t.n = 0
}

// visit records (k, c); false if k was there with a cost <= c.
func (t *table) visit(k uint64, c uint8) bool {
	if k == 0 {
		k = 1
	}
	i := (k * 0x9e3779b97f4a7c15) >> 20 & t.mask
	for {
		if t.keys[i] == 0 {
			t.keys[i] = k
			t.cost[i] = c
			t.n++
			if uint64(t.n)*10 > (t.mask+1)*7 {
				t.grow()
			}
			return true
		}
		if t.keys[i] == k {
			if t.cost[i] <= c {
				return false
			}
			t.cost[i] = c
			return true
		}
		i = (i + 1) & t.mask
	}
}

func (t *table) grow() {
	ok, oc := t.keys, t.cost
	t.keys = make([]uint64, 2*len(ok))
	t.cost = make([]uint8, 2*len(oc))
	t.mask = uint64(len(t.keys) - 1)
	for j, k := range ok {
		if k != 0 {
			i := (k * 0x9e3779b97f4a7c15) >> 20 & t.mask
			for t.keys[i] != 0 {
				i = (i + 1) & t.mask
			}
			t.keys[i] = k
			t.cost[i] = oc[j]
		}
	}
}
