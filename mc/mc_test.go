package mc

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"time"
)

func outcomes(r Result) string {
	var s []string
	for k := range r.Stats.Outcomes {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func must(t *testing.T, r Result) Result {
	t.Helper()
	if r.Fatal != nil {
		t.Fatal(r.Fatal)
	}
	return r
}

func TestRacyIncrement(t *testing.T) {
	for _, nc := range []bool{false, true} {
		r := must(t, Explore(Config{PB: -1, NoCache: nc}, func() {
			var v int
			inc := func() { a := Glob(&v, "").Get(); Glob(&v, "").Set(a + 1) }
			Go("a", inc)
			Go("b", inc)
			Quiet()
			Outcome(fmt.Sprint(v))
		}))
		if outcomes(r) != "1 2" {
			t.Errorf("nocache=%v outcomes %s %+v", nc, outcomes(r), r.Stats)
		}
	}
}

func TestPreemptionBound(t *testing.T) {
	f := func() {
		var v int
		inc := func() { a := Glob(&v, "").Get(); Glob(&v, "").Set(a + 1) }
		Go("a", inc)
		Go("b", inc)
		Quiet()
		Outcome(fmt.Sprint(v))
	}
	if r := Explore(Config{PB: 0}, f); outcomes(r) != "2" || !r.Stats.BoundHit {
		t.Errorf("PB 0: %s", outcomes(r))
	}
	if r := Explore(Config{PB: 1}, f); outcomes(r) != "1 2" {
		t.Errorf("PB 1: %s", outcomes(r))
	}
	if r := Explore(Config{PB: 0, Mode: Delay}, f); outcomes(r) != "2" || r.Stats.Execs != 1 {
		t.Errorf("delay 0: %s %d", outcomes(r), r.Stats.Execs)
	}
	if r := Explore(Config{PB: 1, Mode: Delay}, f); outcomes(r) != "1 2" {
		t.Errorf("delay 1: %s", outcomes(r))
	}
}

func TestDeadlock(t *testing.T) {
	var m func() = func() {
		var a, b Mutex
		done := MakeChan[int](2)
		Go("1", func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); Send(done, 1) })
		Go("2", func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock(); Send(done, 1) })
		Recv(done)
		Recv(done)
	}
	r := Explore(Config{PB: -1}, m)
	if r.Violation == nil || !strings.Contains(r.Violation.Msg, "deadlock") {
		t.Fatal("no deadlock", r.Stats)
	}
	v, f, _, s1 := Replay(Config{PB: -1}, r.Violation.Path, m)
	if f != nil || v == nil {
		t.Fatal("replay", f)
	}
	_, _, _, s2 := Replay(Config{PB: -1}, r.Violation.Path, m)
	if s1 != s2 {
		t.Fatal("replays differ")
	}
}

func TestLostWakeup(t *testing.T) {
	prog := func(locked bool) func() {
		return func() {
			var m Mutex
			c := NewCond(&m)
			var ready int
			Go("w", func() {
				if locked {
					m.Lock()
				}
				Glob(&ready, "").Set(1)
				c.Broadcast()
				if locked {
					m.Unlock()
				}
			})
			m.Lock()
			for Glob(&ready, "").Get() == 0 {
				c.Wait()
			}
			m.Unlock()
		}
	}
	if r := Explore(Config{PB: -1}, prog(true)); r.Violation != nil || !r.Complete {
		t.Error("locked:", r.Violation)
	}
	if r := Explore(Config{PB: -1}, prog(false)); r.Violation == nil {
		t.Error("unlocked: lost wakeup not found")
	}
}

func TestIndependent(t *testing.T) {
	r := must(t, Explore(Config{PB: -1}, func() {
		for i := 0; i < 3; i++ {
			Go("t", func() {
				var m Mutex
				for k := 0; k < 3; k++ {
					m.Lock()
					m.Unlock()
				}
			})
		}
		Quiet()
		Outcome("x")
	}))
	if r.Stats.States > 150 {
		t.Errorf("%+v", r.Stats)
	}
}

func TestTimeoutVersusMessage(t *testing.T) {
	f := func() {
		c := MakeChan[int]()
		tc := TimerChan()
		AddTimer(int64(time.Second), func(tag uint64) { Inject(tc, time.Time{}, tag, nil) })
		Go("s", func() { Sleep(time.Second); Send(c, 1) })
		switch Select(false, RecvCase(c), RecvCase(tc)) {
		case 0:
			Outcome("msg")
		case 1:
			Outcome("timeout")
		}
	}
	r := must(t, Explore(Config{PB: -1}, f))
	if outcomes(r) != "msg timeout" {
		t.Error(outcomes(r))
	}
}

func TestSelectDefault(t *testing.T) {
	f := func() {
		c := MakeChan[int](1)
		Go("s", func() { Send(c, 1) })
		if Select(true, RecvCase(c)) == 0 {
			Outcome("got")
		} else {
			Outcome("none")
		}
	}
	r := must(t, Explore(Config{PB: -1}, f))
	if outcomes(r) != "got none" {
		t.Error(outcomes(r))
	}
}

// Random programs: the happens-before cache must not change the set of
// outcomes, nor whether a failure is reachable.
func TestCacheSound(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for n := 0; n < 150; n++ {
		prog := randomProgram(rnd)
		a := Explore(Config{PB: -1, FB: 1, TimeDev: n%3 == 0, MaxExecs: 200000, NoCache: true}, prog)
		if a.Stats.Capped {
			continue
		}
		b := Explore(Config{PB: -1, FB: 1, TimeDev: n%3 == 0}, prog)
		if a.Fatal != nil || b.Fatal != nil {
			t.Fatal(n, a.Fatal, b.Fatal)
		}
		if (a.Violation != nil) != (b.Violation != nil) {
			t.Fatalf("program %d: violation %v vs %v", n, a.Violation, b.Violation)
		}
		if a.Violation == nil && outcomes(a) != outcomes(b) {
			t.Fatalf("program %d: outcomes\n%s\n%s", n, outcomes(a), outcomes(b))
		}
		for pb := 0; pb < 3; pb++ {
			for _, m := range []Mode{Preempt, Delay} {
				a := Explore(Config{Mode: m, PB: pb, MaxExecs: 200000, NoCache: true}, prog)
				b := Explore(Config{Mode: m, PB: pb}, prog)
				if a.Stats.Capped {
					continue
				}
				if (a.Violation != nil) != (b.Violation != nil) || a.Violation == nil && outcomes(a) != outcomes(b) {
					t.Fatalf("program %d mode %d pb %d: outcomes\n%s\n%s", n, m, pb, outcomes(a), outcomes(b))
				}
			}
		}
	}
}

func randomProgram(rnd *rand.Rand) func() {
	type ins struct{ op, a, b int }
	nt := 2 + rnd.Intn(2)
	progs := make([][]ins, nt)
	for i := range progs {
		for k := 0; k < 2+rnd.Intn(3); k++ {
			progs[i] = append(progs[i], ins{rnd.Intn(12), rnd.Intn(2), rnd.Intn(2)})
		}
	}
	return func() {
		ch := []*Chan[int]{MakeChan[int](), MakeChan[int](1), MakeChan[int](2)}
		var mu [2]Mutex
		var v [2]int
		log := make([]string, nt)
		fin := 0
		for i := range progs {
			i := i
			Go(fmt.Sprint(i), func() {
				reg := 0
				for _, in := range progs[i] {
					switch in.op {
					case 0:
						mu[in.a].Lock()
						Glob(&v[in.b], "").Set(reg + 1)
						mu[in.a].Unlock()
					case 1:
						reg = Glob(&v[in.a], "").Get()
					case 2:
						Send(ch[in.a], 10*i+reg)
					case 3:
						reg += Recv(ch[in.a])
					case 4:
						Send(ch[2], i)
					case 5:
						k := Select(in.b == 0, RecvCase(ch[in.a]), SendCase(ch[1-in.a], i))
						reg += 100 * (k + 2)
					case 6:
						reg = Glob(&v[0], "").Get() + Glob(&v[1], "").Get()
					case 7:
						Sleep(time.Duration(in.a+1) * time.Second)
						reg += int(ReadClock() / 1e9)
					case 8:
						reg += Len(ch[2])
					case 9:
						c := RecvCase(ch[1])
						tc := TimerChan()
						tm := AddTimer(int64(time.Second), func(tag uint64) { Inject(tc, time.Time{}, tag, nil) })
						if Select(false, c, RecvCase(tc)) == 0 {
							reg += c.Val()
							if !tm.Stop() {
								reg += 1000
							}
						} else {
							reg += 500
						}
					case 10:
						reg += ChooseFault(2) * 7
					case 11:
						Go("k", func() { Glob(&v[in.a], "").Set(9) })
					}
					log[i] += fmt.Sprintf("%d.", reg)
				}
				*Glob(&fin, "").Ref()++
			})
		}
		Sleep(time.Hour)
		Outcome(fmt.Sprint(log, v))
	}
}

// The shards together see what one exploration sees.
func TestShards(t *testing.T) {
	rnd := rand.New(rand.NewSource(2))
	for n := 0; n < 60; n++ {
		prog := randomProgram(rnd)
		dims := []int{1 + rnd.Intn(5), 1 + rnd.Intn(4), 1 + rnd.Intn(3)}
		f := func() {
			s := ""
			for _, d := range dims[:n%4] {
				s += fmt.Sprint(Choose(d), ",")
			}
			Trace("%s", s)
			data := s
			prog()
			Outcome(data + x.outcome)
		}
		a := Explore(Config{Mode: Delay, PB: 1, FB: 1}, f)
		for _, sh := range []int{2, 7, 16} {
			all := Result{Stats: Stats{Outcomes: map[string]int64{}}}
			viol := false
			for i := 0; i < sh; i++ {
				b := Explore(Config{Mode: Delay, PB: 1, FB: 1, Shards: sh, Shard: i}, f)
				if b.Fatal != nil {
					t.Fatal(b.Fatal)
				}
				viol = viol || b.Violation != nil
				for k, v := range b.Stats.Outcomes {
					all.Stats.Outcomes[k] += v
				}
			}
			if viol != (a.Violation != nil) || !viol && outcomes(all) != outcomes(a) {
				t.Fatalf("program %d, %d shards:\n%s\n%s", n, sh, outcomes(all), outcomes(a))
			}
		}
	}
}

// A thread that catches every panic does not keep an execution from ending.
func TestCatchAll(t *testing.T) {
	r := must(t, Explore(Config{Mode: Delay, PB: 1}, func() {
		ch := MakeChan[int]()
		n := 0
		Go("stubborn", func() {
			Daemon()
			for {
				func() {
					defer func() { recover() }()
					n += Recv(ch)
				}()
			}
		})
		Send(ch, 1)
		Send(ch, 2)
		Quiet()
		Outcome(fmt.Sprint(n))
	}))
	if outcomes(r) != "3" || r.Violation != nil {
		t.Error(outcomes(r), r.Violation)
	}
}

func TestAtomicRaces(t *testing.T) {
	type v struct{ n int64 }
	run := func(f func(p *v) (func(), func())) bool {
		r := Explore(Config{PB: 2, Race: true}, func() {
			p := &v{}
			*W(&p.n, "init") = 0
			a, b := f(p)
			Go("a", a)
			Go("b", b)
			Quiet()
		})
		return r.Violation != nil
	}
	load := func(p *v) func() { return func() { AddrAccess(&p.n, false, "atomic") } }
	add := func(p *v) func() { return func() { AddrAccess(&p.n, true, "atomic") } }
	read := func(p *v) func() { return func() { R(&p.n, "r") } }
	write := func(p *v) func() { return func() { W(&p.n, "w") } }
	for _, c := range []struct {
		name string
		a, b func(*v) func()
		want bool
	}{
		{"load/load", load, load, false}, {"load/add", load, add, false}, {"add/add", add, add, false},
		{"load/read", load, read, false}, {"add/read", add, read, true},
		{"load/write", load, write, true}, {"add/write", add, write, true},
	} {
		if got := run(func(p *v) (func(), func()) { return c.a(p), c.b(p) }); got != c.want {
			t.Errorf("%s: race %v, want %v", c.name, got, c.want)
		}
	}
	// an atomic write publishes what precedes it
	if run(func(p *v) (func(), func()) {
		q := &v{}
		return func() { W(&p.n, "w"); AddrAccess(&q.n, true, "atomic"); q.n = 1 },
			func() {
				AddrAccess(&q.n, false, "atomic")
				if q.n == 1 {
					R(&p.n, "r")
				}
			}
	}) {
		t.Error("publication by an atomic write reported as a race")
	}
	// a write after the atomic one that published is not ordered
	if !run(func(p *v) (func(), func()) {
		q := &v{}
		return func() { AddrAccess(&q.n, true, "atomic"); q.n = 1; W(&q.n, "w") },
			func() { AddrAccess(&q.n, false, "atomic") }
	}) {
		t.Error("plain write after an atomic one not reported")
	}
}
