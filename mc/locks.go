package mc

// ---------------------------------------------------------------- mutexes

type lockOp struct {
	m *Mutex
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	o      Obj
	locked bool
}

func (o *lockOp) Alts(t *Thread) int {
	if o.m.locked {
		return 0
	}
	return 1
}
func (o *lockOp) Hash(t *Thread, alt int) uint64 { return mix3(t.h, 0x10c, o.m.o.h) }
func (o *lockOp) Exec(t *Thread, alt int, h uint64) {
	o.m.locked = true
	o.m.o.h = h
	t.vc.join(o.m.o.vc)
}
func (o *lockOp) String() string { return "lock" }

func (m *Mutex) Lock() {
	if !Active() {
		if m.locked {
			panic("lock held outside exploration")
		}
		m.locked = true
		return
	}
	t := x.cur
	_ = m.locked
	t.lockOp.m = m
	park(&t.lockOp)
}

func (m *Mutex) TryLock() bool {
	Access(&m.o, true, "trylock")
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !Active() {
		m.locked = false
		return
	}
	if x.abort {
		return
	}
	if !m.locked {
		x.fail("fatal error: sync: unlock of unlocked mutex", "")
		panic(abortVal())
	}
	m.locked = false
	m.o.h = x.cur.local(0x10d)
	m.o.release(x.cur)
}

// RWMutex replaces sync.RWMutex (without writer preference: a superset of the
// schedules, except that a recursive read lock behind a writer is not a
// deadlock here).
type RWMutex struct {
	o       Obj
	w       bool
	readers int
	rvc     vclock
	rsum    uint64 // unlocks by readers since the last writer
}

type rwOp struct {
	m     *RWMutex
	write bool
}

func (o *rwOp) Alts(t *Thread) int {
	if o.m.w || o.write && o.m.readers > 0 {
		return 0
	}
	return 1
}
func (o *rwOp) Hash(t *Thread, alt int) uint64 {
	if o.write {
		return mix4(t.h, 0x20c, o.m.o.h, o.m.rsum)
	}
	return mix3(t.h, 0x20d, o.m.o.h)
}
func (o *rwOp) Exec(t *Thread, alt int, h uint64) {
	t.vc.join(o.m.o.vc)
	if o.write {
		t.vc.join(o.m.rvc)
		o.m.w = true
		o.m.o.h = h
		o.m.rsum = 0
	} else {
		o.m.readers++
	}
}
func (o *rwOp) String() string {
	if o.write {
		return "rwlock"
	}
	return "rlock"
}

func (m *RWMutex) Lock() {
	_ = m.w
	if Active() {
		park(&rwOp{m, true})
	}
}
func (m *RWMutex) RLock() {
	_ = m.w
	if Active() {
		park(&rwOp{m, false})
	}
}
func (m *RWMutex) TryLock() bool {
	Access(&m.o, true, "trylock")
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	Access(&m.o, true, "tryrlock")
	if m.w {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) Unlock() {
	if !Active() || x.abort {
		return
	}
	if !m.w {
		x.fail("fatal error: sync: Unlock of unlocked RWMutex", "")
		panic(abortVal())
	}
	m.w = false
	m.o.h = x.cur.local(0x20e)
	m.o.release(x.cur)
}
func (m *RWMutex) RUnlock() {
	if !Active() || x.abort {
		return
	}
	if m.readers == 0 {
		x.fail("fatal error: sync: RUnlock of unlocked RWMutex", "")
		panic(abortVal())
	}
	m.readers--
	m.rsum += fin(x.cur.local(0x20f))
	if x.cfg.Race {
		m.rvc.join(x.cur.vc)
		x.cur.tick()
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Locker interface {
	Lock()
	Unlock()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// ---------------------------------------------------------------- cond

// Cond replaces sync.Cond.
type Cond struct {
	L Locker
	o Obj
	w []*condWaiter
}

type condWaiter struct {
	c        *Cond
	signaled bool
	h        uint64
	vc       vclock
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (w *condWaiter) Alts(t *Thread) int {
	if w.signaled {
		return 1
	}
	return 0
}
func (w *condWaiter) Hash(t *Thread, alt int) uint64    { return mix3(t.h, 0xc0d, w.h) }
func (w *condWaiter) Exec(t *Thread, alt int, h uint64) { t.vc.join(w.vc) }
func (w *condWaiter) String() string                    { return "cond.Wait" }

func (c *Cond) Wait() {
	// joining the waiters is visible: its order with Signal matters
	Access(&c.o, true, "cond.Wait (join)")
	w := &condWaiter{c: c}
	c.w = append(c.w, w)
	c.L.Unlock()
	park(w)
	c.L.Lock()
}

func (c *Cond) Signal() {
	Access(&c.o, true, "cond.Signal")
	if len(c.w) > 0 {
		c.w[0].signaled = true
		c.w[0].h = c.o.h
		c.w[0].vc = c.o.vc
		c.w = c.w[1:]
	}
}

func (c *Cond) Broadcast() {
	Access(&c.o, true, "cond.Broadcast")
	for _, w := range c.w {
		w.signaled = true
		w.h = c.o.h
		w.vc = c.o.vc
	}
	c.w = nil
}

// ---------------------------------------------------------------- once, wg

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if !Active() {
		if !o.done {
			defer func() { o.done = true }()
			f()
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	o Obj
	n int
}

func (w *WaitGroup) Add(d int) {
	Access(&w.o, true, "wg.Add")
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go("wg", func() {
		defer w.Done()
		f()
	})
}

type wgOp struct{ w *WaitGroup }

func (o *wgOp) Alts(t *Thread) int {
	if o.w.n == 0 {
		return 1
	}
	return 0
}
func (o *wgOp) Hash(t *Thread, alt int) uint64    { return mix3(t.h, 0x36a, o.w.o.h) }
func (o *wgOp) Exec(t *Thread, alt int, h uint64) { t.vc.join(o.w.o.vc) }
func (o *wgOp) String() string                    { return "wg.Wait" }

func (w *WaitGroup) Wait() {
	if Active() {
		park(&wgOp{w})
	}
}

// Pool replaces sync.Pool (deterministic LIFO, never drops).
type Pool struct {
	New func() any
	o   Obj
	s   []any
}

func (p *Pool) Get() any {
	Access(&p.o, true, "pool.Get")
	if n := len(p.s); n > 0 {
		v := p.s[n-1]
		p.s = p.s[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	Access(&p.o, true, "pool.Put")
	p.s = append(p.s, v)
}
