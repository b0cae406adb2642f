package mc

import (
	"fmt"
	"reflect"
	"regexp"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- objects

// Obj is the causal identity of a shared object: a hash of the operations on
// it that later operations depend on.
type Obj struct {
	h  uint64
	vc vclock
}

func (o *Obj) H() uint64     { return o.h }
func (o *Obj) SetH(h uint64) { o.h = h }

// local is a hash identifying a local event of t: one that needs no scheduling
// point because it commutes with everything other threads can do next, and is
// determined by t's earlier events.
func (t *Thread) local(tag uint64) uint64 {
	t.cnt++
	return mix3(t.h, tag, t.cnt)
}

// ---------------------------------------------------------------- go, choose

// Go starts fn as a new controlled thread.
func Go(name string, fn func()) { goThread(name, fn) }

func goThread(name string, fn func()) *Thread {
	t := Cur()
	if x.abort {
		panic(abortVal())
	}
	return x.spawn(name, fn, t.local(0x61), t.kid())
}

// GoCode is Go for a goroutine of the code under test.
func GoCode(name string, fn func()) { goThread(name, fn).code = true }

// Daemon marks the running thread as one that may stay blocked for ever.
func Daemon() { Cur().daemon = true }

// Choose returns every value in [0,n), one per execution.
func Choose(n int) int { return chooseCost(n, 0) }

// ChooseFault is Choose where every value but 0 costs one unit of the fault
// budget.
func ChooseFault(n int) int { return chooseCost(n, 1) }

func chooseCost(n int, cost int) int {
	e := x
	t := Cur()
	if e.abort {
		panic(abortVal())
	}
	if n <= 0 {
		panic(FatalError{"Choose with no alternatives"})
	}
	if n == 1 {
		return 0
	}
	alts := make([]alt, n)
	base := e.sig - fin(t.h)
	for i := range alts {
		f := e.f
		if i > 0 {
			f += int16(cost)
		}
		alts[i] = alt{a: int32(i), p: e.p, f: f, key: base + fin(mix3(t.h, 0xc400+uint64(n), uint64(i)))}
	}
	if e.cfg.PB >= 0 {
		for i := range alts {
			var l uint64
			if e.last == t {
				l = mix3(t.h, 0xc400+uint64(n), uint64(i))
			} else if e.last != nil {
				l = e.last.h
			}
			alts[i].key = mix(alts[i].key, l)
		}
	}
	i := e.decide(alts, true)
	if i < 0 {
		// pruned: end the execution here
		t.co.yield(struct{}{})
		panic(abortVal())
	}
	if e.cfg.KeepTrace {
		e.trace = append(e.trace, fmt.Sprintf("%s#%s choose %d of %d", t.Name, t.ID(), i, n))
	}
	e.f = alts[i].f
	e.setH(t, mix3(t.h, 0xc400+uint64(n), uint64(i)))
	return i
}

// ---------------------------------------------------------------- quiet

type quietOp struct{}

func (quietOp) Alts(t *Thread) int             { return 1 }
func (quietOp) Hash(t *Thread, alt int) uint64 { return mix3(t.h, 0x71, x.sig) }
func (quietOp) Exec(t *Thread, alt int, h uint64) {
	t.quiet = false
	if x.cfg.Race {
		for _, o := range x.threads {
			if !o.code {
				t.vc.join(o.vc)
				o.tick()
			}
		}
	}
}
func (quietOp) String() string { return "quiet" }

// Quiet returns when no other thread can take a step without the clock
// advancing. The caller is then causally after everything that the threads of
// the harness did, and what they know of. (That the code has come to rest is
// no synchronisation: the caller is not after what only the code did.)
func Quiet() {
	t := Cur()
	t.quiet = true
	park(quietOp{})
}

// ---------------------------------------------------------------- channels

type chanCore struct {
	cap    int
	buf    []any
	closed bool
	nbuf   int
	hs, hr uint64   // causal hashes of the send and receive side
	bh     []uint64 // hash of the send event of each buffered value
	fh     []uint64 // hash of the receive events that freed slots
	bvc    []vclock // clocks of the buffered values
	fvc    []vclock // clocks of the freed slots
	cvc    vclock   // clock of close
	name   string
}

// Chan replaces chan T.
type Chan[T any] struct{ c chanCore }

// MakeChan replaces make(chan T, n).
func MakeChan[T any](n ...int) *Chan[T] {
	c := &Chan[T]{}
	if len(n) > 0 {
		if n[0] < 0 {
			panic(RuntimeError("makechan: size out of range"))
		}
		c.c.cap = n[0]
	}
	if Active() {
		t := x.cur
		t.cnt++
		c.c.name = fmtChan(t, t.cnt)
	}
	return c
}

// MakeChanOf replaces make of a named channel type.
func MakeChanOf[C ~*Chan[T], T any](n ...int) C { return C(MakeChan[T](n...)) }

func fmtChan(t *Thread, n uint64) string {
	if x.cfg.KeepTrace {
		return fmt.Sprintf("chan(%s#%s.%d)", t.Name, t.ID(), n)
	}
	return "chan"
}

func core[T any](c *Chan[T]) *chanCore {
	if c == nil {
		return nil
	}
	return &c.c
}

type sendOp struct {
	c   *chanCore
	val any
}

// receivers lists (thread, select case) pairs waiting to receive on c.
func (c *chanCore) receiver(t *Thread, k int) (*Thread, int) {
	for _, r := range x.threads {
		if r == t || r.done || r.op == nil {
			continue
		}
		switch op := r.op.(type) {
		case *recvOp:
			if op.c == c {
				if k == 0 {
					return r, -1
				}
				k--
			}
		case *selectOp:
			for i := range op.cases {
				cs := op.cases[i].sel()
				if !cs.send && cs.c == c {
					if k == 0 {
						return r, i
					}
					k--
				}
			}
		}
	}
	return nil, 0
}

func (c *chanCore) receivers(t *Thread) int {
	n := 0
	for {
		if r, _ := c.receiver(t, n); r == nil {
			return n
		}
		n++
	}
}

// sender reports whether some thread waits to send on unbuffered c.
func (c *chanCore) sender(t *Thread) bool {
	for _, r := range x.threads {
		if r == t || r.done || r.op == nil {
			continue
		}
		switch op := r.op.(type) {
		case *sendOp:
			if op.c == c {
				return true
			}
		case *selectOp:
			for i := range op.cases {
				cs := op.cases[i].sel()
				if cs.send && cs.c == c {
					return true
				}
			}
		}
	}
	return false
}

func (c *chanCore) sendAlts(t *Thread) int {
	if c == nil {
		return 0
	}
	if c.closed {
		return 1
	}
	if c.cap > 0 {
		if len(c.buf) < c.cap {
			return 1
		}
		return 0
	}
	return c.receivers(t)
}

func (c *chanCore) sendHash(t *Thread, k int) uint64 {
	if c.closed {
		return mix3(t.h, 0x5c, c.hs)
	}
	if c.cap > 0 {
		var fh uint64
		if len(c.fh) > 0 {
			fh = c.fh[0]
		}
		return mix4(t.h, 0x5e, c.hs, fh)
	}
	r, _ := c.receiver(t, k)
	return mix4(t.h, 0x5f, c.hs, r.h)
}

func (c *chanCore) sendExec(t *Thread, k int, v any, h uint64) {
	if c.closed {
		t.panicv = "send on closed channel"
		return
	}
	if c.cap > 0 {
		if len(c.fh) > 0 {
			c.fh = c.fh[:copy(c.fh, c.fh[1:])]
		}
		c.buf = append(c.buf, v)
		c.bh = append(c.bh, h)
		c.hs = h
		if x.cfg.Race {
			if len(c.fvc) > 0 {
				t.vc.join(c.fvc[0])
				c.fvc = c.fvc[1:]
			}
			c.bvc = append(c.bvc, t.vc.clone())
			t.tick()
		}
		return
	}
	r, i := c.receiver(t, k)
	c.hs = h
	if x.cfg.Race {
		t.vc.join(r.vc)
		r.vc.join(t.vc)
		t.tick()
		r.tick()
	}
	switch op := r.op.(type) {
	case *recvOp:
		op.val, op.ok = v, true
	case *selectOp:
		cs := op.cases[i].sel()
		cs.val, cs.ok = v, true
		op.chosen = i
	}
}

func (c *chanCore) recvReady() bool {
	return c != nil && (len(c.buf) > 0 || c.closed)
}

func (c *chanCore) recvHash(t *Thread) uint64 {
	if len(c.buf) > 0 {
		return mix4(t.h, 0x7e, c.hr, c.bh[0])
	}
	return mix4(t.h, 0x7c, c.hr, c.hs)
}

func (c *chanCore) recvExec(t *Thread, h uint64) (any, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		copy(c.buf, c.buf[1:])
		c.buf[len(c.buf)-1] = nil
		c.buf = c.buf[:len(c.buf)-1]
		c.bh = c.bh[:copy(c.bh, c.bh[1:])]
		c.fh = append(c.fh, h)
		c.hr = h
		if x.cfg.Race {
			t.vc.join(c.bvc[0])
			c.bvc = c.bvc[1:]
			c.fvc = append(c.fvc, t.vc.clone())
			t.tick()
		}
		return v, true
	}
	if x.cfg.Race {
		t.vc.join(c.cvc)
	}
	return nil, false
}

// inject puts v on the channel without a thread (timers); false if full.
func (c *chanCore) inject(v any, tag uint64, vc vclock) bool {
	if len(c.buf) >= c.cap {
		return false
	}
	if x.cfg.Race {
		if len(c.fvc) > 0 {
			c.fvc = c.fvc[1:]
		}
		c.bvc = append(c.bvc, vc)
	}
	h := mix3(c.hs, 0x33, tag)
	if len(c.fh) > 0 {
		c.fh = c.fh[:copy(c.fh, c.fh[1:])]
	}
	c.buf = append(c.buf, v)
	c.bh = append(c.bh, h)
	c.hs = h
	return true
}

func (o *sendOp) Alts(t *Thread) int             { return o.c.sendAlts(t) }
func (o *sendOp) Hash(t *Thread, alt int) uint64 { return o.c.sendHash(t, alt) }
func (o *sendOp) Partner(t *Thread, alt int) (*Thread, uint64) {
	return o.c.partner(t, alt)
}
func (c *chanCore) partner(t *Thread, k int) (*Thread, uint64) {
	if c.closed || c.cap > 0 {
		return nil, 0
	}
	r, i := c.receiver(t, k)
	return r, mix4(r.h, 0x7f+uint64(i+1)<<8, c.hs, t.h)
}
func (o *sendOp) Exec(t *Thread, alt int, h uint64) { o.c.sendExec(t, alt, o.val, h); o.val = nil }
func (o *sendOp) String() string {
	if o.c == nil {
		return "send on nil channel"
	}
	return "send " + o.c.name
}

// Send replaces ch <- v.
func Send[T any](ch *Chan[T], v T) {
	t := Cur()
	t.sendOp.c = core(ch)
	t.sendOp.val = v
	park(&t.sendOp)
}

type recvOp struct {
	c   *chanCore
	val any
	ok  bool
}

func (o *recvOp) Alts(t *Thread) int {
	if o.c.recvReady() {
		return 1
	}
	return 0
}
func (o *recvOp) Hash(t *Thread, alt int) uint64    { return o.c.recvHash(t) }
func (o *recvOp) Exec(t *Thread, alt int, h uint64) { o.val, o.ok = o.c.recvExec(t, h) }
func (o *recvOp) String() string {
	if o.c == nil {
		return "receive on nil channel"
	}
	return "receive " + o.c.name
}

func Recv2[T any](ch *Chan[T]) (T, bool) {
	t := Cur()
	t.recvOp.c = core(ch)
	t.recvOp.val, t.recvOp.ok = nil, false
	park(&t.recvOp)
	var v T
	if t.recvOp.ok {
		v, _ = t.recvOp.val.(T)
	}
	ok := t.recvOp.ok
	t.recvOp.val = nil
	return v, ok
}

// Recv replaces <-ch.
func Recv[T any](ch *Chan[T]) T {
	v, _ := Recv2(ch)
	return v
}

// C gives a channel of any named type its methods.
func C[T any](ch *Chan[T]) *Chan[T] { return ch }

func (ch *Chan[T]) Send(v T)               { Send(ch, v) }
func (ch *Chan[T]) SendCase(v T) *SendC[T] { return SendCase(ch, v) }

// RangeInit starts a range loop over ch.
func RangeInit[T any](ch *Chan[T]) (c *Chan[T], v T, ok bool) { return ch, v, true }

type closeOp struct{ c *chanCore }

func (o *closeOp) Alts(t *Thread) int             { return 1 }
func (o *closeOp) Hash(t *Thread, alt int) uint64 { return mix4(t.h, 0xc1, o.c.hs, o.c.hr) }
func (o *closeOp) Exec(t *Thread, alt int, h uint64) {
	if o.c.closed {
		t.panicv = "close of closed channel"
		return
	}
	o.c.closed = true
	o.c.hs = h
	if x.cfg.Race {
		o.c.cvc = t.vc.clone()
		t.tick()
	}
}
func (o *closeOp) String() string { return "close " + o.c.name }

// Close replaces close(ch).
func Close[T any](ch *Chan[T]) {
	Cur()
	if ch == nil {
		if x.abort {
			panic(abortVal())
		}
		panic(RuntimeError("close of nil channel"))
	}
	park(&closeOp{&ch.c})
}

type lenOp struct{ c *chanCore }

func (o *lenOp) Alts(t *Thread) int                { return 1 }
func (o *lenOp) Hash(t *Thread, alt int) uint64    { return mix4(t.h, 0x1e, o.c.hs, o.c.hr) }
func (o *lenOp) Exec(t *Thread, alt int, h uint64) {}
func (o *lenOp) String() string                    { return "len " + o.c.name }

// Len replaces len(ch).
func Len[T any](ch *Chan[T]) int {
	if ch == nil {
		return 0
	}
	if Active() {
		park(&lenOp{&ch.c})
	}
	return len(ch.c.buf)
}

// Cap replaces cap(ch).
func Cap[T any](ch *Chan[T]) int {
	if ch == nil {
		return 0
	}
	return ch.c.cap
}

// ---------------------------------------------------------------- select

type selCase struct {
	c    *chanCore
	send bool
	val  any
	ok   bool
}

// Case is one communication clause of a select.
type Case interface{ sel() *selCase }

type RecvC[T any] struct{ s selCase }
type SendC[T any] struct{ s selCase }

func (c *RecvC[T]) sel() *selCase { return &c.s }
func (c *SendC[T]) sel() *selCase { return &c.s }

func RecvCase[T any](ch *Chan[T]) *RecvC[T] { return &RecvC[T]{selCase{c: core(ch)}} }
func SendCase[T any](ch *Chan[T], v T) *SendC[T] {
	return &SendC[T]{selCase{c: core(ch), send: true, val: v}}
}

// Val is the received value.
func (c *RecvC[T]) Val() (v T) {
	if c.s.ok {
		v, _ = c.s.val.(T)
	}
	return
}

// Val2 is the received value and whether it was sent.
func (c *RecvC[T]) Val2() (v T, ok bool) { return c.Val(), c.s.ok }

type selectOp struct {
	cases  []Case
	def    bool
	chosen int
}

// nth maps an alternative to (case, partner index); case -1 is default.
func (o *selectOp) nth(t *Thread, alt int) (int, int) {
	n := 0
	definite, partner := false, false
	for i, cs := range o.cases {
		s := cs.sel()
		if s.c == nil {
			continue
		}
		k := 0
		if s.send {
			k = s.c.sendAlts(t)
			if k > 0 {
				definite = true
			}
		} else {
			if s.c.recvReady() {
				k = 1
				definite = true
			} else if s.c.cap == 0 && s.c.sender(t) {
				partner = true
			}
		}
		if alt < n+k {
			return i, alt - n
		}
		n += k
	}
	if o.def && !definite && !partner {
		if alt == n {
			return -1, 0
		}
		n++
	}
	return -2, n
}

func (o *selectOp) Alts(t *Thread) int {
	_, n := o.nth(t, 1<<30)
	return n
}

func (o *selectOp) Hash(t *Thread, alt int) uint64 {
	i, k := o.nth(t, alt)
	tag := 0x5e1000 + uint64(i+1)
	if i == -1 {
		h := mix(t.h, tag)
		for _, cs := range o.cases {
			if s := cs.sel(); s.c != nil {
				h = mix3(h, s.c.hs, s.c.hr)
			}
		}
		return h
	}
	s := o.cases[i].sel()
	if s.send {
		return mix(s.c.sendHash(t, k), tag)
	}
	return mix(s.c.recvHash(t), tag)
}

func (o *selectOp) Partner(t *Thread, alt int) (*Thread, uint64) {
	i, k := o.nth(t, alt)
	if i < 0 {
		return nil, 0
	}
	s := o.cases[i].sel()
	if !s.send {
		return nil, 0
	}
	return s.c.partner(t, k)
}

func (o *selectOp) Exec(t *Thread, alt int, h uint64) {
	i, k := o.nth(t, alt)
	o.chosen = i
	if i < 0 {
		return
	}
	s := o.cases[i].sel()
	if s.send {
		s.c.sendExec(t, k, s.val, h)
	} else {
		s.val, s.ok = s.c.recvExec(t, h)
	}
}

func (o *selectOp) AltString(alt int) string { return fmt.Sprintf("-> case %d", o.chosen) }

func (o *selectOp) String() string {
	s := "select{"
	for _, cs := range o.cases {
		c := cs.sel()
		if c.send {
			s += "send "
		} else {
			s += "recv "
		}
		if c.c == nil {
			s += "nil;"
		} else {
			s += c.c.name + ";"
		}
	}
	if o.def {
		s += "default"
	}
	return s + "}"
}

// Select replaces a select statement; it returns the index of the chosen
// case, -1 for default.
func Select(def bool, cases ...Case) int {
	t := Cur()
	op := &selectOp{cases: cases, def: def}
	park(op)
	_ = t
	return op.chosen
}

// ---------------------------------------------------------------- accesses

type accOp struct {
	o     *Obj
	write bool
	plain bool // an ordinary memory access, not synchronisation
	name  string
}

func (a *accOp) Alts(t *Thread) int { return 1 }
func (a *accOp) Hash(t *Thread, alt int) uint64 {
	if a.write {
		return mix3(t.h, 0xa1, a.o.h)
	}
	return mix3(t.h, 0xa0, a.o.h)
}
func (a *accOp) Exec(t *Thread, alt int, h uint64) {
	if a.write {
		a.o.h = h
	}
	if x.cfg.Race && !a.plain {
		t.vc.join(a.o.vc)
		if a.write {
			a.o.vc = t.vc.clone()
			t.tick()
		}
	}
}
func (a *accOp) String() string {
	if a.write {
		return "write " + a.name
	}
	return "read " + a.name
}

// Access is a visible synchronising read or write of o.
func Access(o *Obj, write bool, name string) {
	if !Active() {
		return
	}
	t := x.cur
	t.accOp = accOp{o, write, false, name}
	park(&t.accOp)
}

func plainAccess(o *Obj, write bool, name string) {
	t := x.cur
	t.accOp = accOp{o, write, true, name}
	park(&t.accOp)
}

func addrObj(p any) *Obj {
	if x.addr == nil {
		x.addr = map[any]*Obj{}
	}
	o := x.addr[p]
	if o == nil {
		o = &Obj{}
		x.addr[p] = o
	}
	return o
}

// G is a handle on a package variable that is written after initialisation:
// reading and writing it are visible events (its accesses are not
// synchronisation, they can race).
type G[T any] struct {
	p    *T
	site string
}

func Glob[T any](p *T, site string) G[T] { return G[T]{p, site} }

// Get reads the variable. (It returns the value: the order of a load and of a
// later call in one expression is open in Go.)
func (g G[T]) Get() T {
	if Active() {
		plainAccess(addrObj(g.p), false, g.site)
		R(g.p, g.site)
	}
	return *g.p
}

func (g G[T]) Set(v T) {
	if Active() {
		plainAccess(addrObj(g.p), true, g.site)
		W(g.p, g.site)
	}
	*g.p = v
}

// Ref is a visible write access returning the address.
func (g G[T]) Ref() *T {
	if Active() {
		plainAccess(addrObj(g.p), true, g.site)
		W(g.p, g.site)
	}
	return g.p
}

// AddrAccess is a visible access to the memory cell p (used for sync/atomic).
func AddrAccess[T any](p *T, write bool, name string) {
	if Active() {
		Access(addrObj(p), write, name)
		if x.cfg.Race {
			raceAtomic(unsafe.Pointer(p), write)
		}
	}
}

// ---------------------------------------------------------------- maps

// Keys returns the keys of m in a canonical order; the order of iteration is
// a choice (every departure from the canonical order costs one unit of the
// fault budget).
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	if Active() && len(keys) > 1 && x.cfg.FB > 0 {
		// first element by choice, then the rest rotated; for up to 3 keys
		// every permutation is reachable
		for i := 0; i+1 < len(keys) && i < 2; i++ {
			j := i + ChooseFault(len(keys)-i)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

// Entry is one step of a range over a map.
type Entry[K comparable, V any] struct {
	m map[K]V
	K K
}

// V is the value now; Live whether the entry still exists.
func (e Entry[K, V]) V() V { return e.m[e.K] }
func (e Entry[K, V]) Live() bool {
	_, ok := e.m[e.K]
	return ok
}

func Entries[M ~map[K]V, K comparable, V any](m M, site string) []Entry[K, V] {
	RM(m, site)
	var out []Entry[K, V]
	for _, k := range Keys(m) {
		out = append(out, Entry[K, V]{m, k})
	}
	return out
}

func sortKeys[K comparable](keys []K) {
	less := keyLess[K]()
	for i := 1; i < len(keys); i++ {
		for j := i; j > 0 && less(keys[j], keys[j-1]); j-- {
			keys[j], keys[j-1] = keys[j-1], keys[j]
		}
	}
}

func keyLess[K comparable]() func(a, b K) bool {
	var z K
	switch any(z).(type) {
	case string:
		return func(a, b K) bool { return any(a).(string) < any(b).(string) }
	}
	return func(a, b K) bool { return valLess(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem()) }
}

func valLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if valLess(a.Field(i), b.Field(i)) {
				return true
			}
			if valLess(b.Field(i), a.Field(i)) {
				return false
			}
		}
		return false
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && !b.IsNil()
		}
		if a.Elem().Type() != b.Elem().Type() {
			return a.Elem().Type().String() < b.Elem().Type().String()
		}
		return valLess(a.Elem(), b.Elem())
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		return ptrOrd(a.Pointer()) < ptrOrd(b.Pointer())
	}
	return false
}

// NotePtr gives pointers a deterministic order of first use as map keys.
func NotePtr[K comparable](k K) K {
	if Active() {
		v := reflect.ValueOf(&k).Elem()
		if v.Kind() == reflect.Interface && !v.IsNil() {
			v = v.Elem()
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
			notePtr(v.Pointer(), any(k))
		}
	}
	return k
}

var ptrIDs map[uintptr]int
var ptrKeep []any
var ptrExec *Exec
var ptrRun int64

func notePtr(p uintptr, keep any) {
	if ptrExec != x || ptrRun != x.stats.Execs {
		ptrIDs = map[uintptr]int{}
		ptrKeep = nil
		ptrExec, ptrRun = x, x.stats.Execs
	}
	if _, ok := ptrIDs[p]; !ok {
		ptrIDs[p] = len(ptrIDs)
		ptrKeep = append(ptrKeep, keep)
	}
}

func ptrOrd(p uintptr) int {
	if ptrExec == x && x != nil && ptrRun == x.stats.Execs {
		if i, ok := ptrIDs[p]; ok {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------- time

// Epoch is the virtual time origin.
var Epoch = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

type timer struct {
	when  int64
	seq   uint64
	fire  func(tag uint64)
	dead  bool
	obj   Obj
	fired bool
	ch    *chanCore
}

// NowNS is the virtual clock, in nanoseconds since Epoch (not an event).
func NowNS() int64 {
	if x == nil {
		return 0
	}
	return x.now
}

// ReadClock is the virtual clock as an event of the running thread.
func ReadClock() int64 {
	if !Active() {
		return 0
	}
	t := x.cur
	x.setH(t, mix3(t.h, 0x71e, uint64(x.now)))
	return x.now
}

// Timer is a handle on a pending virtual timer.
type Timer struct{ t *timer }

// AddTimer arranges for fire to run when the clock reaches now+d.
func AddTimer(d int64, fire func(tag uint64)) *Timer {
	t := Cur()
	if d < 0 {
		d = 0
	}
	x.tseq++
	when := x.now + d
	if when < x.now {
		when = 1<<63 - 1
	}
	tm := &timer{when: when, seq: x.tseq, fire: fire}
	x.setH(t, mix3(t.h, 0x71f, uint64(when)))
	tm.obj.h = t.h
	if x.cfg.Race {
		tm.obj.vc = t.vc.clone()
		t.tick()
	}
	x.timers = append(x.timers, tm)
	return &Timer{tm}
}

// Rearm schedules a fired timer again at when, from timer context.
func (tm *Timer) Rearm(when int64) {
	x.tseq++
	tm.t.when, tm.t.seq, tm.t.fired = when, x.tseq, false
	for _, o := range x.timers {
		if o == tm.t {
			return
		}
	}
	x.timers = append(x.timers, tm.t)
}

// VC is the clock at which the timer was armed.
func (tm *Timer) VC() vclock { return tm.t.obj.vc }

// Feeds tells that the timer sends on ch, which Stop empties.
func Feeds[T any](tm *Timer, ch *Chan[T]) { tm.t.ch = &ch.c }

type stopOp struct{ t *timer }

func (o *stopOp) Alts(t *Thread) int { return 1 }
func (o *stopOp) Hash(t *Thread, alt int) uint64 {
	h := mix3(t.h, 0x570, o.t.obj.h)
	if c := o.t.ch; c != nil {
		h = mix3(h, c.hs, c.hr)
	}
	return h
}
func (o *stopOp) Exec(t *Thread, alt int, h uint64) {
	o.t.obj.h = h
	if c := o.t.ch; c != nil {
		c.hr = h
	}
}
func (o *stopOp) String() string { return "timer.Stop" }

// Stop is a visible operation; it reports whether the timer was pending
// (or, for a channel timer, had not been received from).
func (tm *Timer) Stop() bool {
	if x.abort {
		return false
	}
	if x.cur != nil {
		park(&stopOp{tm.t})
	}
	was := !tm.t.fired && !tm.t.dead
	tm.t.dead = true
	if c := tm.t.ch; c != nil && len(c.buf) > 0 {
		c.buf, c.bh, c.bvc = nil, nil, nil
		was = true
	}
	return was
}

func (tm *Timer) Pending() bool { return !tm.t.fired && !tm.t.dead }

// Deadline is the virtual time at which the timer fires.
func (tm *Timer) When() int64 { return tm.t.when }

func (e *Exec) nextTimer() int64 {
	best := int64(-1)
	w := e.timers[:0]
	for _, t := range e.timers {
		if t.dead || t.fired {
			continue
		}
		w = append(w, t)
		if best < 0 || t.when < best {
			best = t.when
		}
	}
	e.timers = w
	return best
}

func (t *timer) fireHash(now int64) uint64 { return mix3(t.obj.h, 0xf1e, uint64(now)) }

// clockSig is the signature after moving the clock to d.
func (e *Exec) clockSig(d int64) uint64 {
	if d < e.now {
		d = e.now
	}
	s := e.sig + fin(uint64(d)*0x9e3779b97f4a7c15) - fin(uint64(e.now)*0x9e3779b97f4a7c15)
	for _, t := range e.timers {
		if t.when <= d && !t.dead && !t.fired {
			s += fin(t.fireHash(d))
		}
	}
	return s
}

// advance moves the clock to the next timer and fires everything due.
func (e *Exec) advance() {
	d := e.nextTimer()
	e.sig = e.clockSig(d)
	if d > e.now {
		e.now = d
	}
	if e.cfg.KeepTrace {
		e.trace = append(e.trace, fmt.Sprintf("-- clock %v", time.Duration(e.now)))
	}
	due := append([]*timer(nil), e.timers...)
	for _, t := range due {
		if t.when <= e.now && !t.dead && !t.fired {
			t.fired = true
			t.obj.h = t.fireHash(e.now)
			t.fire(t.obj.h)
		}
	}
}

type sleepOp struct {
	fired bool
	h     uint64
}

func (o *sleepOp) Alts(t *Thread) int {
	if o.fired {
		return 1
	}
	return 0
}
func (o *sleepOp) Hash(t *Thread, alt int) uint64    { return mix3(t.h, 0x51e, o.h) }
func (o *sleepOp) Exec(t *Thread, alt int, h uint64) {}
func (o *sleepOp) String() string                    { return "sleep" }

// Sleep blocks for d of virtual time.
func Sleep(d time.Duration) {
	if d <= 0 {
		Yield()
		return
	}
	o := &sleepOp{}
	AddTimer(int64(d), func(tag uint64) { o.fired = true; o.h = tag })
	park(o)
}

type yieldOp struct{}

func (yieldOp) Alts(t *Thread) int                { return 1 }
func (yieldOp) Hash(t *Thread, alt int) uint64    { return mix(t.h, 0x41e1d) }
func (yieldOp) Exec(t *Thread, alt int, h uint64) {}
func (yieldOp) String() string                    { return "yield" }

// Yield is a scheduling point.
func Yield() {
	Cur()
	park(yieldOp{})
}

// TimerChan returns a channel that receives time values, for NewTimer etc.
func TimerChan() *Chan[time.Time] { return MakeChan[time.Time](1) }

// Inject sends v on a buffered channel from timer context.
func Inject[T any](ch *Chan[T], v T, tag uint64, vc vclock) bool { return ch.c.inject(v, tag, vc) }

// SpawnFromTimer starts a thread from timer context (AfterFunc).
func SpawnFromTimer(name string, fn func(), tag uint64, ord []int32, vc vclock) {
	t := x.spawn(name, fn, mix(tag, 0x62), ord)
	t.code = true
	if x.cfg.Race {
		t.vc = vc.clone()
		t.tick()
	}
}

// Reserve reserves the spawn position for SpawnFromTimer.
func Reserve() []int32 { return Cur().kid() }

// ---------------------------------------------------------------- leftovers

// Blocked lists the threads (other than the caller and daemons) that have not
// ended, by name and pending operation.
func Blocked() []string {
	var out []string
	for _, t := range x.threads {
		if t.done || t == x.cur || t.daemon {
			continue
		}
		s := t.Name
		if t.op != nil {
			// the same text whether or not channels carry names
			s += ": " + chanName.ReplaceAllString(t.op.String(), "chan")
		}
		out = append(out, s)
	}
	return out
}

var chanName = regexp.MustCompile(`chan\([^()]*\)`)

// Trace adds a line to a replay's trace.
func Trace(format string, a ...any) {
	if x != nil && x.cfg.KeepTrace {
		x.trace = append(x.trace, "   "+fmt.Sprintf(format, a...))
	}
}

// Tracing reports whether a trace is being kept.
func Tracing() bool { return x != nil && x.cfg.KeepTrace }

// ExecNo numbers executions within an exploration.
func ExecNo() int64 { return x.stats.Execs }

// Wake hands a thread-specific hash: used by harness objects.
func SetThreadPanic(t *Thread, msg string) { t.panicv = msg }

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
