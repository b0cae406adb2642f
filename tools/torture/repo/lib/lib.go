// Package lib uses the language in many ways; tools/torture.sh compares what
// it prints before and after rewriting.
package lib

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	t "time"
)

type (
	C     chan int
	Ro    <-chan int
	Alias = chan string
	Fn    func(chan<- int) <-chan int
	node  struct {
		sync.Mutex
		*sync.WaitGroup
		ch   chan chan int
		arr  [3]chan int
		m    map[string]chan struct{ a, b int }
		fs   []func()
		v    int
		next *node
		anon struct{ x, y chan int }
	}
	iface interface {
		Get(ch <-chan int) (int, bool)
	}
	base struct{ n int32 }
	der  struct{ base }
)

func (b *base) Inc() int32                   { return atomic.AddInt32(&b.n, 1) }
func (b base) Val() int32                    { return b.n }
func (d *der) Get(ch <-chan int) (int, bool) { v, ok := <-ch; return v, ok }

var (
	global   = map[string]int{"a": 1}
	counter  int
	once     sync.Once
	pch      = make(chan int, 2)
	table    = []func(int) int{func(x int) int { return x + counter }, func(x int) int { return x * 2 }}
	errFirst = errors.New("first")
	p, q     = pair()
	mask     uint8
	rw       sync.RWMutex
	pool     = sync.Pool{New: func() interface{} { return new(strings.Builder) }}
)

const (
	k0 = iota * 10
	k1
	k2
)

func init() { global["init"] = 7; counter = 40 }

// places within places
type cell struct {
	key  string
	val  int
	in   []cell
	arr  [2]struct{ a, b []int }
	m    map[string][]cell
	p    *cell
	chs  []chan int
	fs   map[string]func(...int) int
	next *cell
}
type grid struct {
	cells []cell
	tab   [2][3]cell
	by    map[string]*cell
}

func (g *grid) at(k string) *cell {
	for i := range g.cells {
		if g.cells[i].key == k {
			return &g.cells[i]
		}
	}
	return nil
}

func (g grid) sum() (n int) {
	for i := range g.tab {
		for j := range g.tab[i] {
			n += g.tab[i][j].val*10 + len(g.tab[i][j].in)
		}
	}
	for _, c := range g.cells {
		for _, d := range c.in {
			n += d.val
		}
	}
	return
}

func places() {
	g := &grid{cells: []cell{{key: "a", val: 1}, {key: "b", val: 2, in: []cell{{val: 3}, {val: 4}}}}, by: map[string]*cell{}}
	g.at("b").in[1].val++
	g.cells[0].in = append(g.cells[0].in, g.cells[1].in[0])
	g.cells[0].in[0].arr[1].b = append(g.cells[0].in[0].arr[1].b, 5, 6)
	g.cells[0].in[0].arr[1].b[0] *= 2
	g.tab[1][2].val, g.tab[0][0].val = g.cells[1].val, g.cells[0].in[0].arr[1].b[1]
	g.tab[1][2].m = map[string][]cell{"x": {{val: 7}, {val: 8}}}
	g.tab[1][2].m["x"][1].val--
	g.tab[1][2].p = &g.tab[0][1]
	g.tab[1][2].p.in = g.tab[1][2].m["x"][:1:1]
	g.by["q"] = &g.cells[1].in[0]
	g.by["q"].next = &cell{chs: []chan int{make(chan int, 1), nil}}
	g.by["q"].next.chs[0] <- g.by["q"].val
	(*g.by["q"]).fs = map[string]func(...int) int{"n": func(l ...int) int { return len(l) + g.tab[1][2].val }}
	select {
	case g.cells[1].in[1].val = <-g.by["q"].next.chs[0]:
	default:
	}
	h := *g
	h.cells[0].val = 9
	h.tab[0][0].val = 100
	copy(h.cells[1:], h.cells[:1])
	out(g.sum(), h.sum(), g.at("a").val, g.at("b") == nil, g.by["q"].fs["n"](1, 2), len(g.tab[1][2].m["x"][0].in))
	type kv struct{ k, v string }
	l := []kv{{"a", "1"}, {"b", "2"}, {"a", "3"}}
	var left []kv
	for _, e := range l {
		if e.k != "a" {
			left = append(left, e)
		}
	}
	left[0].v += "!"
	p := &left[len(left)-1]
	p.k, p.v = p.v, p.k
	done := make(chan bool)
	go func() {
		left[0].v, l[0].v = l[0].v, left[0].v
		done <- true
	}()
	<-done
	out(left, l, cap(l[:1:2]), struct{ x []kv }{l}.x[2].v)
}

// methods of channel types
type box chan string

func newBox(n int) box { return make(box, n) }
func (b box) put(s ...string) int { // counts
	for _, x := range s {
		b <- x
	}
	return len(b)
}
func (b box) get() (string, bool) {
	select {
	case s, ok := <-b:
		return s, ok
	default:
		return "", false
	}
}
func (b box) all() []string {
	defer func() { recover() }()
	var l []string
	for s := range b {
		l = append(l, s)
	}
	return l
}
func (box) kind() string { return "box" }
func (b box) rescue() {
	if r := recover(); r != nil {
		b.put(fmt.Sprint(r))
	}
}

func boxes() {
	b := newBox(5)
	p := &b
	out(b.put("a", "b"), p.put("c"), p.kind(), (*p).put())
	put := b.put
	done := make(chan int)
	go func() { done <- put("d") }()
	out(<-done)
	go b.put("e")
	func() {
		defer b.rescue()
		for len(b) < 5 {
			t.Sleep(t.Millisecond)
		}
		b.get()
		panic("oh")
	}()
	s, ok := b.get()
	out(s, ok)
	close(b)
	out(b.all())
	out(b.get())
}

func pair() (int, chan string) { return 5, make(chan string, 1) }

var Out []string

func out(a ...interface{}) { Out = append(Out, fmt.Sprintln(a...)) }

func selects() {
	a, b := make(chan int, 1), make(C, 1)
	var nilc chan int
	m := map[string]int{}
	arr := [2]int{}
	n := &node{}
	done := make(chan struct{})
L:
	for i := 0; ; i++ {
		select {
		case a <- i:
			out("sent", i)
		case m["x"] = <-a:
			out("got", m["x"])
			select {
			case b <- m["x"]:
			default:
				out("full")
				break L
			}
			continue L
		case <-nilc:
			out("never")
		case nilc <- 1:
			out("never")
		}
	}
	select {
	case arr[1] = <-b:
	}
	var ok bool
	b <- 3
	select {
	case n.v, ok = <-b:
	case <-done:
	}
	out(arr, n.v, ok)
	close(b)
	select {
	case v, more := <-b:
		out(v, more)
	}
	select {
	case v := <-b:
		switch {
		case v == 0:
			break
		default:
			out("no")
		}
	default:
		out("no")
	}
	select {
	default:
		out("default")
	}
	x := func() chan<- int { out("channel first"); return a }
	y := func() int { out("then value"); return 9 }
	select {
	case x() <- y():
	}
	out(<-a, len(a), cap(a), len(b), cap(b), cap(nilc))
	_, _ = <-b
	var pp *int = new(int)
	a <- 77
	select {
	case *pp = <-a:
	}
	out(*pp)
	func() {
		for {
			select {
			case <-b:
				return
			}
		}
	}()
	out(term(a), term2(b))
}

func term(a chan int) int {
	select {
	case a <- 1:
		return <-a
	case v := <-a:
		return v
	}
}

func term2(b C) (r int) {
	defer func() { r += 100 }()
	for {
		select {
		case v, ok := <-b:
			if !ok {
				return v
			}
		}
	}
}

func ranges() {
	c := make(chan int)
	go func() {
		defer close(c)
		for i := 0; i < 5; i++ {
			c <- i
		}
	}()
	sum := 0
outer:
	for v := range c {
		switch {
		case v == 1:
			continue
		case v == 2:
			continue outer
		case v == 4:
			break outer
		}
		sum += v
	}
	for range c {
	}
	out(sum)
	var last int
	d := make(Ro)
	_ = d
	e := make(chan int, 3)
	e <- 1
	e <- 2
	close(e)
	for last = range e {
	}
	out(last)
	mm := map[string][]int{"a": {1}, "b": {2, 3}, "c": nil}
	var keys []string
	for k, v := range mm {
		if k == "b" {
			delete(mm, "c")
		}
		keys = append(keys, k, fmt.Sprint(len(v)))
	}
	out(len(mm))
	for k := range mm {
		mm[k] = append(mm[k], 9)
		mm[k][0]++
	}
	ks := []string{}
	for k, v := range mm {
		ks = append(ks, fmt.Sprint(k, v))
	}
	sort.Strings(ks)
	out(ks)
	arr := [4]int{1, 2, 3}
	for i := range arr {
		arr[i] *= 2
	}
	for i, v := range &arr {
		arr[3-i] += v
	}
	out(arr)
	var fs []func() int
	for i := 0; i < 3; i++ {
		fs = append(fs, func() int { i++; return i })
	}
	out(fs[0](), fs[1](), fs[2]())
	for i, r := range "aé" {
		out(i, r)
	}
	var i int
	var s [3]string
	for i, s[i] = range []string{"x", "y", "z"} {
	}
	out(i, s)
}

func goes() {
	var wg sync.WaitGroup
	var mu sync.Mutex
	res := map[int]int{}
	add := func(k int, v ...int) {
		defer wg.Done()
		mu.Lock()
		defer mu.Unlock()
		for _, x := range v {
			res[k] += x
		}
	}
	for i := 0; i < 3; i++ {
		wg.Add(3)
		go add(i, i, i*i)
		go add(i, []int{1, 1}...)
		go func(i int) { add(i, k1, k2) }(i)
	}
	two := func() (int, int) { return 8, 9 }
	wg.Add(1)
	go func(a, b int) { add(a, b) }(two())
	wg.Wait()
	out(res)
	d := &der{}
	iv := iface(d)
	ch := make(chan int, 1)
	ch <- 4
	out(iv.Get(ch))
	f := d.Inc
	g := (*der).Inc
	h := der.Val
	f()
	g(d)
	out(h(*d), d.Val(), d.base.Inc())
	n := &node{WaitGroup: &wg, ch: make(chan chan int), m: map[string]chan struct{ a, b int }{}}
	n.anon.x = make(chan int)
	n.arr[2] = n.anon.x
	n.Add(1)
	go func() {
		defer n.Done()
		n.Lock()
		defer n.Unlock()
		r := <-n.ch
		r <- 5
	}()
	r := make(chan int)
	n.ch <- r
	out(<-r)
	n.Wait()
	n.m["k"] = make(chan struct{ a, b int }, 1)
	n.m["k"] <- struct{ a, b int }{1, 2}
	out((<-n.m["k"]).b)
	go close(n.arr[2])
	_, ok := <-n.anon.x
	out(ok, n.arr[2] == n.anon.x, n.arr[0] == nil)
	done := make(chan bool)
	go out2(done, nil, "s", 3)
	out(<-done)
	go func() (int, error) { done <- true; return 1, nil }()
	<-done
	lock := n.Lock
	lock()
	go n.Unlock()
	n.Lock()
	n.Unlock()
	var l sync.Locker = rw.RLocker()
	l.Lock()
	rw.RLock()
	rw.RUnlock()
	l.Unlock()
	rw.Lock()
	rw.Unlock()
	c := sync.NewCond(&mu)
	ready := false
	go func() { mu.Lock(); ready = true; c.Broadcast(); mu.Unlock() }()
	mu.Lock()
	for !ready {
		c.Wait()
	}
	mu.Unlock()
	once.Do(func() { counter++ })
	once.Do(func() { counter++ })
	out(counter, runtime.GOOS != "")
	b := pool.Get().(*strings.Builder)
	b.WriteString("p")
	out(b.String())
	pool.Put(b)
	var sm sync.Map
	sm.Store("a", 1)
	v, ok := sm.Load("a")
	out(v, ok)
	var av atomic.Value
	av.Store([]int{1})
	out(av.Load().([]int)[0])
	runtime.Gosched()
	x := C(nil)
	out(x == nil, (chan int)(x) == nil, (<-chan int)(ch) != nil)
}

func out2(d chan<- bool, e error, s interface{}, n int) { d <- e == nil && s == "s" && n == 3 }

func globals() {
	counter += 2
	counter--
	counter++
	counter, mask = counter*2, 1
	mask <<= 3
	mask |= 1
	mask &^= 8
	global["z"]++
	delete(global, "a")
	pch <- 1
	pch <- counter
	out(<-pch, <-pch, table[0](1), table[1](4), global, p, mask)
	q <- "s"
	out(<-q)
	errFirst = fmt.Errorf("wrapped: %w", io.EOF)
	out(errors.Is(errFirst, io.EOF))
	ptr := &counter
	*ptr = 3
	out(counter)
	type local struct {
		c  chan int
		fn Fn
	}
	lo := local{make(chan int, 1), func(c chan<- int) <-chan int { c <- 6; return nil }}
	out(lo.fn(lo.c) == nil, <-lo.c)
	lit := []struct{ c chan int }{{make(chan int, 2)}, {c: nil}}
	out(cap(lit[0].c), lit[1].c == nil)
	mc := map[chan int]string{lit[0].c: "zero"}
	out(mc[lit[0].c])
	var e interface{} = lit[0].c
	switch c := e.(type) {
	case chan string:
		out("string", c)
	case chan int:
		out("int", cap(c))
	case nil:
	}
	if c, ok := e.(chan int); ok && c != nil {
		out("yes")
	}
	goto end
end:
	switch y := k1; {
	case y > 5:
		out("fall")
		fallthrough
	case y > 100:
		out("through")
	default:
	}
	type fc chan func() string
	ff := make(fc, 1)
	ff <- func() string { return "called" }
	out((<-ff)())
	type sc chan struct{ a int }
	ss := make(sc, k1)
	ss <- struct{ a int }{3}
	out((<-ss).a)
	var al Alias = make(Alias, 1)
	al <- "alias"
	out(<-al)
}

func times() {
	t0 := t.Now()
	tm := t.NewTimer(t.Hour)
	out(tm.Stop(), tm.Reset(20*t.Millisecond))
	tk := t.NewTicker(5 * t.Millisecond)
	n := 0
loop:
	for {
		select {
		case <-tk.C:
			n++
			if n > 2 {
				tk.Stop()
			}
		case <-tm.C:
			break loop
		}
	}
	out(n >= 3, t.Since(t0) >= 20*t.Millisecond)
	ctx, cancel := context.WithTimeout(context.Background(), 10*t.Millisecond)
	defer cancel()
	select {
	case <-ctx.Done():
		out(ctx.Err(), errors.Is(ctx.Err(), context.DeadlineExceeded))
	case <-t.After(t.Second):
		out("late")
	}
	ctx2, cancel2 := context.WithCancel(context.WithValue(context.Background(), "k", "v"))
	ran := make(chan string, 1)
	t.AfterFunc(t.Millisecond, func() { cancel2(); ran <- "after" })
	<-ctx2.Done()
	out(<-ran, ctx2.Err(), ctx2.Value("k"))
	var dl t.Time
	out(dl.IsZero(), t.Duration(1500)*t.Millisecond)
	t.Sleep(t.Millisecond)
}

func panics() (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("recovered: %v", r)
		}
	}()
	func() {
		defer func() { out(recover()) }()
		var m map[string]int
		m["a"] = 1
	}()
	func() {
		defer func() { out(recover()) }()
		c := make(chan int)
		close(c)
		close(c)
	}()
	func() {
		defer func() { out(recover()) }()
		c := make(chan int, 1)
		close(c)
		c <- 1
	}()
	func() {
		defer func() { out(recover()) }()
		var a []int
		i := 3
		a[i]++
	}()
	func() {
		defer func() { out(recover()) }()
		var n *node
		n.v = 3
	}()
	func() {
		defer func() { out(recover()) }()
		var wg sync.WaitGroup
		wg.Done()
	}()
	panic("end")
}

// Main runs everything.
func Main() {
	places()
	boxes()
	selects()
	ranges()
	goes()
	globals()
	times()
	out(panics())
}
