package mc

import (
	"fmt"
	"reflect"
	"unsafe"
)

// vclock is a vector clock indexed by thread number.
type vclock []uint32

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

func (v *vclock) join(o vclock) {
	if len(o) > len(*v) {
		*v = append(*v, make(vclock, len(o)-len(*v))...)
	}
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}

func (t *Thread) tick() {
	if !x.cfg.Race {
		return
	}
	if len(t.vc) <= t.num {
		t.vc = append(t.vc, make(vclock, t.num+1-len(t.vc))...)
	}
	t.vc[t.num]++
}

func (o *Obj) release(t *Thread) {
	if x.cfg.Race {
		o.vc = t.vc.clone()
		t.tick()
	}
}

type epoch struct {
	num  int
	clk  uint32
	site string
	who  string
}

type shadow struct {
	w  epoch
	rd []epoch
	// atomic accesses, the last of every thread: they do not race with each
	// other, but with plain ones
	aw, ar []epoch
}

func note(l []epoch, me epoch) []epoch {
	for i := range l {
		if l[i].num == me.num {
			l[i] = me
			return l
		}
	}
	return append(l, me)
}

func (t *Thread) sees(e *epoch) bool {
	return e.clk == 0 || e.num == t.num || e.num < len(t.vc) && t.vc[e.num] >= e.clk
}

func raceAccess(p unsafe.Pointer, write bool, site string) {
	t := x.cur
	if x.abort || x.done {
		return
	}
	if x.shadow == nil {
		x.shadow = map[unsafe.Pointer]*shadow{}
	}
	s := x.shadow[p]
	if s == nil {
		s = &shadow{}
		x.shadow[p] = s
	}
	me := epoch{t.num, t.vc[t.num], site, t.Name}
	if !t.sees(&s.w) {
		raceFail(&s.w, "write", &me, write)
	}
	for i := range s.aw {
		if !t.sees(&s.aw[i]) {
			raceFail(&s.aw[i], "atomic write", &me, write)
		}
	}
	if write {
		for i := range s.rd {
			if !t.sees(&s.rd[i]) {
				raceFail(&s.rd[i], "read", &me, write)
			}
		}
		for i := range s.ar {
			if !t.sees(&s.ar[i]) {
				raceFail(&s.ar[i], "atomic read", &me, write)
			}
		}
		s.rd = s.rd[:0]
		s.ar = s.ar[:0]
		s.aw = s.aw[:0]
		s.w = me
		return
	}
	s.rd = note(s.rd, me)
}

// raceAtomic checks an atomic access that has just been made.
func raceAtomic(p unsafe.Pointer, write bool) {
	t := x.cur
	if x.abort || x.done {
		return
	}
	if x.shadow == nil {
		x.shadow = map[unsafe.Pointer]*shadow{}
	}
	s := x.shadow[p]
	if s == nil {
		s = &shadow{}
		x.shadow[p] = s
	}
	me := epoch{t.num, t.vc[t.num], "an atomic access", t.Name}
	if write {
		me.clk-- // a write has released the clock it was made at
	}
	if !t.sees(&s.w) {
		raceFail(&s.w, "write", &me, write)
	}
	if !write {
		s.ar = note(s.ar, me)
		return
	}
	for i := range s.rd {
		if !t.sees(&s.rd[i]) {
			raceFail(&s.rd[i], "read", &me, write)
		}
	}
	s.aw = note(s.aw, me)
}

func raceFail(o *epoch, how string, me *epoch, write bool) {
	k := "read"
	if write {
		k = "write"
	}
	x.fail(fmt.Sprintf("data race: %s at %s by %s, unordered with %s at %s by %s", k, me.site, me.who, how, o.site, o.who), "")
	panic(abortVal())
}

// R notes a read of *p.
func R[T any](p *T, site string) *T {
	if x != nil && x.cfg.Race && x.cur != nil && p != nil {
		raceAccess(unsafe.Pointer(p), false, site)
	}
	return p
}

// W notes a write of *p.
func W[T any](p *T, site string) *T {
	if x != nil && x.cfg.Race && x.cur != nil && p != nil {
		raceAccess(unsafe.Pointer(p), true, site)
	}
	return p
}

// RM and WM note a read and a write of the map m.
func RM[M ~map[K]V, K comparable, V any](m M, site string) M {
	if x != nil && x.cfg.Race && x.cur != nil && m != nil {
		raceAccess(reflect.ValueOf(m).UnsafePointer(), false, site)
	}
	return m
}

func WM[M ~map[K]V, K comparable, V any](m M, site string) M {
	if x != nil && x.cfg.Race && x.cur != nil && m != nil {
		raceAccess(reflect.ValueOf(m).UnsafePointer(), true, site)
	}
	return m
}
