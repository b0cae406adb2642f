// Package sync stands in for the standard package under the explorer.
package sync

import "stompmc/mc"

type (
	Mutex     = mc.Mutex
	RWMutex   = mc.RWMutex
	Cond      = mc.Cond
	Once      = mc.Once
	WaitGroup = mc.WaitGroup
	Pool      = mc.Pool
	Locker    = mc.Locker
)

func NewCond(l Locker) *Cond { return mc.NewCond(l) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// Map is a map whose every operation is one visible synchronising event.
type Map struct {
	o    mc.Obj
	m    map[any]any
	keys []any
}

func (m *Map) acc(w bool) { mc.Access(&m.o, w, "sync.Map") }

func (m *Map) Load(k any) (any, bool) {
	m.acc(false)
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	delete(m.m, k)
	for i, o := range m.keys {
		if o == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Store(k, v any) {
	m.acc(true)
	m.store(k, v)
}

func (m *Map) Swap(k, v any) (any, bool) {
	m.acc(true)
	old, ok := m.m[k]
	m.store(k, v)
	return old, ok
}

func (m *Map) CompareAndSwap(k, old, v any) bool {
	m.acc(true)
	if c, ok := m.m[k]; !ok || c != old {
		return false
	}
	m.store(k, v)
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.acc(true)
	if c, ok := m.m[k]; !ok || c != old {
		return false
	}
	m.del(k)
	return true
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.acc(true)
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.store(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.acc(true)
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k any) {
	m.acc(true)
	m.del(k)
}

func (m *Map) Clear() {
	m.acc(true)
	m.m, m.keys = nil, nil
}

func (m *Map) Range(f func(k, v any) bool) {
	m.acc(false)
	for _, k := range append([]any(nil), m.keys...) {
		m.acc(false)
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
