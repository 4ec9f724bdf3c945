//go:build go1.23

package rt

import (
	"fmt"
	"sort"
	"sync"
)

type waitq struct{ ts []*Task }

func (s *Sim) waitOn(q **waitq, why string) {
	if *q == nil {
		*q = &waitq{}
	}
	(*q).ts = append((*q).ts, s.curT)
	s.block(why)
}

func (s *Sim) wake(q *waitq, n int) {
	if q == nil {
		return
	}
	for n != 0 && len(q.ts) > 0 {
		t := q.ts[0]
		q.ts = q.ts[1:]
		s.ready(t)
		n--
	}
}

// simNow returns the running simulation, nil outside of one.
func simNow() *Sim {
	if cur == nil || cur.curT == nil {
		return nil
	}
	if cur.killing {
		panic(killed)
	}
	return cur
}

// Locker is sync.Locker
type Locker = sync.Locker

// Mutex is sync.Mutex
type Mutex struct {
	locked bool
	q      *waitq
}

// Lock locks
func (m *Mutex) Lock() {
	s := simNow()
	Y()
	for m.locked {
		if s == nil {
			panic("rt: lock would block outside of a simulation")
		}
		s.waitOn(&m.q, "mutex")
	}
	m.locked = true
	if s != nil {
		s.mix(0x10c)
	}
}

// TryLock tries to lock
func (m *Mutex) TryLock() bool {
	simNow()
	Y()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks
func (m *Mutex) Unlock() {
	s := simNow()
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	if s != nil {
		s.wake(m.q, 1)
	}
	Y()
}

// fatal is a runtime error that cannot be recovered in the real program.
func fatal(msg string) {
	if s := cur; s != nil && s.curT != nil {
		s.finish(Outcome{Kind: "panic", Msg: "fatal error: " + msg})
	}
	panic(msg)
}

// RWMutex is sync.RWMutex
type RWMutex struct {
	w       bool
	readers int
	waitW   int
	q       *waitq
}

// Lock locks for writing
func (m *RWMutex) Lock() {
	s := simNow()
	Y()
	m.waitW++
	for m.w || m.readers > 0 {
		if s == nil {
			panic("rt: lock would block outside of a simulation")
		}
		s.waitOn(&m.q, "rwmutex (write)")
	}
	m.waitW--
	m.w = true
	if s != nil {
		s.mix(0x20c)
	}
}

// TryLock tries to lock for writing
func (m *RWMutex) TryLock() bool {
	simNow()
	Y()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

// Unlock unlocks a writer
func (m *RWMutex) Unlock() {
	s := simNow()
	if !m.w {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	if s != nil {
		s.wake(m.q, -1)
	}
	Y()
}

// RLock locks for reading; a waiting writer blocks new readers, as in the real one.
func (m *RWMutex) RLock() {
	s := simNow()
	Y()
	for m.w || m.waitW > 0 {
		if s == nil {
			panic("rt: lock would block outside of a simulation")
		}
		s.waitOn(&m.q, "rwmutex (read)")
		if !m.w { // woken after a writer: this reader goes first
			break
		}
	}
	m.readers++
	if s != nil {
		s.mix(0x30c)
	}
}

// TryRLock tries to lock for reading
func (m *RWMutex) TryRLock() bool {
	simNow()
	Y()
	if m.w || m.waitW > 0 {
		return false
	}
	m.readers++
	return true
}

// RUnlock unlocks a reader
func (m *RWMutex) RUnlock() {
	s := simNow()
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if s != nil && m.readers == 0 {
		s.wake(m.q, -1)
	}
	Y()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker is RWMutex.RLocker
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is sync.WaitGroup
type WaitGroup struct {
	n int
	q *waitq
}

// Add adds to the counter
func (w *WaitGroup) Add(d int) {
	s := simNow()
	Y()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 && s != nil {
		s.wake(w.q, -1)
	}
}

// Done is Add(-1)
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for the counter to be zero
func (w *WaitGroup) Wait() {
	s := need("wait")
	Y()
	for w.n > 0 {
		s.waitOn(&w.q, fmt.Sprintf("waitgroup (%d)", w.n))
	}
}

// Go is WaitGroup.Go
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once
type Once struct {
	done bool
	m    Mutex
}

// Do runs f once
func (o *Once) Do(f func()) {
	Y()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Sync_OnceFunc is sync.OnceFunc
func Sync_OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Sync_OnceValue is sync.OnceValue
func Sync_OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// Sync_OnceValues is sync.OnceValues
func Sync_OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Cond is sync.Cond
type Cond struct {
	L Locker
	q *waitq
}

// Sync_NewCond is sync.NewCond
func Sync_NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits
func (c *Cond) Wait() {
	s := need("cond")
	if c.q == nil {
		c.q = &waitq{}
	}
	c.q.ts = append(c.q.ts, s.curT)
	// registered before the lock is released, blocked afterwards without a decision point between
	me := s.curT
	me.condReady = false
	me.inCond = true
	c.L.Unlock()
	if !me.condReady {
		s.block("cond")
	}
	me.inCond = false
	c.L.Lock()
}

func (c *Cond) wake(n int) {
	s := need("cond")
	Y()
	if c.q == nil {
		return
	}
	for n != 0 && len(c.q.ts) > 0 {
		t := c.q.ts[0]
		c.q.ts = c.q.ts[1:]
		t.condReady = true
		if t.state == tBlocked && t.why == "cond" {
			s.ready(t)
		}
		n--
	}
}

// Signal wakes one
func (c *Cond) Signal() { c.wake(1) }

// Broadcast wakes all
func (c *Cond) Broadcast() { c.wake(-1) }

// Pool is sync.Pool; the run decides whether an item survives.
type Pool struct {
	New   func() any
	items []any
}

// Get takes an item
func (p *Pool) Get() any {
	Y()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives an item back
func (p *Pool) Put(x any) {
	Y()
	p.items = append(p.items, x)
}

// Map is sync.Map
type Map struct{ m map[any]any }

// Load loads
func (m *Map) Load(k any) (any, bool) { Y(); v, ok := m.m[k]; return v, ok }

// Store stores
func (m *Map) Store(k, v any) { m.Swap(k, v) }

// Swap swaps
func (m *Map) Swap(k, v any) (any, bool) {
	Y()
	if m.m == nil {
		m.m = map[any]any{}
	}
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}

// LoadOrStore loads or stores
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if o, ok := m.Load(k); ok {
		return o, true
	}
	m.Store(k, v)
	return v, false
}

// LoadAndDelete loads and deletes
func (m *Map) LoadAndDelete(k any) (any, bool) {
	Y()
	o, ok := m.m[k]
	delete(m.m, k)
	return o, ok
}

// Delete deletes
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// CompareAndSwap compares and swaps
func (m *Map) CompareAndSwap(k, o, n any) bool {
	Y()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}

// Clear empties
func (m *Map) Clear() { Y(); m.m = nil }

// Range visits
func (m *Map) Range(f func(k, v any) bool) {
	ks := make([]any, 0, len(m.m))
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	for _, k := range ks {
		Y()
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

// Runtime_Gosched is runtime.Gosched
func Runtime_Gosched() {
	Y()
	Yield()
}

// Runtime_NumGoroutine is runtime.NumGoroutine
func Runtime_NumGoroutine() int {
	n := 0
	for _, t := range need("NumGoroutine").tasks {
		if t.state != tDone {
			n++
		}
	}
	return n
}

// Runtime_NumCPU and Runtime_GOMAXPROCS report the simulated machine
func Runtime_NumCPU() int { return numCPU() }

// Runtime_GOMAXPROCS is runtime.GOMAXPROCS
func Runtime_GOMAXPROCS(int) int { return numCPU() }

func numCPU() int {
	if cur == nil {
		return 4
	}
	return []int{1, 2, 4, 16}[cur.Cfg.RandSeed%4]
}
