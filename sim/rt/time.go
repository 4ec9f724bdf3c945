//go:build go1.23

package rt

import (
	"context"
	"sort"
	"time"
	"unsafe"
)

// Epoch is the simulated wall clock at the start of a run.
var Epoch = time.Date(2024, 2, 29, 23, 59, 0, 0, time.UTC)

type simTimer struct {
	at     int64
	seq    uint64
	f      func()
	period int64
	active bool
}

func (s *Sim) addTimer(t *simTimer, d time.Duration) {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t.at, t.seq, t.active = s.now+int64(d), s.tseq, true
	s.timers = append(s.timers, t)
	sort.SliceStable(s.timers, func(i, j int) bool {
		a, b := s.timers[i], s.timers[j]
		return a.at < b.at || (a.at == b.at && a.seq < b.seq)
	})
}

func (s *Sim) delTimer(t *simTimer) bool {
	was := t.active
	t.active = false
	for i, x := range s.timers {
		if x == t {
			s.timers = append(append([]*simTimer{}, s.timers[:i]...), s.timers[i+1:]...)
			break
		}
	}
	return was
}

// fireTimer lets the clock jump to the earliest timer and runs it.
func (s *Sim) fireTimer() {
	if len(s.timers) == 0 {
		return
	}
	t := s.timers[0]
	s.timers = s.timers[1:]
	if t.at > s.now {
		s.now = t.at
	}
	s.Stats.TimerFire++
	s.mix(0x71e00 + t.seq<<32)
	s.Trace("timer expires")
	t.active = false
	if t.period > 0 {
		s.addTimer(t, time.Duration(t.period))
	}
	t.f()
}

func (s *Sim) fireDue() {
	for n := 0; n < 100 && len(s.timers) > 0 && s.timers[0].at <= s.now; n++ {
		s.fireTimer()
	}
}

func chanSender(c chan time.Time) func() {
	return func() {
		s := cur
		h := chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&c)), cap(c), c)
		h.timer = true
		if h.hasRecv() || len(h.buf) < h.cap {
			v := Epoch.Add(time.Duration(s.now))
			h.doSend(s, &v)
		}
	}
}

// Time_Now is time.Now
func Time_Now() time.Time {
	if cur == nil {
		return Epoch
	}
	cur.now += 1000
	return Epoch.Add(time.Duration(cur.now))
}

// Time_Since is time.Since
func Time_Since(t time.Time) time.Duration { return Time_Now().Sub(t) }

// Time_Until is time.Until
func Time_Until(t time.Time) time.Duration { return t.Sub(Time_Now()) }

// Time_Sleep is time.Sleep
func Time_Sleep(d time.Duration) {
	s := need("sleep")
	Y()
	if d <= 0 {
		return
	}
	me := s.curT
	s.addTimer(&simTimer{f: func() { s.ready(me) }}, d)
	s.block("sleep " + d.String())
}

// Timer is time.Timer
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	t *simTimer
	s *Sim
}

// Time_NewTimer is time.NewTimer
func Time_NewTimer(d time.Duration) *Timer {
	s := need("timer")
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, t: &simTimer{f: chanSender(c)}, s: s}
	s.addTimer(t.t, d)
	return t
}

func (t *Timer) drain() {
	if t.c != nil {
		h := key(t.c)
		h.buf = nil
	}
}

// Stop is Timer.Stop (Go 1.23 semantics: no stale value afterwards)
func (t *Timer) Stop() bool {
	s := need("timer")
	was := s.delTimer(t.t)
	if t.c != nil && len(key(t.c).buf) > 0 {
		was = true
	}
	t.drain()
	return was
}

// Reset is Timer.Reset
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.s.addTimer(t.t, d)
	return was
}

// Time_AfterFunc is time.AfterFunc
func Time_AfterFunc(d time.Duration, f func()) *Timer {
	s := need("timer")
	t := &Timer{t: &simTimer{f: func() { s.start(f) }}, s: s}
	s.addTimer(t.t, d)
	return t
}

// Time_After is time.After
func Time_After(d time.Duration) <-chan time.Time { return Time_NewTimer(d).C }

// Ticker is time.Ticker
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *simTimer
	s *Sim
}

// Time_NewTicker is time.NewTicker
func Time_NewTicker(d time.Duration) *Ticker {
	s := need("ticker")
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, t: &simTimer{f: chanSender(c), period: int64(d)}, s: s}
	s.addTimer(t.t, d)
	return t
}

// Stop is Ticker.Stop
func (t *Ticker) Stop() { t.s.delTimer(t.t) }

// Reset is Ticker.Reset
func (t *Ticker) Reset(d time.Duration) {
	t.s.delTimer(t.t)
	t.t.period = int64(d)
	t.s.addTimer(t.t, d)
}

// Time_Tick is time.Tick
func Time_Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return Time_NewTicker(d).C
}

// ---- context ----

type simCtx struct {
	context.Context // parent
	done            chan struct{}
	err             error
	cause           error
	closed          bool
	deadline        time.Time
	hasDL           bool
	kids            []*simCtx
	timer           *simTimer
}

func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error {
	Y()
	return c.err
}
func (c *simCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

type simKey struct{}

func (c *simCtx) Value(k any) any {
	if k == any(simKey{}) {
		return c
	}
	return c.Context.Value(k)
}

func (c *simCtx) cancel(err error) {
	if c.closed {
		return
	}
	c.closed = true
	c.err = err
	if c.timer != nil {
		cur.delTimer(c.timer)
	}
	key(c.done).close(cur)
	for _, k := range c.kids {
		k.cancel(err)
	}
}

func newCtx(p context.Context) *simCtx {
	need("context")
	c := &simCtx{Context: p, done: make(chan struct{})}
	if pc, ok := p.Value(simKey{}).(*simCtx); ok {
		if pc.closed {
			c.cancel(pc.err)
		} else {
			pc.kids = append(pc.kids, c)
		}
	}
	return c
}

// Context_WithCancel is context.WithCancel
func Context_WithCancel(p context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(p)
	return c, func() {
		need("context")
		Y()
		c.cancel(context.Canceled)
	}
}

// Context_WithDeadline is context.WithDeadline
func Context_WithDeadline(p context.Context, t time.Time) (context.Context, context.CancelFunc) {
	c := newCtx(p)
	c.deadline, c.hasDL = t, true
	if !c.closed {
		c.timer = &simTimer{f: func() { c.cancel(context.DeadlineExceeded) }}
		cur.addTimer(c.timer, t.Sub(Epoch.Add(time.Duration(cur.now))))
	}
	return c, func() {
		need("context")
		Y()
		c.cancel(context.Canceled)
	}
}

// Context_WithTimeout is context.WithTimeout
func Context_WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return Context_WithDeadline(p, Epoch.Add(time.Duration(cur.now)+d))
}
