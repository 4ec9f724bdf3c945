//go:build go1.23

package rt

import (
	"fmt"
	"math"
	"sort"
	"unsafe"
)

func ln1m(x float64) float64 { return math.Log1p(-x) }

type waiter struct {
	t    *Task
	sel  *selWait
	idx  int
	val  any // *T
	ok   bool
	done *bool
}

type selWait struct {
	fired bool
	idx   int
	val   any
	ok    bool
}

type hchan struct {
	id     int
	cap    int
	buf    []any
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	timer  bool
}

func chanOf(p unsafe.Pointer, capacity int, keep any) *hchan {
	s := cur
	h := s.chans[p]
	if h == nil {
		h = &hchan{id: len(s.chans), cap: capacity}
		s.chans[p] = h
		s.keep = append(s.keep, keep)
	}
	return h
}

func (h *hchan) popRecv() *waiter {
	for len(h.recvq) > 0 {
		w := h.recvq[0]
		h.recvq = h.recvq[1:]
		if w.sel.fired {
			continue
		}
		w.sel.fired = true
		return w
	}
	return nil
}

func (h *hchan) popSend() *waiter {
	for len(h.sendq) > 0 {
		w := h.sendq[0]
		h.sendq = h.sendq[1:]
		if w.sel.fired {
			continue
		}
		w.sel.fired = true
		return w
	}
	return nil
}

func (h *hchan) hasRecv() bool {
	for _, w := range h.recvq {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (h *hchan) hasSend() bool {
	for _, w := range h.sendq {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (h *hchan) canSend() bool { return h.closed || h.hasRecv() || len(h.buf) < h.cap }
func (h *hchan) canRecv() bool { return h.closed || len(h.buf) > 0 || h.hasSend() }

// trySend performs a send that canSend allows.
func (h *hchan) doSend(s *Sim, v any) {
	if h.closed {
		panic(chanErr("send on closed channel"))
	}
	if w := h.popRecv(); w != nil {
		if h.timer {
			s.Ticks = append(s.Ticks, s.D())
		}
		w.sel.idx, w.sel.val, w.sel.ok = w.idx, v, true
		s.ready(w.t)
		s.mix(0x5e00 + uint64(h.id)<<16 + uint64(w.t.id)<<32)
		return
	}
	h.buf = append(h.buf, v)
}

func (h *hchan) doRecv(s *Sim) (any, bool) {
	if len(h.buf) > 0 {
		v := h.buf[0]
		h.buf = h.buf[1:]
		if h.timer {
			s.Ticks = append(s.Ticks, s.D())
		}
		if w := h.popSend(); w != nil {
			h.buf = append(h.buf, w.val)
			w.sel.idx, w.sel.ok = w.idx, true
			s.ready(w.t)
		}
		return v, true
	}
	if w := h.popSend(); w != nil {
		w.sel.idx, w.sel.ok = w.idx, true
		s.ready(w.t)
		s.mix(0x7e00 + uint64(h.id)<<16 + uint64(w.t.id)<<32)
		return w.val, true
	}
	return nil, false // closed
}

type chanErr string

func (e chanErr) Error() string { return string(e) }
func (e chanErr) RuntimeError() {}

func send(h *hchan, v any) {
	s := cur
	if h == nil {
		for {
			s.block("send on nil channel")
		}
	}
	if h.canSend() {
		h.doSend(s, v)
		return
	}
	sw := &selWait{}
	h.sendq = append(h.sendq, &waiter{t: s.curT, sel: sw, val: v})
	s.block(fmt.Sprintf("send on channel %d", h.id))
	if !sw.ok {
		panic(chanErr("send on closed channel"))
	}
}

func recv(h *hchan) (any, bool) {
	s := cur
	if h == nil {
		for {
			s.block("receive from nil channel")
		}
	}
	if h.canRecv() {
		return h.doRecv(s)
	}
	sw := &selWait{}
	h.recvq = append(h.recvq, &waiter{t: s.curT, sel: sw})
	s.block(fmt.Sprintf("receive from channel %d", h.id))
	return sw.val, sw.ok
}

func key[T any](ch chan T) *hchan {
	if ch == nil {
		return nil
	}
	return chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch)
}

func keyS[T any](ch chan<- T) *hchan {
	if ch == nil {
		return nil
	}
	return chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch)
}

func keyR[T any](ch <-chan T) *hchan {
	if ch == nil {
		return nil
	}
	return chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch)
}

// S is the send statement ch <- v, written S(ch)(v).
func S[T any](ch chan<- T) func(T) {
	return func(v T) {
		need("send")
		Y()
		send(keyS(ch), &v)
	}
}

// R is the receive expression <-ch.
func R[T any](ch <-chan T) T {
	v, _ := R2(ch)
	return v
}

// R2 is the two-valued receive expression.
func R2[T any](ch <-chan T) (T, bool) {
	need("receive")
	Y()
	p, ok := recv(keyR(ch))
	if p == nil {
		var z T
		return z, ok
	}
	return *(p.(*T)), ok
}

// RangeStart begins a loop over a channel.
func RangeStart[T any](ch <-chan T) (func() (T, bool), T, bool) {
	it := func() (T, bool) { return R2(ch) }
	v, ok := R2(ch)
	return it, v, ok
}

// Close closes a channel.
func Close[T any](ch chan<- T) {
	s := need("close")
	Y()
	h := keyS(ch)
	if h == nil {
		panic(chanErr("close of nil channel"))
	}
	h.close(s)
}

// close is also what a timer does, outside of any task.
func (h *hchan) close(s *Sim) {
	if h.closed {
		panic(chanErr("close of closed channel"))
	}
	h.closed = true
	s.mix(0xc105e + uint64(h.id)<<32)
	for w := h.popRecv(); w != nil; w = h.popRecv() {
		w.sel.idx, w.sel.val, w.sel.ok = w.idx, nil, false
		s.ready(w.t)
	}
	for w := h.popSend(); w != nil; w = h.popSend() {
		w.sel.idx, w.sel.ok = w.idx, false
		s.ready(w.t)
	}
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	need("len")
	h := keyR(ch)
	if h == nil {
		return 0
	}
	return len(h.buf)
}

// Case is one case of a select.
type Case interface {
	chanState() (h *hchan, isSend bool, v any)
	set(v any, ok bool)
}

// RecvCase is a receive case; V and OK hold what was received.
type RecvCase[T any] struct {
	h  *hchan
	V  T
	OK bool
}

func (c *RecvCase[T]) chanState() (*hchan, bool, any) { return c.h, false, nil }
func (c *RecvCase[T]) set(v any, ok bool) {
	if v != nil {
		c.V = *(v.(*T))
	}
	c.OK = ok
}

// SendCase is a send case.
type SendCase[T any] struct {
	h *hchan
	v *T
}

func (c *SendCase[T]) chanState() (*hchan, bool, any) { return c.h, true, c.v }
func (c *SendCase[T]) set(any, bool)                  {}

// CRecv makes a receive case.
func CRecv[T any](ch <-chan T) *RecvCase[T] {
	need("select")
	return &RecvCase[T]{h: keyR(ch)}
}

// CSend makes a send case, written CSend(ch)(v).
func CSend[T any](ch chan<- T) func(T) *SendCase[T] {
	need("select")
	return func(v T) *SendCase[T] { return &SendCase[T]{h: keyS(ch), v: &v} }
}

// Select runs a select statement and returns the index of the case taken, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	s := need("select")
	Y()
	var readyIdx []int
	for i, c := range cases {
		h, isSend, _ := c.chanState()
		if h == nil {
			continue
		}
		if (isSend && h.canSend()) || (!isSend && h.canRecv()) {
			readyIdx = append(readyIdx, i)
		}
	}
	if len(readyIdx) > 0 {
		k := 0
		if len(readyIdx) > 1 {
			k = s.consult(KSelect, func() int { return s.rng.intn(len(readyIdx)) }) % len(readyIdx)
		}
		i := readyIdx[k]
		h, isSend, v := cases[i].chanState()
		if isSend {
			h.doSend(s, v)
		} else {
			v, ok := h.doRecv(s)
			cases[i].set(v, ok)
		}
		return i
	}
	if hasDefault {
		return -1
	}
	sw := &selWait{}
	n := 0
	for i, c := range cases {
		h, isSend, v := c.chanState()
		if h == nil {
			continue
		}
		n++
		w := &waiter{t: s.curT, sel: sw, idx: i, val: v}
		if isSend {
			h.sendq = append(h.sendq, w)
		} else {
			h.recvq = append(h.recvq, w)
		}
	}
	for {
		s.block(fmt.Sprintf("select with %d cases", n))
		if n > 0 {
			break
		}
	}
	_, isSend, _ := cases[sw.idx].chanState()
	if isSend {
		if !sw.ok {
			panic(chanErr("send on closed channel"))
		}
	} else {
		cases[sw.idx].set(sw.val, sw.ok)
	}
	return sw.idx
}

// Entry is a map entry visited by a range loop.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Live tells whether the entry is still in the map.
func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }

// V returns the entry's value.
func (e Entry[K, V]) V() V { return e.m[e.K] }

// Entries lists a map in an order that is a function of the run.
func Entries[K comparable, V any](m map[K]V) []Entry[K, V] {
	es := make([]Entry[K, V], 0, len(m))
	ks := make([]string, 0, len(m))
	for k := range m {
		es = append(es, Entry[K, V]{k, m})
		ks = append(ks, fmt.Sprintf("%v", k))
	}
	idx := make([]int, len(es))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return ks[idx[a]] < ks[idx[b]] })
	out := make([]Entry[K, V], len(es))
	for i, x := range idx {
		out[i] = es[x]
	}
	if cur != nil && len(out) > 1 {
		// the run decides the order
		for i := len(out) - 1; i > 0; i-- {
			j := cur.maps.intn(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}
