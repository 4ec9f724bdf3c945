//go:build go1.23

// Package rt is the deterministic simulator that instrumented goselect code runs on.
//
// Exactly one simulated task runs at any moment (tasks are coroutines). Every point where the
// real program could be interleaved, delayed, interrupted by a timer, hit by an I/O fault or
// killed is a numbered decision point; a run is a pure function of its parameters and the sparse
// list of non-default decisions taken at those points.
package rt

import (
	"fmt"
	"iter"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Decision is one non-default choice of the scheduler or the fault injector.
type Decision struct {
	D uint64 `json:"d"` // number of the decision point
	K string `json:"k"` // kind
	V int    `json:"v"` // value
}

// Kinds of decisions
const (
	KPreempt = "preempt" // at a yield point: switch to the V-th other runnable task
	KTimer   = "timer"   // at a yield or blocking point: let the next timer expire now
	KCrash   = "crash"   // the process dies here
	KPick    = "pick"    // at a blocking point: run the V-th runnable task
	KSelect  = "select"  // take the V-th ready case of a select
	KFault   = "fault"   // inject fault number V at an I/O operation
)

// Strategies of the scheduler
const (
	StratWalk  = "walk"  // random preemptions, uniform picks
	StratPCT   = "pct"   // random priorities with change points
	StratStall = "stall" // random walk in which some tasks stall for long stretches
	StratFIFO  = "fifo"  // run queue order, rare preemptions
	StratLIFO  = "lifo"  // most recently readied first, rare preemptions
)

// Config decides how a run explores. It is derived from the run's seed; replay only needs the
// limits and the random stream.
type Config struct {
	Seed       uint64  `json:"seed"`                  // scheduler PRNG (ignored in replay)
	Strategy   string  `json:"strategy"`              // ignored in replay
	PreemptP   float64 `json:"preempt_p"`             // probability of a preemption per yield point
	TimerP     float64 `json:"timer_p"`               // probability of letting a timer expire at a decision point
	CrashP     float64 `json:"crash_p"`               // probability of a crash per slow yield
	FaultP     float64 `json:"fault_p"`               // probability of a fault per I/O operation
	Faults     string  `json:"faults"`                // comma separated fault kinds enabled
	MaxCrash   int     `json:"max_crash"`             // whether crashes are allowed at all
	FairAfter  uint64  `json:"fair_after"`            // decision points after which scheduling is fair and faults stop
	FaultUntil uint64  `json:"fault_until,omitempty"` // decision points after which faults stop, if later
	StepLimit  uint64  `json:"step_limit"`            // decision points after which the run is declared stuck
	RandSeed   uint64  `json:"rand_seed"`             // the program's random stream
	RandMode   string  `json:"rand_mode"`             // uniform, sticky, extreme, mixed
	Unfair     int     `json:"unfair"`                // bound on how often a runnable task can be passed over
	Quantum    uint64  `json:"quantum"`               // yields after which a task is rotated out by default
	SwitchCost int64   `json:"switch_cost"`           // simulated nanoseconds per task switch
	StepCost   int64   `json:"step_cost"`             // simulated nanoseconds per decision point
}

type tstate uint8

const (
	tRunnable tstate = iota
	tBlocked
	tDone
)

// Task is one simulated goroutine.
type Task struct {
	id        int
	name      string
	next      func() (struct{}, bool)
	stop      func()
	yield     func(struct{}) bool
	state     tstate
	why       string
	prio      int64
	passed    int
	stalled   int
	harness   bool
	inCond    bool
	condReady bool
	rnd       *Stream
}

// Stream is a random stream of the program. A task inherits the stream of the task that starts it.
type Stream struct {
	prng
	last   uint64
	Splits [][]int // permutations drawn, in order
	seeded int     // how often the program had set the seed
}

// Outcome of a run
type Outcome struct {
	Kind  string // finished, panic, exit, crash, deadlock, stuck, failed
	Msg   string
	Stack string
	Code  int
	Task  string
}

// Stats of a run
type Stats struct {
	Steps     uint64         `json:"steps"`
	Switches  uint64         `json:"switches"`
	Preempts  uint64         `json:"preempts"`
	SimTime   int64          `json:"sim_ns"`
	TimerFire uint64         `json:"timers"`
	Tasks     int            `json:"tasks"`
	Draws     uint64         `json:"draws"` // random numbers
	Seeds     int            `json:"seeds"` // times the program set the seed
	Faults    map[string]int `json:"faults"`
	Probes    map[string]int `json:"probes"`
	Hash      uint64         `json:"hash"` // over the sequence of switches and synchronisation events
}

type killT struct{}

func (killT) String() string { return "simulated kill" }

var killed = killT{}

type exitT struct{ code int }

// Sim is one simulated execution.
type Sim struct {
	Cfg      Config
	Disk     *Disk
	Stdout   strings.Builder
	Stderr   strings.Builder
	Stats    Stats
	Outcome  Outcome
	Recorded []Decision

	replay   map[uint64]Decision
	isReplay bool
	rng      prng
	rnd      *Stream
	seeded   int    // times the program set the seed
	newSeed  uint64 // of the last time
	maps     prng   // order of map iterations
	rndMode  string

	tasks  []*Task
	runq   []*Task
	curT   *Task
	chans  map[unsafe.Pointer]*hchan
	keep   []any
	now    int64
	timers []*simTimer
	tseq   uint64
	crashP float64

	nextPreempt uint64
	lastSwitch  uint64
	killing     bool
	ended       bool
	done        bool
	pctLow      int64
	idleFires   int
	trace       []string
	Tracing     bool
	Ticks       []uint64 // decision points at which a value of a timer was received
	Parallel    int64    // simulated time at which a third task existed (0: never)
	OnStep      func()
	faultSet    map[string]bool
	endD        uint64
	lastD       uint64
	replayY     []uint64
}

var (
	budget int64 = 1 << 62
	armAt  uint64
	cur    *Sim
)

// Y is a yield point; instrumented code calls it before every statement.
func Y() {
	budget--
	if budget < 0 {
		ySlow()
	}
}

// SimNow is the simulated time since the start, in nanoseconds
func (s *Sim) SimNow() int64 { return s.now }

// D returns the number of the current decision point.
func (s *Sim) D() uint64 { return armAt - uint64(budget) }

func (s *Sim) arm() {
	d := s.D()
	if s.nextPreempt <= d { // stepped over by a decision point of another kind
		s.planPreempt()
	}
	target := d + 1<<20
	if s.nextPreempt > d && s.nextPreempt < target {
		target = s.nextPreempt
	}
	if d < s.Cfg.FairAfter && s.Cfg.FairAfter < target {
		target = s.Cfg.FairAfter
	}
	q := s.lastSwitch + s.quantum(d)
	if q <= d {
		q = d + 1
	}
	if q < target {
		target = q
	}
	if s.Cfg.StepLimit > d && s.Cfg.StepLimit < target {
		target = s.Cfg.StepLimit
	}
	if target <= d {
		target = d + 1
	}
	// the yield that reaches target goes through ySlow
	armAt = target - 1
	budget = int64(armAt - d)
}

func (s *Sim) quantum(d uint64) uint64 {
	if d >= s.Cfg.FairAfter {
		return 64
	}
	return s.Cfg.Quantum
}

// New creates a simulation. decisions == nil explores from cfg.Seed, otherwise it replays.
func New(cfg Config, decisions []Decision, replay bool) *Sim {
	if cfg.FairAfter == 0 {
		cfg.FairAfter = 3 << 20
	}
	if cfg.StepLimit == 0 {
		cfg.StepLimit = cfg.FairAfter + 60<<20
	}
	if cfg.Unfair == 0 {
		cfg.Unfair = 2000
	}
	if cfg.Quantum == 0 {
		cfg.Quantum = 200000
	}
	if cfg.SwitchCost == 0 {
		cfg.SwitchCost = 1000
	}
	if cfg.StepCost == 0 {
		cfg.StepCost = 1
	}
	s := &Sim{Cfg: cfg, chans: map[unsafe.Pointer]*hchan{}}
	resetLog()
	s.Disk = NewDisk(s)
	s.rng.seed(cfg.Seed)
	s.rnd = &Stream{}
	s.rnd.seed(cfg.RandSeed)
	s.maps.seed(cfg.Seed ^ 0x6d617073)
	s.rndMode = cfg.RandMode
	s.Stats.Faults = map[string]int{}
	s.Stats.Probes = map[string]int{}
	s.Stats.Hash = 14695981039346656037
	s.isReplay = replay
	s.faultSet = map[string]bool{}
	for _, f := range strings.Split(cfg.Faults, ",") {
		if f != "" {
			s.faultSet[f] = true
		}
	}
	if replay {
		s.replay = map[uint64]Decision{}
		for _, d := range decisions {
			s.replay[d.D] = d
			if d.K == KPreempt || d.K == KTimer || d.K == KCrash {
				s.replayY = append(s.replayY, d.D)
			}
		}
		sort.Slice(s.replayY, func(i, j int) bool { return s.replayY[i] < s.replayY[j] })
	}
	return s
}

func (s *Sim) mix(x uint64) {
	h := s.Stats.Hash
	for i := 0; i < 4; i++ {
		h ^= x & 0xffff
		h *= 1099511628211
		x >>= 16
	}
	s.Stats.Hash = h
}

// Trace adds a line to the run's trace (only kept while tracing).
func (s *Sim) Trace(format string, args ...any) {
	if s.Tracing && len(s.trace) < 20000 {
		n := "-"
		if s.curT != nil {
			n = s.curT.name
		}
		s.trace = append(s.trace, fmt.Sprintf("[%d t=%v %s] ", s.D(), time.Duration(s.now), n)+fmt.Sprintf(format, args...))
	}
}

// TraceLines returns the trace
func (s *Sim) TraceLines() []string { return s.trace }

// consult resolves one decision point. explore is called for a value when exploring; zero is the
// default action.
func (s *Sim) consult(kind string, explore func() int) int {
	// one decision point
	budget--
	if budget < 0 {
		s.arm()
	}
	d := s.D()
	if s.isReplay {
		if r, ok := s.replay[d]; ok && r.K == kind {
			s.Recorded = append(s.Recorded, r)
			return r.V
		}
		return 0
	}
	v := explore()
	if v != 0 {
		s.Recorded = append(s.Recorded, Decision{d, kind, v})
	}
	return v
}

func (s *Sim) planPreempt() {
	d := s.D()
	if s.isReplay {
		for len(s.replayY) > 0 && s.replayY[0] <= d {
			s.replayY = s.replayY[1:]
		}
		s.nextPreempt = 1 << 62
		if len(s.replayY) > 0 {
			s.nextPreempt = s.replayY[0]
		}
		return
	}
	s.nextPreempt = d + 1 + s.rng.geometric(s.Cfg.PreemptP)
}

func ySlow() {
	s := cur
	if s == nil || s.curT == nil {
		budget = 1 << 62
		return
	}
	if s.killing {
		budget = 0
		panic(killed)
	}
	// undo the decrement below zero: D() is already the number of this point
	budget = 0
	d := armAt + 1
	armAt = d
	if d >= s.Cfg.StepLimit {
		s.finish(Outcome{Kind: "stuck", Msg: fmt.Sprintf("no end after %d steps (fair scheduling without faults for the last %d)", d, d-s.Cfg.FairAfter)})
	}
	if d == s.nextPreempt && d < s.Cfg.FairAfter && s.preemptPoint(d) {
		return
	}
	if d-s.lastSwitch >= s.quantum(d) && len(s.runq) > 0 {
		if d >= s.Cfg.FairAfter {
			s.fireDue()
		}
		s.lastSwitch = d
		s.arm()
		s.switchTo(s.runq[0])
		return
	}
	s.lastSwitchFix(d)
	s.arm()
}

func (s *Sim) lastSwitchFix(d uint64) {
	if d-s.lastSwitch >= s.quantum(d) {
		s.lastSwitch = d
	}
}

// preemptPoint tells whether anything was decided here.
func (s *Sim) preemptPoint(d uint64) bool {
	var dec Decision
	if s.isReplay {
		dec = s.replay[d]
		s.planPreempt()
	} else {
		dec = s.exploreYield(d)
		s.planPreempt()
		if dec.K != "" {
			s.Recorded = append(s.Recorded, dec)
		}
	}
	if s.isReplay && dec.K != "" {
		s.Recorded = append(s.Recorded, dec)
	}
	if dec.K == "" {
		return false
	}
	s.arm()
	switch dec.K {
	case KCrash:
		s.Crash("at a step")
	case KTimer:
		if len(s.timers) > 0 {
			s.fireTimer()
		}
	case KPreempt:
		if n := len(s.runq); n > 0 {
			s.Stats.Preempts++
			s.lastSwitch = s.D()
			s.switchTo(s.runq[(dec.V-1+n)%n])
		}
	}
	return true
}

func (s *Sim) exploreYield(d uint64) Decision {
	if s.Cfg.CrashP > 0 && s.rng.float() < s.Cfg.CrashP {
		return Decision{d, KCrash, 1}
	}
	if len(s.timers) > 0 && s.rng.float() < s.Cfg.TimerP {
		return Decision{d, KTimer, 1}
	}
	n := len(s.runq)
	if n == 0 {
		return Decision{}
	}
	if s.Cfg.Strategy == StratPCT {
		// a change point: the running task drops below all others
		s.pctLow--
		s.curT.prio = s.pctLow
		best := s.pctBest()
		return Decision{d, KPreempt, best + 1}
	}
	i := s.pickIndex()
	if s.runq[i].stalled > 0 {
		return Decision{}
	}
	return Decision{d, KPreempt, i + 1}
}

func (s *Sim) pctBest() int {
	b := 0
	for i, t := range s.runq {
		if t.prio > s.runq[b].prio {
			b = i
		}
	}
	return b
}

// pickIndex chooses an index into the run queue by the run's strategy.
func (s *Sim) pickIndex() int {
	n := len(s.runq)
	for i, t := range s.runq {
		if t.passed > s.Cfg.Unfair {
			return i
		}
	}
	switch s.Cfg.Strategy {
	case StratPCT:
		return s.pctBest()
	case StratFIFO:
		if s.rng.float() < 0.9 {
			return 0
		}
	case StratLIFO:
		if s.rng.float() < 0.9 {
			return n - 1
		}
	case StratStall:
		if s.rng.float() < 0.02 {
			s.runq[s.rng.intn(n)].stalled = 1 + s.rng.intn(s.Cfg.Unfair)
		}
		i := s.rng.intn(n)
		for k := 0; k < n; k++ {
			t := s.runq[(i+k)%n]
			if t.stalled <= 0 {
				return (i + k) % n
			}
			t.stalled--
		}
		return i
	}
	return s.rng.intn(n)
}

// switchTo puts the running task at the end of the run queue and runs t.
func (s *Sim) switchTo(t *Task) {
	me := s.curT
	s.removeRun(t)
	s.ready(me)
	s.handoff(me, t)
}

func (s *Sim) removeRun(t *Task) {
	for i, x := range s.runq {
		if x == t {
			for _, y := range s.runq[:i] {
				y.passed++
			}
			copy(s.runq[i:], s.runq[i+1:])
			s.runq = s.runq[:len(s.runq)-1]
			t.passed = 0
			return
		}
	}
	panic("rt: task not in run queue")
}

func (s *Sim) ready(t *Task) {
	t.state = tRunnable
	s.runq = append(s.runq, t)
}

// handoff suspends the running task; the scheduler loop continues with next.
func (s *Sim) handoff(me, next *Task) {
	s.curT = next
	if !me.yield(struct{}{}) || s.killing {
		panic(killed)
	}
}

// block suspends the running task until something readies it.
func (s *Sim) block(why string) {
	me := s.curT
	if s.killing {
		panic(killed)
	}
	me.state = tBlocked
	me.why = why
	s.Trace("blocks: %s", why)
	next := s.pickNext()
	if next == me { // readied by a timer while choosing
		return
	}
	s.handoff(me, next)
}

// pickNext removes and returns the next task to run; ends the run when there is none.
func (s *Sim) pickNext() *Task {
	for {
		if s.D() >= s.Cfg.StepLimit {
			s.finish(Outcome{Kind: "stuck", Msg: fmt.Sprintf("no end after %d steps", s.D())})
			return nil
		}
		if len(s.runq) == 0 {
			if len(s.timers) == 0 {
				s.finish(Outcome{Kind: "deadlock", Msg: s.blockedList()})
				return nil
			}
			s.idleFires++
			if s.idleFires > 200000 {
				s.finish(Outcome{Kind: "stuck", Msg: "only timers make progress: " + s.blockedList()})
				return nil
			}
			s.fireTimer()
			continue
		}
		s.idleFires = 0
		s.fireDue()
		fair := s.D() >= s.Cfg.FairAfter
		if !fair && len(s.timers) > 0 {
			if v := s.consult(KTimer, func() int {
				if s.rng.float() < s.Cfg.TimerP {
					return 1
				}
				return 0
			}); v != 0 {
				s.fireTimer()
				continue
			}
		}
		i := 0
		if len(s.runq) > 1 && !fair {
			i = s.consult(KPick, s.pickIndex) % len(s.runq)
		}
		t := s.runq[i]
		s.removeRun(t)
		s.lastSwitch = s.D()
		s.arm()
		return t
	}
}

func (s *Sim) blockedList() string {
	var b []string
	for _, t := range s.tasks {
		if t.state == tBlocked {
			b = append(b, t.name+": "+t.why)
		}
	}
	if len(b) > 12 {
		b = append(b[:12], fmt.Sprintf("and %d more", len(b)-12))
	}
	return strings.Join(b, "; ")
}

// finish ends the run from inside a task.
func (s *Sim) finish(o Outcome) {
	if !s.ended {
		s.ended = true
		s.Outcome = o
		if s.curT != nil {
			s.Outcome.Task = s.curT.name
		}
	}
	s.kill()
	panic(killed)
}

// kill makes every further step of any task unwind it.
func (s *Sim) kill() {
	if !s.killing {
		s.endD = s.D()
		s.killing = true
		budget, armAt = 0, 0
	}
}

// Crash ends the run as a process crash: no deferred function has any effect.
func (s *Sim) Crash(where string) {
	s.Stats.Faults["crash"]++
	s.finish(Outcome{Kind: "crash", Msg: where})
}

// Exit ends the run as os.Exit does
func (s *Sim) Exit(code int) { s.finish(Outcome{Kind: "exit", Code: code}) }

// Fail ends the run with a violation found by the harness while the run proceeds.
func Fail(class, format string, args ...any) {
	cur.finish(Outcome{Kind: "failed", Msg: class + ": " + fmt.Sprintf(format, args...)})
}

func (s *Sim) newTask(name string, f func()) *Task {
	t := &Task{id: len(s.tasks), name: name, rnd: s.rnd}
	if s.curT != nil {
		t.rnd = s.curT.rnd
	}
	if !s.isReplay {
		t.prio = int64(s.rng.next() >> 2)
	}
	s.tasks = append(s.tasks, t)
	if len(s.tasks) == 3 {
		s.Parallel = s.now
	}
	s.Stats.Tasks++
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			t.state = tDone
			if r := recover(); r != nil {
				if r == any(killed) {
					return
				}
				if !s.ended {
					s.ended = true
					s.Outcome = Outcome{Kind: "panic", Msg: fmt.Sprint(r), Stack: string(debug.Stack()), Task: t.name}
				}
				s.kill()
			}
		}()
		f()
	})
	return t
}

// Go starts a simulated goroutine.
func Go(f func()) {
	need("go").start(f)
}

// start is also what a timer does, outside of any task.
func (s *Sim) start(f func()) {
	t := s.newTask(fmt.Sprintf("g%d", len(s.tasks)), f)
	s.Trace("starts %s", t.name)
	s.ready(t)
	s.mix(0x60 + uint64(t.id)<<8)
}

// GoNamed starts a harness task
func GoNamed(name string, f func()) {
	s := need("go")
	t := s.newTask(name, f)
	t.harness = true
	s.ready(t)
}

// OwnStream gives the current task and those it will start a random stream of their own.
func OwnStream(seed uint64) *Stream {
	r := &Stream{}
	r.seed(seed)
	s := need("stream")
	r.seeded = s.seeded
	s.curT.rnd = r
	return r
}

// Splits returns the permutations drawn from the first task's stream.
func (s *Sim) Splits() [][]int { return s.rnd.Splits }

// Yield gives up the processor voluntarily (harness use).
func Yield() {
	s := need("yield")
	if s.killing {
		panic(killed)
	}
	if len(s.runq) == 0 {
		if len(s.timers) > 0 {
			s.fireTimer()
		}
		return
	}
	me := s.curT
	s.ready(me)
	next := s.pickNext()
	if next == me {
		return
	}
	s.handoff(me, next)
}

func need(what string) *Sim {
	if cur == nil || cur.curT == nil {
		panic("rt: " + what + " outside of a simulation")
	}
	if cur.killing {
		panic(killed)
	}
	return cur
}

// Cur returns the running simulation
func Cur() *Sim { return cur }

// Run executes main as the first task until it returns (the process then ends, killing the other
// tasks, unless drain is set: then the remaining tasks keep running until none can).
// It returns the names and wait reasons of the non-harness tasks that never end.
func (s *Sim) Run(main func(), drain bool) (leaked []string) {
	if cur != nil {
		panic("rt: nested simulation")
	}
	cur = s
	armAt, budget = 0, 0
	s.nextPreempt = 0
	s.planPreempt()
	mainDone := false
	root := s.newTask("main", func() {
		main()
		mainDone = true
	})
	root.harness = true
	s.curT = root
	s.arm()
	last := -1
	for {
		t := s.curT
		if t.id != last {
			s.Stats.Switches++
			s.now += s.Cfg.SwitchCost + int64(s.D()-s.lastD)*s.Cfg.StepCost
			s.lastD = s.D()
			s.mix(uint64(t.id) + 1)
			last = t.id
		}
		_, alive := t.next()
		if s.killing {
			break
		}
		if alive {
			continue // curT was set by handoff
		}
		// the task ended
		s.Trace("task %s ended", t.name)
		if mainDone && !drain {
			s.ended = true
			s.Outcome = Outcome{Kind: "finished"}
			break
		}
		if mainDone && drain {
			s.Cfg.FairAfter, s.Cfg.FaultUntil = 0, 0 // drain fairly
			if len(s.runq) == 0 {
				s.ended = true
				s.Outcome = Outcome{Kind: "finished"}
				break
			}
		}
		s.curT = nil
		stop := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if r != any(killed) {
						panic(r)
					}
					stop = true
				}
			}()
			s.curT = s.pickNext()
		}()
		if stop {
			break
		}
	}
	if mainDone && drain && (s.Outcome.Kind == "deadlock" || (s.Outcome.Kind == "stuck" && len(s.runq) == 0)) {
		s.Outcome = Outcome{Kind: "finished"}
	}
	if s.Outcome.Kind == "finished" || s.Outcome.Kind == "deadlock" {
		for _, t := range s.tasks {
			if t.state != tDone && !t.harness {
				leaked = append(leaked, t.name+" ("+t.why+")")
			}
		}
	}
	s.kill()
	s.Stats.Steps = s.endD
	s.Stats.SimTime = s.now
	for _, t := range s.tasks {
		if t.state != tDone {
			s.curT = t
			t.stop()
		}
	}
	s.curT = nil
	cur = nil
	budget = 1 << 62
	armAt = 0
	s.mix(s.Stats.Steps)
	return leaked
}

// Probe counts that a rare condition was reached.
func Probe(name string) {
	if cur != nil {
		cur.Stats.Probes[name]++
	}
}

// Protect runs f and returns the value of a panic of the program under test (nil if none).
// Simulated kills pass through.
func Protect(f func()) (p any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if r == any(killed) {
				panic(r)
			}
			p = r
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

// ---- PRNG (splitmix64 / xorshift) ----

type prng struct{ x uint64 }

func (p *prng) seed(s uint64) { p.x = s*0x9E3779B97F4A7C15 + 0x1234567 }
func (p *prng) next() uint64 {
	p.x += 0x9E3779B97F4A7C15
	z := p.x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (p *prng) float() float64 { return float64(p.next()>>11) / (1 << 53) }
func (p *prng) intn(n int) int { return int(p.next() % uint64(n)) }
func (p *prng) geometric(q float64) uint64 {
	if q <= 0 {
		return 1 << 40
	}
	// number of failures before a success, by inversion
	u := p.float()
	k := uint64(0)
	// cheap: ln(1-u)/ln(1-q)
	k = uint64(ln1m(u) / ln1m(q))
	return k
}
