//go:build go1.23

// The worlds: workloads that drive the instrumented code under the simulator, and the oracles.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/davidkleiven/goselect/zzverif/rt"
	"github.com/spf13/cobra"
)

// Rng is the generator of workloads (independent of the program's stream and of the scheduler's).
type Rng struct{ x uint64 }

func newRng(seed uint64) *Rng { return &Rng{seed*0xD1342543DE82EF95 + 0x9E3779B97F4A7C15} }

func (r *Rng) next() uint64 {
	r.x += 0x9E3779B97F4A7C15
	z := r.x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rng) n(n int) int                 { return int(r.next() % uint64(n)) }
func (r *Rng) in(lo, hi int) int           { return lo + r.n(hi-lo+1) }
func (r *Rng) f() float64                  { return float64(r.next()>>11) / (1 << 53) }
func (r *Rng) p(p float64) bool            { return r.f() < p }
func (r *Rng) norm() float64               { return math.Sqrt(-2*math.Log(1-r.f())) * math.Cos(2*math.Pi*r.f()) }
func (r *Rng) rangef(a, b float64) float64 { return a + (b-a)*r.f() }

func pick[T any](r *Rng, xs ...T) T { return xs[r.n(len(xs))] }

// RunFile is a run: enough to repeat it exactly.
type RunFile struct {
	Property  string          `json:"property"`
	World     string          `json:"world"`
	Seed      uint64          `json:"seed"`
	Cfg       rt.Config       `json:"config"`
	Params    json.RawMessage `json:"params"`
	Decisions []rt.Decision   `json:"decisions"`
	Class     string          `json:"class,omitempty"`
	Message   string          `json:"message,omitempty"`
	Hash      string          `json:"hash,omitempty"`
	Trace     []string        `json:"trace,omitempty"`
}

// Ctx is one run in progress.
type Ctx struct {
	Prop   string
	Cfg    rt.Config
	Decs   []rt.Decision
	Replay bool
	Trace  bool

	Class, Msg string
	known      []string // known findings met
	Stats      rt.Stats
	Recorded   []rt.Decision
	TraceLines []string
	used       bool
	extraHash  uint64
	share      float64 // of the limit on steps
}

// Failf records the first violation of the run.
func (c *Ctx) Failf(class, f string, a ...any) {
	if c.Class == "" {
		c.Class, c.Msg = class, fmt.Sprintf(f, a...)
	}
}

// Failed tells whether a violation was found
func (c *Ctx) Failed() bool { return c.Class != "" }

// For tells whether the run checks one of the properties.
func (c *Ctx) For(props ...string) bool {
	for _, p := range props {
		if p == c.Prop {
			return true
		}
	}
	return false
}

func resetAll() {
	rt.ResetInits()
	flag.CommandLine = flag.NewFlagSet("prog", flag.ContinueOnError)
	for _, f := range resets {
		f()
	}
}

// Sim makes the run's simulation: the one whose schedule and faults are explored.
func (c *Ctx) Sim() *rt.Sim {
	if c.used {
		panic("harness: second explored simulation in a run")
	}
	c.used = true
	resetAll()
	s := rt.New(c.Cfg, c.Decs, c.Replay)
	s.Tracing = c.Trace
	return s
}

// Go runs it and keeps its statistics. Outcomes other than those allowed are violations.
func (c *Ctx) Go(s *rt.Sim, main func(), drain bool, allowed ...string) (leaked []string) {
	leaked = s.Run(main, drain)
	c.Stats = s.Stats
	c.share = math.Max(c.share, float64(s.Stats.Steps)/float64(s.Cfg.StepLimit))
	c.Recorded = s.Recorded
	c.TraceLines = append(c.TraceLines, s.TraceLines()...)
	c.outcome(s, allowed...)
	return leaked
}

// together runs harness tasks and waits until all have ended.
func together(name string, fs ...func()) {
	var wg rt.WaitGroup
	wg.Add(len(fs))
	for i, f := range fs {
		f := f
		rt.GoNamed(fmt.Sprintf("%s%d", name, i), func() {
			f()
			wg.Done()
		})
	}
	wg.Wait()
}

func (c *Ctx) outcome(s *rt.Sim, allowed ...string) {
	k := s.Outcome.Kind
	if k == "finished" {
		return
	}
	for _, a := range allowed {
		if a == k {
			return
		}
	}
	switch k {
	case "panic":
		c.Failf("panic", "task %s panics: %s\n%s", s.Outcome.Task, s.Outcome.Msg, trimStack(s.Outcome.Stack))
	case "deadlock":
		c.Failf("deadlock", "no task can continue: %s", s.Outcome.Msg)
	case "stuck":
		c.Failf("stuck", "no progress: %s", s.Outcome.Msg)
	case "failed":
		i := strings.Index(s.Outcome.Msg, ": ")
		c.Failf(s.Outcome.Msg[:i], "%s", s.Outcome.Msg[i+2:])
	default:
		c.Failf("outcome", "the run ended with %s %s (code %d)", k, s.Outcome.Msg, s.Outcome.Code)
	}
}

// Plain runs main in a second simulation with the default schedule and no faults.
func (c *Ctx) Plain(randSeed uint64, mode string, disk map[string][]byte, main func(), setup ...func(*rt.Sim)) *rt.Sim {
	resetAll()
	cfg := rt.Config{RandSeed: randSeed, RandMode: mode, FairAfter: 1, StepLimit: 200 << 20}
	s := rt.New(cfg, nil, true)
	s.Tracing = c.Trace
	for p, b := range disk {
		s.Disk.Put(p, b)
	}
	for _, f := range setup {
		f(s)
	}
	s.Run(main, false)
	c.share = math.Max(c.share, float64(s.Stats.Steps)/float64(s.Cfg.StepLimit))
	if c.Trace {
		c.TraceLines = append(c.TraceLines, "--- second simulation ---")
		c.TraceLines = append(c.TraceLines, s.TraceLines()...)
	}
	return s
}

func trimStack(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t") || strings.Contains(l, "zzverif/rt") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "iter.") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		out = append(out, l)
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, " < ")
}

type world struct {
	name   string
	gen    func(g *Rng, prop string) (rt.Config, any)
	run    func(c *Ctx, raw json.RawMessage)
	shrink func(raw json.RawMessage) []json.RawMessage
}

var worlds = map[string]*world{}

// weighted worlds per property
type ww struct {
	name string
	w    int
}

var byProp = map[string][]ww{}

func register[P any](name string, props map[string]int, gen func(g *Rng, prop string) (rt.Config, *P), run func(c *Ctx, p *P), shrink func(p P) []P) {
	worlds[name] = &world{
		name: name,
		gen:  func(g *Rng, prop string) (rt.Config, any) { return gen2(gen, g, prop) },
		run: func(c *Ctx, raw json.RawMessage) {
			var p P
			if err := json.Unmarshal(raw, &p); err != nil {
				panic("harness: " + err.Error())
			}
			run(c, &p)
		},
		shrink: func(raw json.RawMessage) []json.RawMessage {
			if shrink == nil {
				return nil
			}
			var p P
			if err := json.Unmarshal(raw, &p); err != nil {
				panic("harness: " + err.Error())
			}
			var out []json.RawMessage
			for _, q := range shrink(p) {
				b, err := json.Marshal(q)
				if err == nil {
					out = append(out, b)
				}
			}
			return out
		},
	}
	for p, w := range props {
		byProp[p] = append(byProp[p], ww{name, w})
	}
}

func gen2[P any](gen func(g *Rng, prop string) (rt.Config, *P), g *Rng, prop string) (rt.Config, any) {
	c, p := gen(g, prop)
	return c, p
}

// schedule draws a scheduling configuration.
func schedule(g *Rng, fairAfter uint64) rt.Config {
	c := rt.Config{
		Seed:     g.next(),
		RandSeed: g.next() >> 1,
		Strategy: pick(g, rt.StratWalk, rt.StratWalk, rt.StratPCT, rt.StratPCT, rt.StratStall, rt.StratFIFO, rt.StratLIFO),
		RandMode: "uniform",
		Unfair:   pick(g, 3, 30, 300, 2000),
		PreemptP: pick(g, 0, 1e-4, 1e-3, 3e-3, 0.01, 0.05, 0.3),
		Quantum:  pick[uint64](g, 200, 5000, 200000),
		TimerP:   pick(g, 0, 1e-4, 1e-3, 0.01, 0.1),
	}
	c.FairAfter = fairAfter
	c.StepLimit = fairAfter + 40<<20
	return c
}

// runOne executes a run.
func runOne(rf *RunFile, replay, trace bool) *Ctx {
	w := worlds[rf.World]
	if w == nil {
		panic("harness: unknown world " + rf.World)
	}
	c := &Ctx{Prop: rf.Property, Cfg: rf.Cfg, Decs: rf.Decisions, Replay: replay, Trace: trace}
	w.run(c, rf.Params)
	return c
}

func (c *Ctx) hash() string {
	h := c.Stats.Hash
	for _, b := range []byte(c.Class) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	h = (h ^ c.extraHash) * 1099511628211
	return fmt.Sprintf("%016x", h)
}

// generate makes the run of a seed.
func generate(prop string, seed uint64) *RunFile {
	ws := byProp[prop]
	if len(ws) == 0 {
		panic("harness: no world for " + prop)
	}
	g := newRng(seed ^ hashString(prop))
	total := 0
	sort.Slice(ws, func(i, j int) bool { return ws[i].name < ws[j].name })
	for _, w := range ws {
		total += w.w
	}
	k := g.n(total)
	name := ""
	for _, w := range ws {
		if k < w.w {
			name = w.name
			break
		}
		k -= w.w
	}
	cfg, p := worlds[name].gen(g, prop)
	raw, err := json.Marshal(p)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return &RunFile{Property: prop, World: name, Seed: seed, Cfg: cfg, Params: raw}
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Report is what an exploring process found.
type Report struct {
	Runs     int               `json:"runs"`
	Replays  int               `json:"replays"` // runs repeated from their recorded decisions
	Mismatch []string          `json:"mismatch"`
	Steps    uint64            `json:"steps"`
	Switches uint64            `json:"switches"`
	Preempts uint64            `json:"preempts"`
	Timers   uint64            `json:"timers"`
	SimNS    float64           `json:"sim_ns"`
	Tasks    uint64            `json:"tasks"`
	Faults   map[string]int    `json:"faults"`
	Probes   map[string]int    `json:"probes"`
	Worlds   map[string]int    `json:"worlds"`
	Strategy map[string]int    `json:"strategies"`
	Hashes   []string          `json:"hashes"`
	Trivial  int               `json:"trivial"` // runs without any non-default decision or random number
	Known    map[string]int    `json:"known"`
	KnownEx  map[string]string `json:"known_example"`
	Fails    []*RunFile        `json:"fails"`
	Samples  []*RunFile        `json:"samples"`
	Seconds  float64           `json:"seconds"`
	Slowest  float64           `json:"slowest"`
	SlowSeed uint64            `json:"slow_seed"`
	Share    float64           `json:"share"` // of the limit on steps taken by the longest run
	LongSeed uint64            `json:"long_seed"`
}

var current string // run in progress, for the watchdog

func main() {
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	start := fs.Uint64("start", 0, "")
	stride := fs.Uint64("stride", 1, "")
	seconds := fs.Float64("seconds", 10, "")
	max := fs.Int("max", 1<<30, "")
	out := fs.String("out", "", "")
	in := fs.String("in", "", "")
	all := fs.Bool("replayall", false, "")
	stop := fs.String("stop", "", "")
	fs.Parse(os.Args[2:])
	os.Args = []string{"prog"}
	cobra.OnInitialize(rt.RunInits)
	switch mode {
	case "explore":
		rep := explore(*prop, *base, *start, *stride, *seconds, *max, *stop, *all)
		writeJSON(*out, rep)
	case "minimise":
		var rf RunFile
		readJSON(*in, &rf)
		watchdog(600)
		minimise(&rf, *seconds)
		writeJSON(*out, &rf)
	case "replay":
		var rf RunFile
		readJSON(*in, &rf)
		watchdog(600)
		c := runOne(&rf, true, true)
		rf.Class, rf.Message, rf.Hash, rf.Trace = c.Class, c.Msg, c.hash(), c.TraceLines
		if *out != "" {
			writeJSON(*out, &rf)
		}
		for _, l := range rf.Trace {
			fmt.Println(l)
		}
		fmt.Printf("result: %q %s hash %s\n", c.Class, c.Msg, rf.Hash)
	case "hashes": // determinism test: one line per seed
		for i := 0; i < *max; i++ {
			rf := generate(*prop, runSeed(*base, *start+uint64(i)**stride))
			c := runOne(rf, false, false)
			fmt.Printf("%d %s %s %d %d\n", rf.Seed, rf.World, c.hash(), c.Stats.Steps, len(c.Recorded))
		}
	case "verify": // a seed and its replay, traced to OUT.a and OUT.b
		rf := generate(*prop, *start)
		c := runOne(rf, false, true)
		rf.Decisions = c.Recorded
		c2 := runOne(rf, true, true)
		os.WriteFile(*out+".a", []byte(strings.Join(c.TraceLines, "\n")+"\n"), 0644)
		os.WriteFile(*out+".b", []byte(strings.Join(c2.TraceLines, "\n")+"\n"), 0644)
		fmt.Println(c.hash(), c2.hash())
		for i := range c.Recorded {
			if i >= len(c2.Recorded) || c.Recorded[i] != c2.Recorded[i] {
				fmt.Println(i, len(c.Recorded), c.Recorded[i-2:i+8], "|", c2.Recorded[i-2:])
				break
			}
		}
	case "gen": // the parameters of a run
		b, _ := json.Marshal(generate(*prop, *start))
		fmt.Println(string(b))
	case "one":
		rf := generate(*prop, *start)
		watchdog(600)
		c := runOne(rf, false, true)
		for _, l := range c.TraceLines {
			fmt.Println(l)
		}
		b, _ := json.Marshal(rf)
		fmt.Println(string(b))
		fmt.Printf("result: %q %s steps %d hash %s\n", c.Class, c.Msg, c.Stats.Steps, c.hash())
	default:
		fmt.Fprintln(os.Stderr, "unknown mode")
		os.Exit(2)
	}
}

func runSeed(base, i uint64) uint64 { return base*1000000000 + i }

func watchdog(sec int) {
	go func() {
		time.Sleep(time.Duration(sec) * time.Second)
		fmt.Fprintln(os.Stderr, "watchdog: run did not end:", current)
		os.Exit(3)
	}()
}

func explore(prop string, base, start, stride uint64, seconds float64, max int, stop string, all bool) *Report {
	rep := &Report{Faults: map[string]int{}, Probes: map[string]int{}, Worlds: map[string]int{}, Strategy: map[string]int{}, Known: map[string]int{}, KnownEx: map[string]string{}}
	t0 := time.Now()
	beat := make(chan bool, 1)
	go func() {
		for {
			select {
			case <-beat:
			case <-time.After(200 * time.Second):
				fmt.Fprintln(os.Stderr, "watchdog: run did not end:", current)
				os.Exit(3)
			}
		}
	}()
	hashes := map[string]bool{}
	for i := uint64(0); time.Since(t0).Seconds() < seconds && rep.Runs < max; i++ {
		select {
		case beat <- true:
		default:
		}
		if stop != "" && i%8 == 7 {
			if _, err := os.Stat(stop); err == nil {
				break
			}
		}
		seed := runSeed(base, start+i*stride)
		rf := generate(prop, seed)
		current = fmt.Sprintf("%s %s %d", prop, rf.World, seed)
		t1 := time.Now()
		c := runOne(rf, false, false)
		if d := time.Since(t1).Seconds(); d > rep.Slowest {
			rep.Slowest, rep.SlowSeed = d, seed
		}
		if c.share > rep.Share {
			rep.Share, rep.LongSeed = c.share, seed
		}
		rep.Runs++
		rep.Steps += c.Stats.Steps
		rep.Switches += c.Stats.Switches
		rep.Preempts += c.Stats.Preempts
		rep.Timers += c.Stats.TimerFire
		rep.SimNS += float64(c.Stats.SimTime)
		rep.Tasks += uint64(c.Stats.Tasks)
		for k, v := range c.Stats.Faults {
			rep.Faults[k] += v
		}
		for k, v := range c.Stats.Probes {
			rep.Probes[k] += v
		}
		rep.Worlds[rf.World]++
		rep.Strategy[rf.Cfg.Strategy]++
		h := c.hash()
		if len(c.Recorded) == 0 && c.Stats.Draws == 0 {
			rep.Trivial++
		} else {
			hashes[h] = true
		}
		for _, k := range c.known {
			rep.Known[k]++
			if rep.KnownEx[k] == "" {
				rep.KnownEx[k] = fmt.Sprintf("seed %d", seed)
			}
		}
		if i < 3 || i%64 == 0 || all {
			// the run repeated from its recorded decisions must be the same run
			rf2 := *rf
			rf2.Decisions = c.Recorded
			c2 := runOne(&rf2, true, false)
			rep.Replays++
			if c2.hash() != h || c2.Stats.Steps != c.Stats.Steps {
				rep.Mismatch = append(rep.Mismatch, fmt.Sprintf("%s seed %d: %s/%d steps against %s/%d steps on replay", rf.World, seed, h, c.Stats.Steps, c2.hash(), c2.Stats.Steps))
			}
		}
		if len(rep.Samples) < 2 && len(c.Recorded) > 0 && c.Class == "" {
			rf2 := *rf
			rf2.Decisions = c.Recorded
			if len(rf2.Decisions) > 20 {
				rf2.Decisions = rf2.Decisions[:20]
			}
			rf2.Hash = h
			rep.Samples = append(rep.Samples, &rf2)
		}
		if c.Class != "" {
			rf.Decisions = c.Recorded
			rf.Class, rf.Message, rf.Hash = c.Class, c.Msg, h
			rep.Fails = append(rep.Fails, rf)
			if len(rep.Fails) >= 3 {
				if stop != "" {
					os.WriteFile(stop, nil, 0644)
				}
				break
			}
		}
	}
	for h := range hashes {
		rep.Hashes = append(rep.Hashes, h)
	}
	sort.Strings(rep.Hashes)
	rep.Seconds = time.Since(t0).Seconds()
	return rep
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(path, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func readJSON(path string, v any) {
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, v)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

// minimise shrinks the workload and the decisions while the same class of violation persists.
func minimise(rf *RunFile, seconds float64) {
	t0 := time.Now()
	left := func() bool { return time.Since(t0).Seconds() < seconds }
	try := func(cand *RunFile, replay bool) bool {
		c := runOne(cand, replay, false)
		if c.Class != rf.Class {
			return false
		}
		cp := *cand
		cp.Decisions = append([]rt.Decision{}, c.Recorded...)
		cp.Message, cp.Hash = c.Msg, c.hash()
		*rf = cp
		return true
	}
	dd := func() {
		// no decision at all, then ddmin
		if len(rf.Decisions) == 0 {
			return
		}
		c := *rf
		c.Decisions = nil
		if try(&c, true) {
			return
		}
		n := 2
		for left() && len(rf.Decisions) > 0 {
			size := (len(rf.Decisions) + n - 1) / n
			found := false
			for i := 0; i < len(rf.Decisions) && left(); i += size {
				c := *rf
				end := min(i+size, len(rf.Decisions))
				c.Decisions = append(append([]rt.Decision{}, rf.Decisions[:i]...), rf.Decisions[end:]...)
				if try(&c, true) {
					found = true
					i -= size
					if i < -size {
						i = -size
					}
				}
			}
			if size == 1 && !found {
				break
			}
			if !found {
				n = min(2*n, max(len(rf.Decisions), 1))
			} else {
				n = max(n-1, 2)
			}
		}
	}
	shrinkParams := func() {
		for progress := true; progress && left(); {
			progress = false
			for _, raw := range worlds[rf.World].shrink(rf.Params) {
				if !left() {
					break
				}
				c := *rf
				c.Params = raw
				ok := try(&c, true)
				for k := uint64(0); !ok && k < 25 && left(); k++ {
					// other schedules for the smaller workload
					c = *rf
					c.Params = raw
					c.Decisions = nil
					c.Cfg.Seed = rf.Cfg.Seed + k
					ok = try(&c, false)
				}
				if ok {
					progress = true
					break
				}
			}
		}
	}
	c := *rf
	try(&c, true)
	shrinkParams()
	dd()
	for i := 0; i < 3 && left(); i++ {
		n := len(rf.Decisions)
		shrinkParams()
		dd()
		if len(rf.Decisions) == n {
			break
		}
	}
	// final trace
	f := runOne(rf, true, true)
	rf.Class, rf.Message, rf.Hash = f.Class, f.Msg, f.hash()
	rf.Trace = f.TraceLines
	if len(rf.Trace) > 400 {
		rf.Trace = append(append(append([]string{}, rf.Trace[:200]...), "..."), rf.Trace[len(rf.Trace)-200:]...)
	}
}
