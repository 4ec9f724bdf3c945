// verifsim instruments the goselect tree, builds the simulated worlds around it and runs a check.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func die(f string, a ...any) {
	cleanup()
	fmt.Printf("ERROR "+f+"\n", a...)
	os.Exit(2)
}

var scratch string

func cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

func main() {
	if len(os.Args) < 2 {
		die("usage: verifsim check|build|instrument")
	}
	switch os.Args[1] {
	case "instrument":
		in, err := instrument(os.Args[2], os.Args[3], os.Environ())
		if err != nil {
			die("%v", err)
		}
		fmt.Println(in.module, in.resets, in.problems)
	case "build": // build SIMDIR REPO OUT SCRATCH: only the harness binary
		scratch = os.Args[5]
		h := build(os.Args[2], os.Args[3])
		b, err := os.ReadFile(h)
		if err == nil {
			err = os.WriteFile(os.Args[4], b, 0755)
		}
		if err != nil {
			die("%v", err)
		}
	case "check":
		check(os.Args[2:])
	default:
		die("unknown command %s", os.Args[1])
	}
}

func copyDir(src, dst string) error {
	if err := os.MkdirAll(dst, 0755); err != nil {
		return err
	}
	l, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	for _, e := range l {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dst, e.Name()), b, 0644); err != nil {
			return err
		}
	}
	return nil
}

// build makes the harness binary for the current tree of repo and returns its path.
func build(sim, repo string) string {
	src := filepath.Join(scratch, "src")
	if err := os.MkdirAll(src, 0755); err != nil {
		die("%v", err)
	}
	in, err := instrument(repo, src, os.Environ())
	if err != nil {
		die("%v", err)
	}
	if len(in.problems) > 0 {
		die("the tree uses what the simulator does not simulate: %s", strings.Join(in.problems, "; "))
	}
	zz := filepath.Join(src, verifDir)
	for _, d := range []string{"rt", "worlds"} {
		if err := copyDir(filepath.Join(sim, d), filepath.Join(zz, d)); err != nil {
			die("%v", err)
		}
	}
	if in.plots {
		// figures are stored on the simulated disk
		d := filepath.Join(zz, "plotio")
		if err := os.MkdirAll(d, 0755); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(filepath.Join(d, "plotio.go"), []byte(fmt.Sprintf(plotio, in.module+"/"+verifDir+"/rt")), 0644); err != nil {
			die("%v", err)
		}
	}
	if in.module != "github.com/davidkleiven/goselect" {
		die("module is %s", in.module)
	}
	var imports, calls strings.Builder
	resets := append([]string{}, in.resets...)
	for c := range cloned {
		p := in.module + "/" + verifDir + "/" + filepath.Base(c)
		if _, err := os.Stat(filepath.Join(zz, filepath.Base(c), "zzreset.go")); err == nil {
			resets = append([]string{p}, resets...)
		}
	}
	var mains strings.Builder
	for i, p := range resets {
		fmt.Fprintf(&imports, "\tp%d %q\n", i, p)
		fmt.Fprintf(&calls, "\tp%d.ZZReset,\n", i)
		if strings.Contains(p, "/"+verifDir+"/mains/") {
			fmt.Fprintf(&mains, "\t%q: p%d.Main,\n", filepath.Base(p), i)
		}
	}
	gen := fmt.Sprintf("//go:build go1.23\n\npackage main\n\nimport (\n%s)\n\nvar resets = []func(){\n%s}\n\nvar mains = map[string]func(){\n%s}\n", imports.String(), calls.String(), mains.String())
	if err := os.WriteFile(filepath.Join(zz, "worlds", "zzresets.go"), []byte(gen), 0644); err != nil {
		die("%v", err)
	}
	out := filepath.Join(scratch, "harness")
	cmd := exec.Command("go", "build", "-o", out, "./"+verifDir+"/worlds")
	cmd.Dir = src
	if b, err := cmd.CombinedOutput(); err != nil {
		die("the simulated program does not build: %v\n%s", err, b)
	}
	return out
}

// plotio is what (*plot.Plot).Save does, on the simulated disk.
const plotio = `//go:build go1.21

package plotio

import (
	"path/filepath"
	"strings"

	zzrt %q
	"gonum.org/v1/plot"
	"gonum.org/v1/plot/vg"
)

// Bind is the method value p.Save
func Bind(p *plot.Plot) func(w, h vg.Length, file string) error {
	return func(w, h vg.Length, file string) error { return Save(p, w, h, file) }
}

// Save is the method Save
func Save(p *plot.Plot, w, h vg.Length, file string) (err error) {
	f, err := zzrt.Os_Create(file)
	if err != nil {
		return err
	}
	defer func() {
		e := f.Close()
		if err == nil {
			err = e
		}
	}()
	c, err := p.WriterTo(w, h, strings.TrimPrefix(strings.ToLower(filepath.Ext(file)), "."))
	if err != nil {
		return err
	}
	_, err = c.WriteTo(f)
	return err
}
`

// report is what an exploring process wrote.
type report struct {
	Runs     int               `json:"runs"`
	Replays  int               `json:"replays"`
	Mismatch []string          `json:"mismatch"`
	Steps    uint64            `json:"steps"`
	Switches uint64            `json:"switches"`
	Preempts uint64            `json:"preempts"`
	Timers   uint64            `json:"timers"`
	SimNS    float64           `json:"sim_ns"`
	Tasks    uint64            `json:"tasks"`
	Faults   map[string]int    `json:"faults"`
	Probes   map[string]int    `json:"probes"`
	Worlds   map[string]int    `json:"worlds"`
	Strategy map[string]int    `json:"strategies"`
	Hashes   []string          `json:"hashes"`
	Trivial  int               `json:"trivial"`
	Known    map[string]int    `json:"known"`
	KnownEx  map[string]string `json:"known_example"`
	Fails    []json.RawMessage `json:"fails"`
	Samples  []json.RawMessage `json:"samples"`
	Seconds  float64           `json:"seconds"`
	Slowest  float64           `json:"slowest"`
	SlowSeed uint64            `json:"slow_seed"`
	Share    float64           `json:"share"`
	LongSeed uint64            `json:"long_seed"`
}

type failure struct {
	World     string            `json:"world"`
	Seed      uint64            `json:"seed"`
	Decisions []json.RawMessage `json:"decisions"`
	Class     string            `json:"class"`
	Message   string            `json:"message"`
	Hash      string            `json:"hash"`
}

func addAll(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func check(args []string) {
	t0 := time.Now()
	f := flag.NewFlagSet("check", flag.ExitOnError)
	prop := f.String("prop", "", "property")
	tier := f.String("tier", "quick", "quick or thorough")
	repo := f.String("repo", "/repo", "tree to check")
	verif := f.String("verif", "/verif", "verification directory")
	sim := f.String("sim", "/verif/sim", "simulator sources")
	seconds := f.Float64("seconds", 0, "exploration time")
	procs := f.Int("procs", 8, "exploring processes")
	seed := f.Uint64("seed", 1, "")
	scr := f.String("scratch", "", "scratch directory (removed afterwards)")
	f.Parse(args)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			die("VERIF_SEED=%s", s)
		}
		*seed = uint64(v)
	}
	if *seconds == 0 {
		*seconds = 75
		if *tier == "thorough" {
			*seconds = 600
		}
	}
	scratch = *scr
	if scratch == "" {
		d, err := os.MkdirTemp("", "verifsim")
		if err != nil {
			die("%v", err)
		}
		scratch = d
	}
	h := build(*sim, *repo)
	builtIn := time.Since(t0).Seconds()

	// a process per part of the seeds
	type proc struct {
		cmd *exec.Cmd
		out string
		err strings.Builder
	}
	var ps []*proc
	stop := filepath.Join(scratch, "stop")
	for i := 0; i < *procs; i++ {
		p := &proc{out: filepath.Join(scratch, fmt.Sprintf("rep%d.json", i))}
		p.cmd = exec.Command(h, "explore", "-prop", *prop, "-base", fmt.Sprint(*seed%1000000), "-start", fmt.Sprint(i), "-stride", fmt.Sprint(*procs), "-seconds", fmt.Sprint(*seconds), "-out", p.out, "-stop", stop)
		p.cmd.Dir = scratch
		p.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=300")
		p.cmd.Stderr = &p.err
		if err := p.cmd.Start(); err != nil {
			die("%v", err)
		}
		ps = append(ps, p)
	}
	tot := report{Faults: map[string]int{}, Probes: map[string]int{}, Worlds: map[string]int{}, Strategy: map[string]int{}, Known: map[string]int{}, KnownEx: map[string]string{}}
	hashes := map[string]bool{}
	var failed []string
	for i, p := range ps {
		if err := p.cmd.Wait(); err != nil {
			e := p.err.String()
			if len(e) > 4000 {
				e = e[:4000]
			}
			failed = append(failed, fmt.Sprintf("exploring process %d: %v\n%s", i, err, e))
			continue
		}
		var r report
		b, err := os.ReadFile(p.out)
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			die("%v", err)
		}
		tot.Runs += r.Runs
		tot.Replays += r.Replays
		tot.Mismatch = append(tot.Mismatch, r.Mismatch...)
		tot.Steps += r.Steps
		tot.Switches += r.Switches
		tot.Preempts += r.Preempts
		tot.Timers += r.Timers
		tot.SimNS += r.SimNS
		tot.Tasks += r.Tasks
		addAll(tot.Faults, r.Faults)
		addAll(tot.Probes, r.Probes)
		addAll(tot.Worlds, r.Worlds)
		addAll(tot.Strategy, r.Strategy)
		addAll(tot.Known, r.Known)
		for k, v := range r.KnownEx {
			tot.KnownEx[k] = v
		}
		for _, x := range r.Hashes {
			hashes[x] = true
		}
		tot.Trivial += r.Trivial
		tot.Fails = append(tot.Fails, r.Fails...)
		tot.Samples = append(tot.Samples, r.Samples...)
		if r.Slowest > tot.Slowest {
			tot.Slowest, tot.SlowSeed = r.Slowest, r.SlowSeed
		}
		if r.Share > tot.Share {
			tot.Share, tot.LongSeed = r.Share, r.LongSeed
		}
		if r.Seconds > tot.Seconds {
			tot.Seconds = r.Seconds
		}
	}
	if len(tot.Mismatch) > 0 {
		die("the simulation is not deterministic:\n%s", strings.Join(tot.Mismatch, "\n"))
	}
	if len(failed) > 0 && len(tot.Fails) == 0 {
		die("%s", strings.Join(failed, "\n"))
	}
	if tot.Runs == 0 {
		die("no run completed")
	}

	viol := 0
	var violLine string
	if len(tot.Fails) > 0 {
		sort.SliceStable(tot.Fails, func(i, j int) bool {
			var a, b failure
			json.Unmarshal(tot.Fails[i], &a)
			json.Unmarshal(tot.Fails[j], &b)
			if len(a.Decisions) != len(b.Decisions) {
				return len(a.Decisions) < len(b.Decisions)
			}
			return a.Seed < b.Seed
		})
		var v failure
		json.Unmarshal(tot.Fails[0], &v)
		in := filepath.Join(scratch, "fail.json")
		min := filepath.Join(scratch, "min.json")
		rep := filepath.Join(scratch, "rep.json")
		os.WriteFile(in, tot.Fails[0], 0644)
		cmd := exec.Command(h, "minimise", "-in", in, "-out", min, "-seconds", "40")
		cmd.Dir = scratch
		if b, err := cmd.CombinedOutput(); err != nil {
			fmt.Printf("note: minimisation failed (%v), the replay is the run as found\n%s\n", err, tail(b))
			os.WriteFile(min, tot.Fails[0], 0644)
		}
		var m, r failure
		mb, _ := os.ReadFile(min)
		json.Unmarshal(mb, &m)
		cmd = exec.Command(h, "replay", "-in", min, "-out", rep)
		cmd.Dir = scratch
		if b, err := cmd.CombinedOutput(); err != nil {
			die("replay of the violation failed: %v\n%s", err, tail(b))
		}
		rb, _ := os.ReadFile(rep)
		json.Unmarshal(rb, &r)
		if r.Class != m.Class || r.Hash != m.Hash {
			die("the violation does not replay: %s %s, then %s %s", m.Class, m.Hash, r.Class, r.Hash)
		}
		dir := filepath.Join(*verif, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", *prop, m.Class, v.Seed))
		if err := os.WriteFile(path, rb, 0644); err != nil {
			die("%v", err)
		}
		viol = len(tot.Fails)
		fmt.Printf("world %s seed %d class %s: %s\n", m.World, v.Seed, m.Class, m.Message)
		fmt.Printf("found with %d decisions, minimised to %d; replay with: bash %s/replay.sh %s\n", len(v.Decisions), len(m.Decisions), *sim, path)
		violLine = fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, path)
	}

	nontrivial := len(hashes)
	var samples []any
	for i, s := range tot.Samples {
		if i >= 3 {
			break
		}
		samples = append(samples, s)
	}
	if len(samples) == 0 && len(tot.Fails) > 0 {
		samples = append(samples, tot.Fails[0])
	}
	if len(samples) == 0 {
		samples = append(samples, fmt.Sprintf("%d runs, none with a non-default decision", tot.Runs))
	}
	hours := tot.Seconds / 3600
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         tot.Runs,
			"distinct_nontrivial": nontrivial,
			"rule": "one evaluation is one simulated run: the workload, the scheduler's choices, the timers, the program's random stream and the faults all follow from the run's seed. " +
				"A run is non-trivial when the seed made at least one non-default scheduling, timer or fault decision or drew a random number for the program; two runs are distinct when the hash over their sequence of task switches, channel, lock, timer and disk events, and result differs",
			"samples":                         samples,
			"runs_per_hour":                   float64(tot.Runs) / hours,
			"seeds_per_hour":                  float64(tot.Runs) / hours,
			"processes":                       *procs,
			"seed_range":                      fmt.Sprintf("%d000000000 + i, i striped over %d processes", *seed, *procs),
			"simulated_seconds":               tot.SimNS / 1e9,
			"decision_points":                 tot.Steps,
			"task_switches":                   tot.Switches,
			"forced_preemptions":              tot.Preempts,
			"timer_expiries":                  tot.Timers,
			"tasks_started":                   tot.Tasks,
			"faults_injected":                 tot.Faults,
			"rare_conditions_reached":         tot.Probes,
			"runs_per_world":                  tot.Worlds,
			"runs_per_strategy":               tot.Strategy,
			"runs_without_any_decision":       tot.Trivial,
			"runs_repeated_from_decisions":    tot.Replays,
			"repeats_that_differed":           len(tot.Mismatch),
			"slowest_run_s":                   tot.Slowest,
			"slowest_run_seed":                tot.SlowSeed,
			"longest_run_share_of_step_limit": tot.Share,
			"longest_run_seed":                tot.LongSeed,
			"build_s":                         builtIn,
			"real_components":                 "all Go code of /repo (featselect, cmd, main, cmdDepreciated) as in the working tree, rewritten only at goroutine, channel, lock, timer, random, file and console operations; container/list (instrumented copy); gonum, cobra and encoding packages unmodified",
			"stubbed_components":              "goroutine scheduler, channels, sync, time, math/rand top level, os and io/ioutil file operations, stdout/stderr of the code under test, process exit",
		},
		"assumptions": []string{
			"data races below the granularity of a statement (torn words, compiler or hardware reordering) are not simulated: memory is sequentially consistent and statements without shared reads are atomic",
			"third-party code (gonum, cobra, encoding/json) runs without interruption and is trusted",
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
	var ks []string
	for k := range tot.Known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs, e.g. %s)\n", *prop, k, tot.Known[k], tot.KnownEx[k])
	}
	fmt.Printf("%s %s: %d runs (%d distinct), %d decision points, %.0f simulated s, %d violations, build %.0f s, total %.0f s\n", *prop, *tier, tot.Runs, nontrivial, tot.Steps, tot.SimNS/1e9, viol, builtIn, time.Since(t0).Seconds())
	cleanup()
	if viol > 0 {
		fmt.Println(violLine)
		os.Exit(1)
	}
}

func tail(b []byte) []byte {
	if len(b) > 3000 {
		return b[len(b)-3000:]
	}
	return b
}
