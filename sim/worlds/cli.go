//go:build go1.23

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	fs "github.com/davidkleiven/goselect/featselect"
	"github.com/davidkleiven/goselect/zzverif/rt"
)

// CliP is a run of a command.
type CliP struct {
	Cmd     string  `json:"cmd"` // bnb, lars, cd, sasearch, nested
	Data    Data    `json:"data"`
	Target  int     `json:"target"`
	Prior   bool    `json:"prior"` // the output file exists
	Big     bool    `json:"big"`   // and is larger than the result
	Cutoff  float64 `json:"cutoff"`
	Sweeps  int     `json:"sweeps"`
	Num     int     `json:"num"`
	Cov     string  `json:"cov"`
	Lmin    float64 `json:"lmin"`
	Keep    float64 `json:"keep"`
	Restart int     `json:"restart"` // what survives a crash: 0 all, else the choice of a power cut
	Out     string  `json:"out"`
	Timed   bool    `json:"timed"` // time passes with the steps of the program
}

func init() {
	register("bnbcli", map[string]int{"C07": 10}, genCli, runBnbCli, shrinkCli)
	register("rescli", map[string]int{"C08": 10}, genCli, runResCli, shrinkCli)
}

const saveFaults = "create:eacces,create:enospc,create:emfile,write:enospc,write:eio,write:partial,sync:eio,close:eio,rename:eio,rename:eacces,remove:eacces,chmod:eperm,stat:eacces"
const saveCrashes = "create:crash,write:crash,write:crash-partial,sync:crash,close:crash,rename:crash,rename:crash-after,remove:crash,chmod:crash,trunc:crash"
const readFaults = "read:short,read:eio,open:eio,open:emfile"
const midFaults = "read:short,read:eio"

func genCli(g *Rng, prop string) (rt.Config, *CliP) {
	p := &CliP{Prior: g.p(0.5), Restart: g.n(4), Out: pick(g, "out.json", "/w/res/out.json")}
	p.Big = g.p(0.5)
	cfg := schedule(g, 16<<20)
	cfg.StepLimit = 160 << 20
	if prop == "C07" {
		p.Cmd = "bnb"
		p.Data = goodData(g, func(g *Rng) Data {
			d := genData(g, 3, 4)
			d.N = d.F + pick(g, 4, 5, 6, 8)
			d.Dup = false
			return d
		})
		if g.p(0.1) {
			p.Cutoff = pick(g, 0.5, 5)
		}
		cfg.TimerP = pick(g, 0, 0.0003, 0.002, 0.01, 0.05)
		cfg.PreemptP = pick(g, 0, 1e-4, 1e-3, 1e-2)
	} else {
		p.Cmd = pick(g, "lars", "lars", "cd", "cd", "sasearch", "nested", "nested")
		p.Data = goodData(g, func(g *Rng) Data {
			d := genData(g, 3, 5)
			d.N = 2*d.F + pick(g, 3, 5, 9)
			if g.p(0.06) {
				d.N = g.in(50, 150)
			}
			d.Dup = false
			return d
		})
		switch {
		case p.Cmd == "sasearch":
		case g.p(0.06) && p.Cmd != "cd": // more features than data points
			p.Data.F = g.in(4, 9)
			p.Data.N = g.in(3, p.Data.F)
			p.Data.Bias, p.Data.Binary = false, false
		case g.p(0.04): // many features
			p.Data.F = g.in(6, 24)
			p.Data.N = 2*p.Data.F + pick(g, 3, 9)
		}
		for !p.Data.usable() {
			p.Data.Seed++
		}
		p.Data.Bias = p.Data.Bias && p.Cmd != "nested"
		p.Sweeps = pick(g, 1, 2, 5)
		p.Num = pick(g, 1, 3, 8, 12)
		p.Cov = pick(g, "empirical", "empirical", "identity")
		if p.Cmd == "cd" && g.p(0.02) {
			p.Cov = "threshold"
		}
		p.Lmin = pick(g, 1e-3, 1e-2, 1e-1)
		p.Keep = pick(g, 0.8, 0.8, 0.6, 0.9)
	}
	p.Target = g.in(-p.Data.F-1, p.Data.F)
	if prop == "C07" && g.p(0.25) {
		// time passes with the steps and scheduling is fair
		p.Timed = true
		p.Data = goodData(g, func(g *Rng) Data {
			d := genData(g, 7, 9)
			d.N = d.F + pick(g, 8, 12, 16)
			d.Corr, d.True = 0, min(d.True, 1)
			d.Noise = pick(g, 0.3, 1, 3)
			d.Dup = false
			return d
		})
		cfg.FairAfter = 1
		cfg.StepCost = int64(60e9) / int64(pick(g, 15000, 20000)) // steps per minute
		if g.p(0.5) {
			cfg.FaultP = pick(g, 0.1, 0.3, 0.7)
			cfg.Faults = saveFaults
			cfg.FaultUntil = 16 << 20
		}
	} else if g.p(0.85) {
		cfg.FaultP = pick(g, 0.02, 0.1, 0.3, 0.7)
		cfg.Faults = pick(g, midFaults, saveFaults, saveFaults, saveFaults+","+readFaults, saveCrashes, saveCrashes+","+saveFaults, "read:short", "write:partial,remove:eacces", "rename:eio,remove:eacces")
		if strings.Contains(cfg.Faults, "crash") {
			cfg.MaxCrash = 1
			cfg.CrashP = pick(g, 0, 0, 0.01)
		}
	}
	return cfg, p
}

// csvOf writes the data exactly, with the target in its column.
func (p *CliP) csvOf() []byte {
	rows, y := p.Data.make()
	cols := p.Data.F + 1
	t := p.target()
	var b strings.Builder
	for j := 0; j < cols; j++ {
		if j > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, "col%d", j)
	}
	b.WriteByte('\n')
	for i, r := range rows {
		k := 0
		for j := 0; j < cols; j++ {
			if j > 0 {
				b.WriteByte(',')
			}
			v := y[i]
			if j != t {
				v = r[k]
				k++
			}
			b.WriteString(strconv.FormatFloat(v, 'g', -1, 64))
		}
		b.WriteByte('\n')
	}
	return []byte(b.String())
}

func (p *CliP) target() int {
	if p.Target < 0 {
		return p.Target + p.Data.F + 1
	}
	return p.Target
}

func (p *CliP) outPath() string {
	if strings.HasPrefix(p.Out, "/") {
		return p.Out
	}
	return "/w/" + p.Out
}

func (p *CliP) prior() []byte {
	if !p.Prior {
		return nil
	}
	b := []byte(`{"maxItems":10,"items":[{"selected":[0],"totNumFeatures":2,"lower":0,"upper":0,"score":-3.5,"level":1,"coeff":[1.5]}]}`)
	if p.Big { // longer than what comes
		b = append(b[:len(b)-1], `,"note":"`...)
		b = append(b, bytes.Repeat([]byte("earlier "), 2500)...)
		b = append(b, `"}`...)
	}
	return b
}

func (p *CliP) args(seed uint64) (string, []string) {
	num := func(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }
	in, t := "/w/in.csv", strconv.Itoa(p.Target)
	switch p.Cmd {
	case "bnb":
		return "root", []string{"goselect", "bnb", "--csv", in, "--target", t, "--out", p.Out, "--cutoff", num(p.Cutoff)}
	case "lars":
		return "root", []string{"goselect", "lasso", "--csv", in, "--target", t, "--out", p.Out, "--lmin", num(p.Lmin)}
	case "cd":
		return "root", []string{"goselect", "lasso", "--csv", in, "--target", t, "--out", p.Out, "--lmin", num(p.Lmin), "--lmax", "1.5", "--num", strconv.Itoa(p.Num), "--type", "cd", "--cov", p.Cov, "--tol", "1e-9"}
	case "sasearch":
		return "root", []string{"goselect", "sasearch", "--csv", in, "--target", t, "--out", p.Out, "--sweeps", strconv.Itoa(p.Sweeps)}
	}
	return "goselect_nestedlasso", []string{"goselect-nestedlasso", "-csvfile", in, "-target", t, "-out", p.Out, "-lambMin", num(p.Lmin), "-keep", num(p.Keep)}
}

// process runs the command as a simulated process.
func (p *CliP) process() func() {
	name, args := p.args(0)
	main := mains[name]
	if main == nil {
		panic("harness: no command " + name)
	}
	return func() {
		old := os.Args
		os.Args = args
		defer func() { os.Args = old }()
		main()
	}
}

func (p *CliP) disk(s *rt.Sim) {
	s.Disk.Put("/w/in.csv", p.csvOf())
	if strings.Contains(p.Out, "/res/") {
		s.Disk.MakeDir("/w/res")
	}
	if b := p.prior(); b != nil {
		s.Disk.Put(p.outPath(), b)
	}
}

// saved watches the output file.
type saved struct {
	p      *CliP
	t      *table
	out    string
	prior  []byte
	seen   map[string]float64 // complete lists and their best scores
	best   float64
	times  []uint64 // of changes of the output file
	scores []float64
	outLen []int
	at     []int64 // simulated times
}

func newSaved(p *CliP, t *table) *saved {
	return &saved{p: p, t: t, out: p.outPath(), prior: p.prior(), seen: map[string]float64{}, best: math.Inf(-1)}
}

// complete checks that content is a complete list of genuine models; it returns the best score.
func (w *saved) complete(c *Ctx, content []byte, what string) (float64, bool) {
	if v, ok := w.seen[string(content)]; ok {
		return v, true
	}
	var l jsonList
	dec := json.NewDecoder(bytes.NewReader(content))
	err := dec.Decode(&l)
	if err == nil && len(bytes.TrimSpace(content[dec.InputOffset():])) > 0 {
		err = fmt.Errorf("text after the list")
	}
	if err == nil && (l.Items == nil || l.MaxItems == 0) {
		err = fmt.Errorf("not a highscore list")
	}
	if err != nil {
		c.Failf("incomplete", "%s: the output file holds %d bytes that are not a complete list (%v): %q", what, len(content), err, clip(string(content)))
		return 0, false
	}
	checkGenuine(c, w.t, &l, l.MaxItems, what)
	if c.Failed() {
		return 0, false
	}
	b := math.Inf(-1)
	for _, n := range l.Items {
		b = math.Max(b, n.Score)
	}
	w.seen[string(content)] = b
	return b, true
}

// watch makes the checks at every change of the disk.
func (w *saved) watch(c *Ctx, s *rt.Sim) {
	s.Disk.OnChange = func(path string) {
		if c.Failed() {
			return
		}
		if path == w.out {
			b, ok := s.Disk.Get(w.out)
			if !ok {
				if w.prior != nil || len(w.times) > 0 {
					c.Failf("lost", "the output file disappears")
				}
				return
			}
			v, ok := w.complete(c, b, "at a change of the file")
			if !ok {
				return
			}
			if v < w.best-1e-9 {
				c.Failf("worse", "a list with best score %v replaces one with %v", v, w.best)
				return
			}
			w.best = math.Max(w.best, v)
			w.times = append(w.times, s.D())
			w.at = append(w.at, s.SimNow())
			w.scores = append(w.scores, v)
			w.outLen = append(w.outLen, s.Stdout.Len())
		}
		w.power(c, s)
	}
}

// power checks what a power cut would leave.
func (w *saved) power(c *Ctx, s *rt.Sim) {
	for _, b := range s.Disk.PowerCut(w.out) {
		if b == nil {
			if w.prior != nil {
				c.Failf("power", "a power cut can remove the output file")
			}
			continue
		}
		if w.prior != nil && bytes.Equal(b, w.prior) {
			continue
		}
		w.complete(c, b, "after a power cut")
		if c.Failed() {
			return
		}
	}
}

var scoreLine = regexp.MustCompile(`Score: (-?[0-9.]+), Num\. checked: (\d+)`)

func ioFault(f rt.FaultEvent, ops ...string) bool {
	if f.Kind == "short" {
		return false
	}
	for _, o := range ops {
		if f.Op == o {
			return true
		}
	}
	return false
}

// reported tells whether the process says that something failed after the event.
func reported(s *rt.Sim, f rt.FaultEvent) bool {
	if s.Outcome.Kind == "panic" || (s.Outcome.Kind == "exit" && s.Outcome.Code != 0) || s.Stderr.Len() > f.Err {
		return true
	}
	o := strings.ToLower(s.Stdout.String()[min(f.Out, s.Stdout.Len()):])
	return strings.Contains(o, "error") || strings.Contains(o, "could not") || strings.Contains(o, "fail") || strings.Contains(o, "unable")
}

func readFailed(s *rt.Sim) bool {
	for _, f := range s.Disk.Log {
		if f.Path == "/w/in.csv" && f.Kind != "short" {
			return true
		}
	}
	return false
}

// attempts checks that every tick which is served leads to an attempt at a save, and that no
// long time passes without one. A fault tells of an attempt as much as a new output file does.
func (w *saved) attempts(c *Ctx, s *rt.Sim) {
	times, at := append([]uint64{}, w.times...), append([]int64{}, w.at...)
	for _, f := range s.Disk.Log {
		if f.Path != "/w/in.csv" {
			times, at = append(times, f.At), append(at, f.Now)
		}
	}
	sort.Slice(times, func(i, j int) bool { return times[i] < times[j] })
	sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
	for i, d := range s.Ticks {
		end, need := uint64(math.MaxUint64), 2
		if i+1 < len(s.Ticks) {
			end, need = s.Ticks[i+1], 1
		}
		n := 0
		for _, x := range times {
			if x > d && x <= end {
				n++
			}
		}
		if n < need {
			c.Failf("tick", "tick %d of %d is served, and %d attempts to save follow it", i+1, len(s.Ticks), n)
			return
		}
	}
	if w.p.Timed && s.Parallel > 0 {
		from := s.Parallel
		for _, x := range append(append([]int64{}, at...), s.SimNow()) {
			if x-from > 121e9 {
				c.Failf("gap", "no attempt to save between %v and %v of simulated time while the search runs under fair scheduling (attempts at %v)", time.Duration(from), time.Duration(x), at)
				return
			}
			from = x
		}
		if len(at) > 3 {
			c.probe("search of several minutes")
		}
	}
}

func runBnbCli(c *Ctx, p *CliP) {
	t := newTable(p.Data)
	w := newSaved(p, t)
	s := c.Sim()
	p.disk(s)
	w.watch(c, s)
	c.Go(s, p.process(), false, "exit", "panic", "crash")
	if c.Failed() {
		return
	}
	w.power(c, s)
	if c.Failed() {
		return
	}
	faults, crashed := 0, s.Outcome.Kind == "crash"
	var last *rt.FaultEvent
	for i, f := range s.Disk.Log {
		if f.Kind != "short" {
			faults++
			if ioFault(f, "create", "write", "sync", "close", "rename") && f.Path != "/w/in.csv" && !s.Disk.IsDir(f.Path) {
				last = &s.Disk.Log[i]
			}
		}
	}
	if s.Outcome.Kind == "panic" && !readFailed(s) {
		c.outcome(s)
		return
	}
	if len(s.Ticks) > 0 {
		c.probe("timer tick served")
	}
	final, exists := s.Disk.Get(w.out)
	okFinal := func(what string, b []byte, exists bool) {
		if !exists {
			c.Failf("final", "%s there is no output file", what)
			return
		}
		v, ok := w.complete(c, b, what)
		if !ok {
			return
		}
		if v > t.best+t.tol() || v < t.best-p.Cutoff-t.tol() {
			c.Failf("final", "%s the file's best score is %v; the optimum is %v (cutoff %v)", what, v, t.best, p.Cutoff)
		}
	}
	ended := s.Outcome.Kind == "finished" || s.Outcome.Kind == "exit"
	if ended && faults == 0 {
		if s.Outcome.Kind == "exit" && s.Outcome.Code != 0 {
			c.Failf("outcome", "exit code %d without any fault: %s", s.Outcome.Code, clip(s.Stderr.String()))
			return
		}
		okFinal("at the end", final, exists)
		if c.Failed() {
			return
		}
		w.attempts(c, s)
		if c.Failed() {
			return
		}
		// a save is as fresh as the progress printed before it
		text := s.Stdout.String()
		for i, n := range w.outLen {
			ms := scoreLine.FindAllStringSubmatch(text[:n], -1)
			if len(ms) == 0 {
				continue
			}
			m := ms[len(ms)-1]
			v, err := strconv.ParseFloat(m[1], 64)
			if k, _ := strconv.Atoi(m[2]); err == nil && k > 0 && w.scores[i] < v-1e-3 {
				c.Failf("stale", "save %d holds best score %v after progress told of %v", i+1, w.scores[i], v)
				return
			}
		}
	}
	if ended && faults > 0 && !readFailed(s) {
		w.attempts(c, s)
		if c.Failed() {
			return
		}
		lastSave := uint64(0)
		if n := len(w.times); n > 0 {
			lastSave = w.times[n-1]
		}
		if last != nil && last.At > lastSave {
			c.probe("failed final save")
			if !reported(s, *last) {
				c.Failf("silent", "the last save fails (%s at %s) and is not reported", last.Kind, last.Op)
				return
			}
		} else if s.Outcome.Kind == "finished" || s.Outcome.Code == 0 {
			okFinal("at the end, after faults,", final, exists)
			if c.Failed() {
				return
			}
		}
	}
	if crashed || p.Restart == 3 {
		// another process goes on with what survived
		files := s.Disk.Files()
		what := "killed process"
		if p.Restart > 0 {
			alts := s.Disk.PowerCut(w.out)
			b := alts[p.Restart%len(alts)]
			for f := range files {
				if f != "/w/in.csv" {
					delete(files, f)
				}
			}
			if b != nil {
				files[w.out] = b
			}
			what = "power cut"
		}
		c.probe("restart after " + what)
		w2 := newSaved(p, t)
		w2.prior = files[w.out]
		s2 := c.Plain(c.Cfg.RandSeed+1, "uniform", files, p.process(), func(s2 *rt.Sim) {
			s2.Disk.MakeDir("/w/res")
			w2.watch(c, s2)
		})
		if c.Failed() {
			return
		}
		if s2.Outcome.Kind != "finished" {
			c.Failf("restart", "the process after the %s ends with %s %s", what, s2.Outcome.Kind, s2.Outcome.Msg)
			return
		}
		b, ok := s2.Disk.Get(w.out)
		okFinal("after a restart", b, ok)
	}
}

// sameJSON compares two JSON texts, numbers within a tolerance.
func sameJSON(a, b []byte, tol float64) string {
	var x, y any
	if err := json.Unmarshal(a, &x); err != nil {
		return "not JSON: " + err.Error()
	}
	if err := json.Unmarshal(b, &y); err != nil {
		return "not JSON: " + err.Error()
	}
	var cmp func(path string, x, y any) string
	cmp = func(path string, x, y any) string {
		switch u := x.(type) {
		case map[string]any:
			v, ok := y.(map[string]any)
			if !ok || len(u) != len(v) {
				return path + " differs"
			}
			for _, e := range sortedKeys(u) {
				w, ok := v[e]
				if !ok {
					return path + "." + e + " is missing"
				}
				if d := cmp(path+"."+e, u[e], w); d != "" {
					return d
				}
			}
		case []any:
			v, ok := y.([]any)
			if !ok || len(u) != len(v) {
				return fmt.Sprintf("%s has another length", path)
			}
			for i := range u {
				if d := cmp(fmt.Sprintf("%s[%d]", path, i), u[i], v[i]); d != "" {
					return d
				}
			}
		case float64:
			v, ok := y.(float64)
			if !ok || math.Abs(u-v) > tol*(1+math.Max(math.Abs(u), math.Abs(v))) {
				return fmt.Sprintf("%s is %v, not %v", path, y, x)
			}
		default:
			if x != y {
				return fmt.Sprintf("%s is %v, not %v", path, y, x)
			}
		}
		return ""
	}
	return cmp("result", x, y)
}

func sortedKeys(m map[string]any) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	// insertion sort
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

// checkResult is the absolute oracle on a stored result.
func (p *CliP) checkResult(c *Ctx, b []byte) {
	rows, y := p.Data.make()
	if p.Cmd == "sasearch" {
		var r struct {
			Items []struct {
				Selection []int
				Coeff     []float64
				Score     float64
			}
		}
		if err := json.Unmarshal(b, &r); err != nil || len(r.Items) == 0 {
			c.Failf("content", "the file is not a highscore list: %v %q", err, clip(string(b)))
			return
		}
		t := newTable(p.Data)
		for _, it := range r.Items {
			var m uint64
			for _, v := range it.Selection {
				m |= 1 << uint(v)
			}
			want, ok := t.score[m]
			if !ok || math.Abs(want-it.Score) > t.tol() || !closeSlice(t.fits[m].coeff, it.Coeff, 1e-5) {
				c.Failf("content", "the file holds model %v with score %v and coefficients %v; it has %v and %v", it.Selection, it.Score, it.Coeff, want, t.fits[m].coeff)
				return
			}
		}
		return
	}
	var r struct {
		Dset           *fs.Dataset
		LassoLarsNodes []*fs.LassoLarsNode
		Aicc, Bic      []float64
		Paths          []nestedPath
	}
	if err := json.Unmarshal(b, &r); err != nil || r.Dset == nil || r.Dset.X == nil {
		c.Failf("content", "the file does not hold a path and its data: %v %q", err, clip(string(b)))
		return
	}
	var names []string
	for j := 0; j <= p.Data.F; j++ {
		names = append(names, fmt.Sprintf("col%d", j))
	}
	vals := make([][]float64, len(rows))
	for i := range rows {
		t := p.target()
		vals[i] = append(append(append([]float64{}, rows[i][:t]...), y[i]), rows[i][t:]...)
	}
	checkDataset(c, r.Dset, names, vals, p.target(), "the stored data set")
	if c.Failed() {
		return
	}
	if p.Cmd == "nested" {
		p.checkNested(c, rows, y, r.Paths)
		return
	}
	q := newProblem(rows, y)
	if p.Cmd == "lars" {
		q.checkLars(c, "the path", r.LassoLarsNodes, p.Lmin)
	} else if p.Cov != "threshold" {
		q.scale, q.unit = 1/float64(len(y)), p.Cov == "identity"
		q.checkModels(c, "the path", r.LassoLarsNodes, 1e-5)
	}
	if c.Failed() {
		return
	}
	// the path as the library computes it
	var want []*fs.LassoLarsNode
	nd := fs.NewNormalizedData(dense(rows), append([]float64{}, y...))
	if p.Cmd == "lars" {
		var est fs.MorsePenroseCD
		want = fs.LassoLars(nd, p.Lmin, &est)
	} else {
		var cov fs.CovMat = &fs.Empirical{}
		if p.Cov == "identity" {
			cov = &fs.Identity{}
		} else if p.Cov == "threshold" {
			cov = fs.NewSparseThreshold(nd.X)
		}
		lambs := fs.Logspace(p.Lmin, 1.5, p.Num)
		for i := len(lambs) - 1; i >= 0; i-- {
			co := fs.LassoCrdDesc(nd, lambs[i], cov, make([]float64, p.Data.F), 100000, 1e-9, &fs.PureLasso{})
			var sel []int
			var sc []float64
			for j, v := range co {
				if math.Abs(v) > 1e-16 {
					sel = append(sel, j)
					sc = append(sc, v)
				}
			}
			if len(sel) > 0 || len(want) > 0 {
				want = append(want, fs.NewLassoLarsNode(sc, lambs[i], sel))
			}
		}
		if len(want) == 0 {
			return
		}
	}
	fs.Path2Unnormalized(nd, want)
	if len(want) != len(r.LassoLarsNodes) {
		c.Failf("content", "%d nodes are stored; the path has %d", len(r.LassoLarsNodes), len(want))
		return
	}
	for i, n := range r.LassoLarsNodes {
		if n == nil || !closeTo(n.Lamb, want[i].Lamb, 1e-9) {
			c.Failf("content", "stored node %d is %v; the path's is %v", i, n, want[i])
			return
		}
		if !closeSlice(p.full(n), p.full(want[i]), 1e-5) {
			c.Failf("content", "stored node %d selects %v with %v; the path's selects %v with %v", i, n.Selection, n.Coeff, want[i].Selection, want[i].Coeff)
			return
		}
	}
	if !sameCriteria(c, "the stored path", r.LassoLarsNodes, r.Aicc, r.Bic, rows, y) {
		return
	}
}

type nestedPath struct {
	Nodes     []*fs.LassoLarsNode
	Aicc, Bic []float64
}

// full is the coefficient of every feature.
func (p *CliP) full(n *fs.LassoLarsNode) []float64 {
	f := make([]float64, p.Data.F)
	for j, s := range n.Selection {
		f[s] += n.Coeff[j]
	}
	return f
}

// sameCriteria compares the criteria stored for the nodes of a path with those of the models.
func sameCriteria(c *Ctx, what string, nodes []*fs.LassoLarsNode, aiccs, bics []float64, rows [][]float64, y []float64) bool {
	if len(aiccs) != len(nodes) || len(bics) != len(nodes) {
		c.Failf("content", "%s: %d and %d criteria for %d nodes", what, len(aiccs), len(bics), len(nodes))
		return false
	}
	n := len(y)
	for i, nd := range nodes {
		rss := 0.0
		for r := range rows {
			e := y[r]
			for j, s := range nd.Selection {
				e -= rows[r][s] * nd.Coeff[j]
			}
			rss += e * e
		}
		k := len(nd.Selection)
		a := aicc(k, n, rss)
		b := float64(k)*math.Log(float64(n)) + float64(n)*math.Log(rss)
		if tol := 1e-6 * float64(n+1); rss > 1e-10 && (math.Abs(a-aiccs[i]) > tol || math.Abs(b-bics[i]) > tol) {
			c.Failf("content", "%s: node %d is stored with AICc %v and BIC %v; the model %v has %v and %v", what, i, aiccs[i], bics[i], nd.Selection, a, b)
			return false
		}
	}
	return true
}

// checkNested follows the nested calculation: each path is that of the features which entered the one
// before first.
func (p *CliP) checkNested(c *Ctx, rows [][]float64, y []float64, paths []nestedPath) {
	cols := make([]int, p.Data.F)
	for j := range cols {
		cols[j] = j
	}
	whole := fs.NewNormalizedData(dense(rows), append([]float64{}, y...))
	q := newProblem(rows, y)
	for k := 0; ; k++ {
		if k >= len(paths) {
			c.Failf("content", "%d paths are stored; there is another one of the features %v", len(paths), cols)
			return
		}
		q.only = cols
		q.checkLars(c, fmt.Sprintf("path %d", k), paths[k].Nodes, p.Lmin)
		if c.Failed() {
			return
		}
		x := make([][]float64, len(rows))
		for i := range x {
			for _, j := range cols {
				x[i] = append(x[i], rows[i][j])
			}
		}
		sub := dense(x)
		ys := append([]float64{}, y...)
		nd := fs.NewNormalizedData(sub, ys)
		var est fs.MorsePenroseCD
		want := fs.LassoLars(nd, p.Lmin, &est)
		got := paths[k]
		if len(want) != len(got.Nodes) {
			c.Failf("content", "path %d is stored with %d nodes; that of the features %v has %d", k, len(got.Nodes), cols, len(want))
			return
		}
		// the normalized data and models, for the criteria
		for i := range x {
			for j := range cols {
				x[i][j] = sub.At(i, j)
			}
		}
		if !sameCriteria(c, fmt.Sprintf("path %d", k), want, got.Aicc, got.Bic, x, ys) {
			return
		}
		keep := int(p.Keep * float64(len(cols)))
		var next []int
		for i := 0; i < len(want) && len(next) < keep; i++ {
			for _, s := range want[i].Selection {
				f := cols[s]
				if !contains(next, f) {
					next = append(next, f)
				}
			}
		}
		for i, n := range want {
			m := fs.NewLassoLarsNode(n.Coeff, n.Lamb, n.Selection)
			for j := range m.Selection {
				m.Selection[j] = cols[m.Selection[j]]
			}
			fs.Path2Unnormalized(whole, []*fs.LassoLarsNode{m})
			g := got.Nodes[i]
			if g == nil || !closeTo(g.Lamb, m.Lamb, 1e-9) || len(g.Selection) != len(g.Coeff) {
				c.Failf("content", "path %d, node %d is stored as %v; it is %v", k, i, g, m)
				return
			}
			for _, s := range g.Selection {
				if s < 0 || s >= p.Data.F {
					c.Failf("content", "path %d, node %d is stored as %v; it is %v", k, i, g, m)
					return
				}
			}
			if !closeSlice(p.full(g), p.full(m), 1e-5) {
				c.Failf("content", "path %d, node %d is stored with features %v and %v; it has %v and %v", k, i, g.Selection, g.Coeff, m.Selection, m.Coeff)
				return
			}
		}
		if keep <= 2 {
			if len(paths) != k+1 {
				c.Failf("content", "%d paths are stored; there are %d", len(paths), k+1)
			}
			return
		}
		c.probe("nested path")
		cols = next
	}
}

func contains(l []int, x int) bool {
	for _, v := range l {
		if v == x {
			return true
		}
	}
	return false
}

func runResCli(c *Ctx, p *CliP) {
	out := p.outPath()
	prior := p.prior()
	// what the result should be
	var want []byte
	ps := c.Plain(c.Cfg.RandSeed, c.Cfg.RandMode, nil, p.process(), p.disk)
	announces := func(s *rt.Sim) bool {
		return (s.Outcome.Kind == "finished" || (s.Outcome.Kind == "exit" && s.Outcome.Code == 0)) && strings.Contains(s.Stdout.String(), "written")
	}
	if !announces(ps) {
		if ps.Outcome.Kind == "panic" && (strings.Contains(ps.Outcome.Msg, "Feature never included") || strings.Contains(ps.Outcome.Msg, "svd:") || strings.Contains(ps.Outcome.Msg, "No features in model")) {
			c.probe("path not computable")
			return
		}
		if p.Cov == "threshold" && p.Cmd == "cd" && strings.Contains(ps.Stdout.String()+ps.Stderr.String(), "unsupported value") {
			// what is left of the covariance has negative eigenvalues
			c.probe("path not computable")
			return
		}
		c.Failf("none", "without any fault no result is announced: %s %s %q; printed last: %q", ps.Outcome.Kind, ps.Outcome.Msg, clip(ps.Stderr.String()), tail(ps.Stdout.String()))
		return
	}
	want, ok := ps.Disk.Get(out)
	if !ok {
		c.Failf("missing", "a result is announced and there is no file")
		return
	}
	var aborted bool
	hs := c.Plain(c.Cfg.RandSeed, c.Cfg.RandMode, nil, func() { p.checkResult(c, want) })
	if hs.Outcome.Kind != "finished" {
		aborted = true
		c.probe("path not computable")
	}
	if c.Failed() || aborted {
		return
	}
	atomic := p.Cmd != "nested"
	whole := map[string]bool{}
	isWhole := func(b []byte) bool {
		k := string(b)
		if v, ok := whole[k]; ok {
			return v
		}
		whole[k] = bytes.Equal(b, want) || (json.Valid(b) && sameJSON(want, b, 1e-6) == "")
		return whole[k]
	}
	s := c.Sim()
	p.disk(s)
	old := func(b []byte, what string) {
		if b == nil {
			c.Failf("half", "%s an earlier result is lost", what)
			return
		}
		if !bytes.Equal(b, prior) && !isWhole(b) {
			c.Failf("half", "%s the output file holds neither the earlier nor the whole result: %d bytes, %q", what, len(b), clip(string(b)))
		}
	}
	power := func() {
		for _, b := range s.Disk.PowerCut(out) {
			old(b, "after a power cut")
		}
	}
	if atomic && prior != nil {
		s.Disk.OnChange = func(path string) {
			if c.Failed() {
				return
			}
			if path == out {
				b, ok := s.Disk.Get(out)
				if !ok {
					b = nil
				} else if b == nil {
					b = []byte{}
				}
				old(b, "at a change of the file")
			}
			power()
		}
	}
	c.Go(s, p.process(), false, "exit", "panic", "crash")
	if c.Failed() {
		return
	}
	if atomic && prior != nil {
		power()
		b, ok := s.Disk.Get(out)
		if !ok {
			b = nil
		}
		old(b, "at the end")
		if c.Failed() {
			return
		}
	}
	if s.Outcome.Kind == "crash" {
		c.probe("crash")
	}
	said := strings.Contains(s.Stdout.String(), "written")
	quiet := s.Outcome.Kind == "finished" || (s.Outcome.Kind == "exit" && s.Outcome.Code == 0)
	b, ok := s.Disk.Get(out)
	if said {
		if !ok || !isWhole(b) {
			c.Failf("untrue", "the result is announced as written; the file holds %d bytes %q, not the result of %d bytes", len(b), clip(string(b)), len(want))
			return
		}
		c.probe("result announced")
		return
	}
	var last *rt.FaultEvent
	for i, f := range s.Disk.Log {
		if f.Kind != "short" && last == nil {
			last = &s.Disk.Log[i]
		}
	}
	if s.Outcome.Kind == "crash" {
		return
	}
	if last == nil {
		c.Failf("none", "without any fault no result is announced: %s %s %q; printed last: %q", s.Outcome.Kind, s.Outcome.Msg, clip(s.Stderr.String()), tail(s.Stdout.String()))
		return
	}
	c.probe("failure")
	if quiet && !reported(s, *last) {
		c.Failf("silent", "%s at %s: no result is announced, and no failure reported either", last.Kind, last.Op)
	}
}

func shrinkCli(p CliP) []CliP {
	var out []CliP
	for _, d := range shrinkData(p.Data) {
		if p.Cmd != "bnb" && (!d.usable() || d.N < 2*d.F+3) {
			continue
		}
		if p.Cmd == "bnb" && d.N < d.F+4 {
			continue
		}
		q := p
		q.Data = d
		q.Target = max(-d.F-1, min(d.F, q.Target))
		out = append(out, q)
	}
	add := func(f func(*CliP)) {
		q := p
		f(&q)
		if q != p {
			out = append(out, q)
		}
	}
	add(func(q *CliP) { q.Prior = false })
	add(func(q *CliP) { q.Big = false })
	add(func(q *CliP) { q.Target = -1 })
	add(func(q *CliP) { q.Cutoff = 0 })
	add(func(q *CliP) { q.Cov = "empirical" })
	add(func(q *CliP) { q.Out = "out.json" })
	if p.Num > 1 {
		add(func(q *CliP) { q.Num = 1 })
	}
	return out
}

// tail is the end of a text.
func tail(s string) string { return s[max(0, len(s)-200):] }
