//go:build go1.23

package main

import (
	"math"
	"math/bits"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	"github.com/davidkleiven/goselect/zzverif/rt"
)

// CohenP is a run of the cohenlasso command.
type CohenP struct {
	Data    Data    `json:"data"`
	Target  int     `json:"target"`
	Num     int     `json:"num"`
	Samples int     `json:"samples"`
	Lmin    float64 `json:"lmin"`
	Lmax    float64 `json:"lmax"`
}

func init() {
	register("cohencli", map[string]int{"C12": 1, "C03": 1}, genCohen, runCohen, shrinkCohen)
}

func genCohen(g *Rng, prop string) (rt.Config, *CohenP) {
	p := &CohenP{Num: pick(g, 2, 2, 3, 5), Samples: pick(g, 1, 1, 2, 3), Lmin: pick(g, 0.01, 0.03), Lmax: pick(g, 0.05, 0.1, 0.2)}
	empty := g.p(0.4) // selections of nothing are not avoided
	if empty && g.p(0.5) {
		p.Lmax = pick(g, 0.5, 1, 2)
	}
	if g.p(0.04) {
		p.Num = g.in(17, 20)
	}
	p.Data = goodData(g, func(g *Rng) Data {
		d := genData(g, 2, 3)
		d.N = pick(g, 6, 6, 6, 7)
		d.Dup, d.Bias, d.Binary = false, false, false
		for k := 0; k < 200 && !empty && !p.solvable(d); k++ {
			d.Seed = g.next() >> 1
		}
		return d
	})
	p.Target = g.in(-p.Data.F-1, p.Data.F)
	cfg := schedule(g, 16<<20)
	if g.p(0.3) {
		cfg.FaultP = 0.3
		cfg.Faults = "read:short"
	}
	return cfg, p
}

// solvable tells whether something is clearly selected in every group.
func (p *CohenP) solvable(d Data) bool {
	rows, y := d.make()
	for m := uint64(0); m < 1<<uint(d.N); m++ {
		n := bits.OnesCount64(m)
		if n != d.N/2 && n != d.N-d.N/2 {
			continue
		}
		best := 0.0
		for j := 0; j < d.F; j++ {
			var sx, sy, xx, yy, xy float64
			for i := 0; i < d.N; i++ {
				if m>>uint(i)&1 == 1 {
					a, b := rows[i][j], y[i]
					sx, sy, xx, yy, xy = sx+a, sy+b, xx+a*a, yy+b*b, xy+a*b
				}
			}
			k := float64(n)
			best = math.Max(best, math.Abs(xy/k-sx/k*sy/k)/math.Sqrt((xx/k-sx/k*sx/k)*(yy/k-sy/k*sy/k)))
		}
		if !(best > 1.3*p.Lmax) {
			return false
		}
	}
	return true
}

var kappaProgress = regexp.MustCompile(`^(Lambda: \S+) kappa: (\S+)$`)
var kappaSummary = regexp.MustCompile(`^\s*(Lambda: \S+) Kappa: (\S+)$`)

func runCohen(c *Ctx, p *CohenP) {
	// the kappa of every possible split
	cli := CliP{Data: p.Data, Target: p.Target}
	lo, hi := map[string]float64{}, map[string]float64{}
	ps := c.Plain(1, "", nil, func() {
		rows, y := p.Data.make()
		nd := fs.NewNormalizedData(dense(rows), append([]float64{}, y...))
		lambs := fs.Logspace(p.Lmin, p.Lmax, p.Num)
		n := p.Data.N / 2
		for _, l := range lambs {
			t := fs.NewPureLassoCohen()
			t.Dset, t.Lamb, t.Cov, t.MaxIter, t.Tol, t.Correction = nd, l, &fs.Empirical{}, 100000, 1e-4, &fs.PureLasso{}
			name := t.StringRep()
			min, max := math.Inf(1), math.Inf(-1)
			sels := map[uint64][]int{}
			sel := func(m uint64) []int {
				if s, ok := sels[m]; ok {
					return s
				}
				var a []int
				for i := 0; i < p.Data.N; i++ {
					if m>>uint(i)&1 == 1 {
						a = append(a, i)
					}
				}
				sels[m] = t.GetSelection(a)
				return sels[m]
			}
			for m := uint64(0); m < 1<<uint(p.Data.N); m++ {
				if bits.OnesCount64(m) == n {
					k := kappaOf(sel(m), sel(1<<uint(p.Data.N)-1-m), p.Data.F)
					min, max = math.Min(min, k), math.Max(max, k)
				}
			}
			lo[name], hi[name] = min, max
		}
	})
	if ps.Outcome.Kind != "finished" || len(lo) != p.Num {
		c.probe("data without kappa")
		return
	}
	s := c.Sim()
	s.Disk.Put("/w/in.csv", cli.csvOf())
	main := mains["goselect_cohenlasso"]
	if main == nil {
		panic("harness: no command cohenlasso")
	}
	num := func(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }
	args := []string{"goselect-cohenlasso", "-csvfile", "/w/in.csv", "-target", strconv.Itoa(p.Target), "-numSamp", strconv.Itoa(p.Samples),
		"-lambMin", num(p.Lmin), "-lambMax", num(p.Lmax), "-numLamb", strconv.Itoa(p.Num)}
	leaked := c.Go(s, func() {
		old := os.Args
		os.Args = args
		defer func() { os.Args = old }()
		main()
	}, c.For("C03"))
	if c.Failed() {
		return
	}
	if c.For("C03") {
		if len(leaked) > 0 {
			c.Failf("leak", "goroutines never end: %s", strings.Join(leaked, "; "))
		}
		return
	}
	seen := map[string]string{}
	var sums []float64
	n := 0
	for _, l := range strings.Split(s.Stdout.String(), "\n") {
		if m := kappaProgress.FindStringSubmatch(l); m != nil {
			if _, ok := seen[m[1]]; ok {
				c.Failf("twice", "%s is reported twice", m[1])
				return
			}
			seen[m[1]] = m[2]
			v, err := strconv.ParseFloat(m[2], 64)
			min, ok := lo[m[1]]
			if !ok || err != nil {
				c.Failf("unknown", "line %q is not of a requested value", l)
				return
			}
			if !math.IsNaN(min) && !(v >= min-0.0011 && v <= hi[m[1]]+0.0011) {
				c.Failf("kappa", "%s has kappa %v; any partition gives %v to %v", m[1], v, min, hi[m[1]])
				return
			}
			if min == hi[m[1]] {
				c.probe("kappa known exactly")
			}
		} else if m := kappaSummary.FindStringSubmatch(l); m != nil {
			if seen[m[1]] != m[2] {
				c.Failf("summary", "the summary gives %s the kappa %s; its evaluation gave %q", m[1], m[2], seen[m[1]])
				return
			}
			v, _ := strconv.ParseFloat(m[2], 64)
			sums = append(sums, v)
			n++
		}
	}
	if len(seen) != p.Num || n != p.Num {
		c.Failf("missing", "of %d values %d are reported and %d are in the summary", p.Num, len(seen), n)
		return
	}
	if !sort.Float64sAreSorted(sums) {
		c.Failf("order", "the summary is not sorted by kappa: %v", sums)
	}
}

func shrinkCohen(p CohenP) []CohenP {
	var out []CohenP
	for _, d := range shrinkData(p.Data) {
		if d.N >= 6 && d.F >= 2 {
			q := p
			q.Data = d
			q.Target = min(max(q.Target, -d.F-1), d.F)
			out = append(out, q)
		}
	}
	if p.Num > 2 {
		q := p
		q.Num--
		out = append(out, q)
	}
	if p.Samples > 1 {
		q := p
		q.Samples = 1
		out = append(out, q)
	}
	return out
}
