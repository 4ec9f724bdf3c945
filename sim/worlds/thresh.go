//go:build go1.23

package main

import (
	"fmt"
	"math"

	fs "github.com/davidkleiven/goselect/featselect"
	"github.com/davidkleiven/goselect/zzverif/rt"
	"gonum.org/v1/gonum/mat"
)

// ThreshP is a search for a covariance threshold.
type ThreshP struct {
	Data    Data    `json:"data"`
	Samples int     `json:"samples"`
	Step    float64 `json:"step"`
	MaxThr  float64 `json:"max_threshold"`
	View    int     `json:"view"`   // 1: the matrix is part of a larger one, 2: the transpose of another
	Warm    bool    `json:"warm"`   // a search on other data of the same shape comes first
	Splits  int     `json:"splits"` // only split rows, this many times at once
	Num     int     `json:"num"`    // rows of the first part
	Ask     int     `json:"ask"`    // ask this many times at once for the sparse covariance estimate
}

func init() {
	register("thresh", map[string]int{"C13": 10, "C03": 2}, genThresh, runThresh, shrinkThresh)
}

func genThresh(g *Rng, prop string) (rt.Config, *ThreshP) {
	p := &ThreshP{Data: genData(g, 2, 5)}
	p.Data.N = g.in(6, 16)
	p.Data.Dup = false
	p.Samples = pick(g, 1, 1, 2, 3, 5, 8)
	p.Step = pick(g, 9, 4.5, 3, 1, 1, 0.9, 0.8, 0.75, 0.6, 0.3)
	p.MaxThr = 1
	if g.p(0.04) {
		p.Step, p.Samples = pick(g, 0.1, 0.15, 0.2, 0.035), g.in(1, 3)
	} else if g.p(0.04) {
		p.Samples = g.in(9, 30)
	}
	if g.p(0.1) {
		p.Data.N = g.in(17, 60)
	}
	if g.p(0.03) {
		p.Data.N, p.Data.F = g.in(30, 200), g.in(6, 20)
		p.Step, p.Samples = pick(g, 9, 4.5, 3, 1), g.in(1, 3)
	}
	p.Warm = g.p(0.1)
	p.View = pick(g, 0, 0, 0, 1, 2)
	if prop == "C13" && g.p(0.1) {
		p.Splits = g.in(1, 3)
		p.Data.N = g.in(1, 30)
		if g.p(0.1) {
			p.Data.N = g.in(31, 400)
		}
		p.Num = g.in(1, max(1, p.Data.N-1))
		p.Data.N = max(p.Data.N, p.Num+1)
	}
	if prop == "C13" && g.p(0.004) {
		p.Ask, p.Splits, p.Step, p.View, p.Warm = g.in(1, 3), 0, 1, 0, false
		p.Data.N = g.in(8, 20)
	}
	cfg := schedule(g, 4<<20)
	if g.p(0.5) {
		cfg.TimerP = pick(g, 0.001, 0.01, 0.1)
	}
	return cfg, p
}

func (p *ThreshP) grid() []float64 {
	g := make([]float64, int(9/p.Step))
	for k := range g {
		g[k] = math.Exp(-10 + float64(k)*p.Step)
	}
	return g
}

// gridIndex finds out which grid value an operator uses (-1: none).
func (p *ThreshP) gridIndex(op *fs.ThresholdOperator) int {
	n := len(p.grid())
	probe := mat.NewDense(1, n+1, nil)
	for k := 0; k <= n; k++ {
		probe.Set(0, k, math.Exp(-10+(float64(k)-0.5)*p.Step))
	}
	op.Apply(probe)
	idx := -1
	for k := 0; k <= n; k++ {
		if probe.At(0, k) == 0 {
			if idx != k-1 {
				return -1
			}
			idx = k
		}
	}
	if idx >= n {
		return -1
	}
	return idx
}

func covOf(rows [][]float64) [][]float64 {
	n, f := float64(len(rows)), len(rows[0])
	mu := make([]float64, f)
	for _, r := range rows {
		for j, v := range r {
			mu[j] += v / n
		}
	}
	cov := make([][]float64, f)
	for i := range cov {
		cov[i] = make([]float64, f)
		for j := range cov[i] {
			s := 0.0
			for _, r := range rows {
				s += (r[i] - mu[i]) * (r[j] - mu[j])
			}
			cov[i][j] = s / n
		}
	}
	return cov
}

// deviations computes the mean deviation of every grid value over the splits. Values of the
// covariance close to a grid value make it unclear.
func (p *ThreshP) deviations(rows [][]float64, splits [][]int) (dev []float64, clear bool) {
	nr := len(rows)
	n1 := int(float64(nr) * (1 - 1/math.Log(float64(nr))))
	grid := p.grid()
	dev = make([]float64, len(grid))
	clear = true
	for _, sp := range splits {
		var a, b [][]float64
		for i, r := range sp {
			if i < n1 {
				a = append(a, rows[r])
			} else {
				b = append(b, rows[r])
			}
		}
		ca, cb := covOf(a), covOf(b)
		for k, t := range grid {
			s := 0.0
			for i := range ca {
				for j := range ca {
					v := ca[i][j]
					if math.Abs(math.Abs(v)-t) < 1e-9*t+1e-13 {
						clear = false
					}
					if math.Abs(v) < t {
						v = 0
					}
					s += (v - cb[i][j]) * (v - cb[i][j])
				}
			}
			dev[k] += math.Sqrt(s) / float64(len(splits))
		}
	}
	return dev, clear
}

// matrix is the data in the form asked for.
func (p *ThreshP) matrix(rows [][]float64) mat.Matrix {
	x := dense(rows)
	n, f := x.Dims()
	switch p.View {
	case 1:
		big := mat.NewDense(n+3, f+2, nil)
		for i := 0; i < n+3; i++ {
			for j := 0; j < f+2; j++ {
				big.Set(i, j, 1e6+float64(i*j))
			}
		}
		v := big.Slice(1, n+1, 1, f+1).(*mat.Dense)
		v.Copy(x)
		return v
	case 2:
		return mat.DenseCopyOf(x.T()).T()
	}
	return x
}

// runSplits splits rows several times at once; every row must appear once in one of the parts.
func runSplits(c *Ctx, p *ThreshP, rows [][]float64) {
	for i := range rows {
		rows[i][0] = float64(i) + 0.25
	}
	x := p.matrix(rows)
	parts := make([][2]*mat.Dense, p.Splits)
	c.Go(c.Sim(), func() {
		var fsn []func()
		for i := range parts {
			i := i
			fsn = append(fsn, func() { parts[i][0], parts[i][1] = fs.RandomRowSplit(x, p.Num) })
		}
		together("split", fsn...)
	}, true)
	if c.Failed() {
		return
	}
	for _, pt := range parts {
		if pt[0] == nil || pt[1] == nil {
			c.Failf("split", "a part is missing")
			return
		}
		n1, _ := pt[0].Dims()
		n2, _ := pt[1].Dims()
		if n1 != p.Num || n2 != len(rows)-p.Num {
			c.Failf("split", "%d rows are split into %d and %d; the first part was to have %d", len(rows), n1, n2, p.Num)
			return
		}
		seen := make([]int, len(rows))
		for _, m := range pt {
			n, f := m.Dims()
			for i := 0; i < n; i++ {
				r := int(m.At(i, 0))
				if r < 0 || r >= len(rows) {
					c.Failf("split", "a row of a split is not of the data: %v", m.RawRowView(i))
					return
				}
				seen[r]++
				for j := 0; j < f; j++ {
					if m.At(i, j) != rows[r][j] {
						c.Failf("split", "row %d of the data, %v, becomes %v", r, rows[r], m.RawRowView(i))
						return
					}
				}
			}
		}
		for r, k := range seen {
			if k != 1 {
				c.Failf("split", "row %d appears %d times in a split of %d rows", r, k, len(rows))
				return
			}
		}
	}
	c.probe("rows split")
}

func runThresh(c *Ctx, p *ThreshP) {
	rows, _ := p.Data.make()
	if p.Splits > 0 {
		runSplits(c, p, rows)
		return
	}
	if p.Ask > 0 {
		runEstimate(c, p, rows)
		return
	}
	var op *fs.ThresholdOperator
	skip := 0 // splits of the search before
	search := func() {
		if p.Warm {
			other := p.Data
			other.Seed ^= 0x5555
			wr, _ := other.make()
			fs.L2ConsistentCovTO(dense(wr), 1, p.MaxThr, p.Step)
			skip = len(rt.Cur().Splits())
		}
		op = fs.L2ConsistentCovTO(p.matrix(rows), p.Samples, p.MaxThr, p.Step)
	}
	solo := -2
	var plain *rt.Sim
	if c.For("C13") {
		plain = c.Plain(c.Cfg.RandSeed, c.Cfg.RandMode, nil, search)
		if plain.Outcome.Kind != "finished" {
			c.Failf("outcome", "the search ends with %s %s", plain.Outcome.Kind, plain.Outcome.Msg)
			return
		}
		solo = p.gridIndex(op)
	}
	op = nil
	s := c.Sim()
	leaked := c.Go(s, search, true)
	if c.Failed() {
		return
	}
	if op == nil {
		c.Failf("outcome", "L2ConsistentCovTO returned nothing")
		return
	}
	if c.For("C03") {
		if len(leaked) > 0 {
			c.Failf("leak", "%d goroutines never end: %v", len(leaked), leaked)
		}
		return
	}
	idx := p.gridIndex(op)
	c.extraHash = uint64(idx)
	if idx < 0 {
		c.Failf("grid", "the threshold returned is not a grid value")
		return
	}
	if len(p.grid()) > 10 {
		c.probe("more grid values than workers")
	}
	if len(s.Ticks) > 0 {
		c.probe("progress timer served")
	}
	sp := s.Splits()[skip:]
	if len(sp) > 0 && len(sp) < p.Samples {
		c.Failf("splits", "the rows are split %d times for %d samples", len(sp), p.Samples)
		return
	}
	if len(sp) < p.Samples {
		c.probe("splits not visible")
		if idx != solo {
			c.Failf("schedule", "grid value %d is returned, %d under the default schedule", idx, solo)
		}
		return
	}
	if same(sp[:p.Samples], len(rows)) {
		c.Failf("splits", "the rows are split %d times in the same way", p.Samples)
		return
	}
	dev, clear := p.deviations(rows, sp[:p.Samples])
	if !clear {
		c.probe("covariance on a grid value")
		return
	}
	best := 0
	for k := range dev {
		if dev[k] < dev[best] {
			best = k
		}
	}
	tol := 1e-9 * (1 + dev[best])
	if dev[idx] > dev[best]+tol {
		c.Failf("optimum", "grid value %d (mean deviation %v) is returned; %d has %v", idx, dev[idx], best, dev[best])
		return
	}
	if idx != solo && math.Abs(dev[idx]-dev[solo]) > tol {
		c.Failf("schedule", "grid value %d is returned, %d under the default schedule", idx, solo)
	}
}

// same tells whether all splits are the same although this cannot be expected to ever happen.
func same(sp [][]int, n int) bool {
	likely := 1.0
	for i := range sp {
		if fmt.Sprint(sp[i]) != fmt.Sprint(sp[0]) {
			return false
		}
		for k := 2; k <= n && i > 0; k++ {
			likely /= float64(k)
		}
	}
	return likely < 1e-15
}

// runEstimate asks for the sparse estimate of the covariance several times at once: it has zeros
// exactly where the elements are smaller than the threshold the search chose.
func runEstimate(c *Ctx, p *ThreshP, rows [][]float64) {
	x := dense(rows)
	var est *fs.SparseThresholded
	plain := c.Plain(c.Cfg.RandSeed, c.Cfg.RandMode, nil, func() { est = fs.NewSparseThreshold(x) })
	if plain.Outcome.Kind != "finished" || est == nil {
		c.Failf("outcome", "NewSparseThreshold ends with %s %s", plain.Outcome.Kind, plain.Outcome.Msg)
		return
	}
	if len(plain.Splits()) == 0 {
		c.probe("splits not visible")
		return
	}
	got := make([]*mat.Dense, p.Ask)
	c.Go(c.Sim(), func() {
		var fsn []func()
		for i := range got {
			i := i
			fsn = append(fsn, func() { got[i] = mat.DenseCopyOf(est.Get(x)) })
		}
		together("estimate", fsn...)
	}, true)
	if c.Failed() {
		return
	}
	dev, clear := p.deviations(rows, plain.Splits())
	best := dev[0]
	for _, d := range dev {
		best = math.Min(best, d)
	}
	f := len(rows[0])
	moment := make([][]float64, f)
	for i := range moment {
		moment[i] = make([]float64, f)
		for j := range moment[i] {
			for _, r := range rows {
				moment[i][j] += r[i] * r[j] / float64(len(rows))
			}
			for _, t := range p.grid() {
				if math.Abs(math.Abs(moment[i][j])-t) < 1e-9*t+1e-13 {
					clear = false
				}
			}
		}
	}
	if !clear {
		c.probe("covariance on a grid value")
		return
	}
	c.probe("sparse estimate")
	for _, m := range got {
		if m == nil {
			c.Failf("estimate", "no estimate is returned")
			return
		}
		ok := false
		for k, t := range p.grid() {
			// one or two splits may be drawn and not used any more
			if dev[k] > best*(1+4/float64(len(plain.Splits())))+1e-9 {
				continue
			}
			match, cut := true, false
			for i := range moment {
				for j := range moment[i] {
					v := moment[i][j]
					if math.Abs(v) < t {
						v, cut = 0, true
					}
					if got := m.At(i, j); math.Abs(got-v) > 1e-9*(1+math.Abs(v)) || (v == 0) != (got == 0) {
						match = false
					}
				}
			}
			if match && cut {
				c.probe("estimate with zeros")
			}
			ok = ok || match
		}
		if !ok {
			c.Failf("estimate", "the sparse estimate %v is not the second moments %v cut off at the best threshold (deviations %v)", mat.Formatted(m), moment, dev)
			return
		}
	}
}

func shrinkThresh(p ThreshP) []ThreshP {
	var out []ThreshP
	add := func(f func(*ThreshP)) {
		q := p
		f(&q)
		if q != p {
			out = append(out, q)
		}
	}
	if p.Samples > 1 {
		add(func(q *ThreshP) { q.Samples-- })
	}
	if p.Data.F > 2 {
		add(func(q *ThreshP) { q.Data.F-- })
	}
	if p.Warm {
		add(func(q *ThreshP) { q.Warm = false })
	}
	if p.View > 0 {
		add(func(q *ThreshP) { q.View = 0 })
	}
	if p.Ask > 1 {
		add(func(q *ThreshP) { q.Ask-- })
	}
	if p.Splits > 1 {
		add(func(q *ThreshP) { q.Splits-- })
	}
	if p.Data.N > 6 && (p.Splits == 0 || p.Data.N-1 > p.Num) {
		add(func(q *ThreshP) { q.Data.N-- })
	}
	for _, st := range []float64{4.5, 3, 1, 0.9} {
		if st > p.Step {
			add(func(q *ThreshP) { q.Step = st })
		}
	}
	return out
}
