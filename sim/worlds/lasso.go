//go:build go1.23

package main

import (
	"math"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	"github.com/davidkleiven/goselect/zzverif/rt"
)

// PathP is a lasso path by coordinate descent.
type PathP struct {
	Data    Data    `json:"data"`
	Num     int     `json:"num"`
	Lmin    float64 `json:"lmin"`
	Lmax    float64 `json:"lmax"`
	Corr    string  `json:"corr"` // pure, elastic, classo
	Eta     float64 `json:"eta"`
	Cov     string  `json:"cov"` // empirical, identity, threshold
	Tol     float64 `json:"tol"`
	MaxIter int     `json:"max_iter"`
	Repeat  int     `json:"repeat"` // every so many values repeat the one before
	Warm    bool    `json:"warm"`   // a path on other data of the same shape comes first

	cov fs.CovMat
}

func init() {
	register("lassopath", map[string]int{"C11": 10, "C03": 2}, genPath, runPath, shrinkPath)
}

func lassoData(g *Rng) Data {
	for {
		d := genData(g, 3, 8)
		if g.p(0.03) {
			d = genData(g, 9, 24)
		}
		d.N = d.F + pick(g, 4, 6, 10, 20)
		if d.usable() {
			return d
		}
	}
}

// usable tells whether every column but the first varies.
func (d Data) usable() bool {
	rows, y := d.make()
	spread := func(get func(i int) float64) bool {
		lo, hi := math.Inf(1), math.Inf(-1)
		for i := range rows {
			lo, hi = math.Min(lo, get(i)), math.Max(hi, get(i))
		}
		return hi-lo > 1e-3
	}
	for j := 1; j < d.F; j++ {
		if !spread(func(i int) float64 { return rows[i][j] }) {
			return false
		}
	}
	return spread(func(i int) float64 { return y[i] })
}

func genPath(g *Rng, prop string) (rt.Config, *PathP) {
	p := &PathP{Data: lassoData(g)}
	p.Num = pick(g, 1, 2, 3, 5, 9, 10, 11, 12, 13, 15, 17, 20, 25)
	if g.p(0.04) {
		p.Num = g.in(26, 120)
	}
	if prop == "C03" && g.p(0.05) {
		p.Num = 0
	}
	p.Lmax = pick(g, 0.1, 0.5, 1, 2, 10)
	p.Lmin = p.Lmax * pick(g, 0.5, 0.1, 1e-2, 1e-4)
	p.Corr = pick(g, "pure", "pure", "elastic", "classo", "classo")
	p.Eta = pick(g, 0.01, 0.1, 0.5)
	p.Cov = pick(g, "empirical", "empirical", "empirical", "identity")
	p.Tol = pick(g, 1e-10, 1e-10, 1e-8, 1e-4)
	p.MaxIter = pick(g, 2000, 500)
	if g.p(0.15) {
		p.Repeat = pick(g, 1, 2, 3, 7)
	}
	if prop == "C11" && g.p(0.004) {
		p.Cov = "threshold"
	}
	if g.p(0.1) {
		other := p.Data
		other.Seed ^= 0x5555
		p.Warm = other.usable()
	}
	cfg := schedule(g, 4<<20)
	if p.Data.F > 8 || p.Num > 25 {
		cfg.StepLimit = 240 << 20
	}
	return cfg, p
}

func (p *PathP) lambs() []float64 {
	l := make([]float64, p.Num)
	for i := range l {
		if p.Num == 1 {
			l[i] = p.Lmax
			continue
		}
		f := float64(i) / float64(p.Num-1)
		l[i] = math.Exp(math.Log(p.Lmin)*(1-f) + math.Log(p.Lmax)*f)
		if p.Repeat > 0 && i > 0 && i%p.Repeat == 0 {
			l[i] = l[i-1]
		}
	}
	return l
}

func (p *PathP) correction() fs.LassoCorrection {
	switch p.Corr {
	case "elastic":
		return &fs.ElasticNet{Lamb: p.Eta}
	case "classo":
		return fs.NewCLasso(p.Data.F, p.Eta)
	}
	return &fs.PureLasso{}
}

func (p *PathP) covariance() fs.CovMat {
	switch p.Cov {
	case "identity":
		return &fs.Identity{}
	case "threshold":
		return p.cov
	}
	return &fs.Empirical{}
}

func (p *PathP) normalized() *fs.NormalizedData {
	rows, y := p.Data.make()
	return fs.NewNormalizedData(dense(rows), y)
}

// solo solves each value on its own.
type soloSol struct {
	coeff []float64
	conv  bool
}

func (p *PathP) solo(c *Ctx) []soloSol {
	lambs := p.lambs()
	sols := make([]soloSol, len(lambs))
	s := c.Plain(1, "uniform", nil, func() {
		d := p.normalized()
		if p.Cov == "threshold" {
			p.cov = fs.NewSparseThreshold(d.X)
			rt.Probe("thresholded covariance")
		}
		for i, l := range lambs {
			before := rt.Cur().Stdout.Len()
			x0 := make([]float64, p.Data.F)
			sols[i].coeff = fs.LassoCrdDesc(d, l, p.covariance(), x0, p.MaxIter, p.Tol, p.correction())
			sols[i].conv = rt.Cur().Stdout.Len() == before
			zero := true
			for _, v := range sols[i].coeff {
				if v != 0 {
					zero = false
				}
			}
			if zero {
				sols[i].conv = true
			}
		}
	})
	if s.Outcome.Kind != "finished" {
		c.Failf("solo", "solving each value on its own ends with %s %s", s.Outcome.Kind, s.Outcome.Msg)
		return nil
	}
	return sols
}

// checkPath is the C11 oracle.
func (p *PathP) checkPath(c *Ctx, nodes []*fs.LassoLarsNode, sols []soloSol) {
	lambs := p.lambs()
	tol := math.Max(1e-6, 300*p.Tol)
	n := len(lambs)
	drop := n - len(nodes)
	if drop < 0 {
		c.Failf("nodes", "%d nodes for %d values", len(nodes), n)
		return
	}
	for i := 0; i < drop; i++ {
		for j, v := range sols[n-1-i].coeff {
			if sols[n-1-i].conv && math.Abs(v) > tol {
				c.Failf("nodes", "%d nodes for %d values: the model for %v has coefficient %v for feature %d and is left out (or others are)", len(nodes), n, lambs[n-1-i], v, j)
				return
			}
		}
	}
	for i, nd := range nodes {
		k := n - 1 - drop - i
		if nd == nil {
			c.Failf("nodes", "no node for value %v", lambs[k])
			return
		}
		if nd.Lamb != lambs[k] {
			c.Failf("lambda", "node %d of %d holds value %v, not %v", i, len(nodes), nd.Lamb, lambs[k])
			return
		}
		if len(nd.Coeff) != len(nd.Selection) {
			c.Failf("nodes", "node %d selects %v with coefficients %v", i, nd.Selection, nd.Coeff)
			return
		}
		full := make([]float64, p.Data.F)
		for j, f := range nd.Selection {
			if f < 0 || f >= p.Data.F || full[f] != 0 {
				c.Failf("nodes", "node %d selects %v", i, nd.Selection)
				return
			}
			full[f] = nd.Coeff[j]
		}
		if !sols[k].conv {
			c.probe("value without convergence")
			continue
		}
		if !closeSlice(full, sols[k].coeff, tol) {
			c.Failf("coeff", "the path has coefficients %v for value %v; on its own it gives %v", full, nd.Lamb, sols[k].coeff)
			return
		}
	}
}

func runPath(c *Ctx, p *PathP) {
	var sols []soloSol
	if c.For("C11") {
		sols = p.solo(c)
		if c.Failed() {
			return
		}
	}
	var nodes []*fs.LassoLarsNode
	returned := false
	s := c.Sim()
	leaked := c.Go(s, func() {
		if p.Warm {
			q := *p
			q.Data.Seed ^= 0x5555
			if q.Cov == "threshold" {
				q.Cov = "empirical"
			}
			fs.LassoCrdDescPath(q.normalized(), q.covariance(), q.lambs(), q.MaxIter, q.Tol, q.correction())
		}
		nodes = fs.LassoCrdDescPath(p.normalized(), p.covariance(), p.lambs(), p.MaxIter, p.Tol, p.correction())
		returned = true
	}, true)
	if c.Failed() {
		return
	}
	if !returned {
		c.Failf("outcome", "LassoCrdDescPath did not return")
		return
	}
	if c.For("C03") {
		if len(leaked) > 0 {
			c.Failf("leak", "%d goroutines never end: %v", len(leaked), leaked)
		}
		return
	}
	if strings.Contains(s.Stdout.String(), "Warning") {
		c.probe("warning printed")
	}
	if p.Num > 10 {
		c.probe("more values than workers")
	}
	p.checkPath(c, nodes, sols)
}

func shrinkPath(p PathP) []PathP {
	var out []PathP
	add := func(f func(*PathP)) {
		q := p
		f(&q)
		if q.Warm {
			other := q.Data
			other.Seed ^= 0x5555
			q.Warm = other.usable()
		}
		if q != p && q.Data.usable() {
			out = append(out, q)
		}
	}
	if p.Num > 1 {
		add(func(q *PathP) { q.Num = (q.Num + 1) / 2 })
		add(func(q *PathP) { q.Num-- })
	}
	if p.Data.F > 3 {
		add(func(q *PathP) { q.Data.F--; q.Data.True = min(q.Data.True, q.Data.F) })
	}
	if p.Data.N > p.Data.F+4 {
		add(func(q *PathP) { q.Data.N = q.Data.F + 4 })
	}
	add(func(q *PathP) { q.Data.Dup = false })
	add(func(q *PathP) { q.Data.Bias = false })
	add(func(q *PathP) { q.Data.Binary = false })
	add(func(q *PathP) { q.Corr = "pure" })
	add(func(q *PathP) { q.Cov = "empirical" })
	add(func(q *PathP) { q.Repeat = 0 })
	add(func(q *PathP) { q.Warm = false })
	return out
}
