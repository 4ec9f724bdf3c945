//go:build go1.23

package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	"github.com/davidkleiven/goselect/zzverif/rt"
	"gonum.org/v1/gonum/mat"
)

// KappaP is a sequence of Cohen's kappa values.
type KappaP struct {
	Rows    int     `json:"rows"`
	Cols    int     `json:"cols"`
	Targets int     `json:"targets"`
	Samples int     `json:"samples"`
	Seed    uint64  `json:"seed"`
	Real    bool    `json:"real"`  // lasso targets
	Slow    int     `json:"slow"`  // yields inside a target
	Names   int     `json:"names"` // style of the names
	Warm    bool    `json:"warm"`  // another sequence comes first
	Corr    int     `json:"corr"`  // lasso targets: 0 pure, 1 elastic net, 2 one covariance lasso for all, 3 one for each
	Eta     float64 `json:"eta"`
	Close   bool    `json:"close"` // targets that differ in few samples only
}

func init() {
	register("kappa", map[string]int{"C12": 10, "C03": 2}, genKappa, runKappa, shrinkKappa)
}

func genKappa(g *Rng, prop string) (rt.Config, *KappaP) {
	p := &KappaP{Rows: g.in(2, 15), Cols: g.in(2, 7), Samples: pick(g, 1, 1, 2, 3, 5), Seed: g.next() >> 1}
	p.Targets = pick(g, 1, 2, 3, 5, 8, 15, 16, 17, 18, 20, 25, 33, 40)
	if g.p(0.03) {
		p.Targets = 0
	}
	if g.p(0.02) {
		p.Targets = g.in(41, 150)
	}
	if g.p(0.02) {
		p.Samples = pick(g, g.in(6, 40), g.in(41, 150), g.in(151, 600))
		p.Targets = min(p.Targets, 20)
	}
	if g.p(0.08) {
		p.Rows, p.Cols = g.in(16, 300), g.in(8, 40)
	}
	p.Real = g.p(0.15)
	if p.Real {
		p.Rows, p.Cols = g.in(12, 20), min(p.Cols, 7)
		p.Targets = min(p.Targets, 20)
		p.Samples = min(p.Samples, 2)
		p.Corr, p.Eta = pick(g, 0, 0, 1, 2, 2, 3), pick(g, 0.05, 0.2, 0.5)
	}
	p.Slow = pick(g, 0, 0, 1, 5)
	p.Names = g.n(3)
	p.Warm = g.p(0.1)
	if !p.Real && g.p(0.04) {
		p.Close, p.Warm, p.Slow = true, false, 0
		p.Rows, p.Cols = g.in(2, 8), g.in(4, 24)
		p.Targets, p.Samples = g.in(2, 8), pick(g, 40, 150, 400)
	}
	return schedule(g, 4<<20), p
}

// kTarget records how it is used.
type kTarget struct {
	id    int
	name  string
	x     mat.Matrix
	pick  func(indices []int, call int) []int
	slow  int
	calls [][]int
	sels  [][]int
	busy  bool
	bad   string
}

func (t *kTarget) GetX() mat.Matrix { return t.x }

func (t *kTarget) GetSelection(indices []int) []int {
	k := len(t.calls)
	cp := append([]int{}, indices...)
	t.calls = append(t.calls, cp)
	t.sels = append(t.sels, nil)
	for i := 0; i < t.slow; i++ {
		rt.Yield()
	}
	sel := t.pick(cp, k)
	for i := 0; i < t.slow; i++ {
		rt.Yield()
	}
	if len(indices) != len(cp) {
		t.bad = "a group changes while the target uses it"
	}
	for i := range cp {
		if indices[i] != cp[i] {
			t.bad = "a group changes while the target uses it"
		}
	}
	t.sels[k] = append([]int{}, sel...)
	return sel
}

func (t *kTarget) HyperParameters() map[string]float64 {
	return map[string]float64{"id": float64(t.id)}
}

func (t *kTarget) StringRep() string { return t.name }

// kappaOf is Cohen's kappa of two selections among n features.
func kappaOf(a, b []int, n int) float64 {
	if len(a) == 0 && len(b) == 0 || len(a) == n && len(b) == n {
		return 1
	}
	in := func(l []int, x int) bool {
		for _, v := range l {
			if v == x {
				return true
			}
		}
		return false
	}
	agree, na, nb := 0, 0, 0
	for i := 0; i < n; i++ {
		x, y := in(a, i), in(b, i)
		if x == y {
			agree++
		}
		if x {
			na++
		}
		if y {
			nb++
		}
	}
	N := float64(n)
	pa := float64(agree) / N
	pe := float64(na)/N*float64(nb)/N + float64(n-na)/N*float64(n-nb)/N
	return (pa - pe) / (1 - pe)
}

func runKappa(c *Ctx, p *KappaP) {
	g := newRng(p.Seed)
	x := mat.NewDense(p.Rows, p.Cols, nil)
	for i := 0; i < p.Rows; i++ {
		for j := 0; j < p.Cols; j++ {
			x.Set(i, j, g.norm())
		}
	}
	ts := make([]*kTarget, p.Targets)
	subset := func() []int {
		var l []int
		k := g.in(1, p.Cols)
		for len(l) < k {
			v := g.n(p.Cols)
			dup := false
			for _, w := range l {
				dup = dup || w == v
			}
			if !dup {
				l = append(l, v)
			}
		}
		return l
	}
	same, near := pick(g, 0, 0, 0.05, 0.3), pick(g, 0, 0.5, 1)
	var pairA, pairB []int
	for i := range ts {
		name := fmt.Sprintf("T%03dx", i)
		switch p.Names {
		case 1:
			name = fmt.Sprintf("Lambda: %5.3e T%03dx", math.Exp(-float64(i)), i)
		case 2:
			name = fmt.Sprintf("share 10%% T%03dx", i)
		}
		t := &kTarget{id: i, name: name, x: x, slow: p.Slow}
		a, b := subset(), subset()
		if g.p(near) && len(a) > 1 {
			b = append([]int{}, a[:g.in(1, len(a)-1)]...)
		}
		kind := g.n(3)
		if g.p(same) {
			kind = 3
		}
		switch kind {
		case 3: // always the same
			t.pick = func([]int, int) []int { return a }
		case 0: // depends on the group
			t.pick = func(ix []int, _ int) []int {
				h := 0
				for _, v := range ix {
					h ^= 1 << uint(v%5)
				}
				if h%3 == 0 {
					return a
				}
				return b
			}
		default:
			t.pick = func(_ []int, k int) []int {
				if k%2 == 0 {
					return a
				}
				return b
			}
		}
		if p.Close {
			// every target gives the same pairs of selections, but for a few
			if i > 0 {
				a, b = pairA, pairB
			}
			pairA, pairB = a, b
			odd := g.n(4)
			t.pick = func(_ []int, k int) []int {
				if k%2 == 0 || k/2 < odd {
					return a
				}
				return b
			}
		}
		ts[i] = t
	}
	var hyper map[string]float64
	returned := false
	s := c.Sim()
	leaked := c.Go(s, func() {
		if p.Real {
			rows, y := p.realData()
			nd := fs.NewNormalizedData(dense(rows), y)
			corr := p.correction()
			for i := range ts {
				if p.Corr == 3 {
					corr = p.correction()
				}
				l := fs.NewPureLassoCohen()
				var t fs.CohensKappaTarget = l
				if p.Corr > 1 {
					cl := fs.NewCLassoCohen()
					cl.Eta = p.Eta
					l, t = cl.PLasso, cl
				}
				l.Dset, l.Lamb, l.Cov, l.MaxIter, l.Tol, l.Correction = nd, lambOf(i), &fs.Empirical{}, 200, 1e-6, corr
				ts[i].x = t.GetX()
				ts[i].pick = func(ix []int, _ int) []int { return t.GetSelection(ix) }
			}
		}
		if p.Warm {
			wx := mat.NewDense(p.Rows, p.Cols, nil)
			var ws []fs.CohensKappaTarget
			for i := 0; i < 1+p.Targets/2; i++ {
				ws = append(ws, &kTarget{id: 1000 + i, name: fmt.Sprintf("W%03d", i), x: wx, pick: func(_ []int, k int) []int { return []int{k % 2} }})
			}
			fs.CalculateCohenSequence(1, ws)
			s.Stdout.Reset()
		}
		targets := make([]fs.CohensKappaTarget, len(ts))
		for i := range ts {
			targets[i] = ts[i]
		}
		hyper = fs.CalculateCohenSequence(p.Samples, targets)
		returned = true
	}, true)
	if c.Failed() {
		return
	}
	if !returned {
		c.Failf("outcome", "CalculateCohenSequence did not return")
		return
	}
	if c.For("C03") {
		if len(leaked) > 0 {
			c.Failf("leak", "%d goroutines never end: %v", len(leaked), leaked)
		}
		return
	}
	if p.Targets > 16 {
		c.probe("more targets than workers")
	}
	kappa := make([]float64, len(ts))
	best := math.Inf(-1)
	nan := false
	for i, t := range ts {
		if t.bad != "" {
			c.Failf("group", "target %d: %s", i, t.bad)
			return
		}
		if len(t.calls) != 2*p.Samples {
			c.Failf("samples", "target %d of %d gets %d groups; %d samples make %d", i, len(ts), len(t.calls), p.Samples, 2*p.Samples)
			return
		}
		for k := 0; k < len(t.calls); k += 2 {
			a, b := t.calls[k], t.calls[k+1]
			seen := make([]int, p.Rows)
			for _, v := range append(append([]int{}, a...), b...) {
				if v < 0 || v >= p.Rows {
					c.Failf("group", "target %d: data point %d of %d in a group", i, v, p.Rows)
					return
				}
				seen[v]++
			}
			for v, n := range seen {
				if n != 1 {
					c.Failf("group", "target %d, sample %d: data point %d appears %d times in groups %v and %v", i, k/2, v, n, a, b)
					return
				}
			}
			if d := len(a) - len(b); d < -1 || d > 1 {
				c.Failf("group", "target %d, sample %d: groups of %d and %d", i, k/2, len(a), len(b))
				return
			}
			if p.Real && k < 4 {
				if msg := checkSelection(c, p, i, a, t.sels[k]); msg != "" {
					c.Failf("selection", "target %d, sample %d: %s", i, k/2, msg)
					return
				}
				if msg := checkSelection(c, p, i, b, t.sels[k+1]); msg != "" {
					c.Failf("selection", "target %d, sample %d: %s", i, k/2, msg)
					return
				}
			}
			kappa[i] += kappaOf(t.sels[k], t.sels[k+1], p.Cols)
		}
		kappa[i] /= float64(p.Samples)
		if math.IsNaN(kappa[i]) {
			nan = true
		} else {
			best = math.Max(best, kappa[i])
		}
	}
	c.extraHash = math.Float64bits(best)
	// what is printed
	re := regexp.MustCompile(`T(\d\d\dx).*?([-+]?(?:\d+\.\d+|NaN))\s*$`)
	for _, l := range strings.Split(s.Stdout.String(), "\n") {
		m := re.FindStringSubmatch(l)
		if m == nil {
			if strings.Contains(strings.ToLower(l), "kappa:") {
				c.Failf("report", "a kappa is printed without its target: %q", l)
				return
			}
			continue
		}
		i, _ := strconv.Atoi(m[1][:3])
		v, _ := strconv.ParseFloat(m[2], 64)
		if i >= len(kappa) {
			c.Failf("report", "unknown target printed: %q", l)
			return
		}
		if math.IsNaN(v) != math.IsNaN(kappa[i]) || math.Abs(v-kappa[i]) > 0.00051 {
			c.Failf("report", "target %d has kappa %v, printed: %q", i, kappa[i], l)
			return
		}
		c.probe("kappa printed")
	}
	if best > 1e-12 && !nan {
		id, ok := hyper["id"]
		if !ok || int(id) < 0 || int(id) >= len(ts) {
			c.Failf("best", "hyper parameters %v returned; the highest kappa is %v", hyper, best)
			return
		}
		if k := kappa[int(id)]; k < best-1e-9 {
			c.Failf("best", "the hyper parameters of target %v (kappa %v) are returned; the highest kappa is %v", id, k, best)
		}
	}
}

func (p *KappaP) realData() ([][]float64, []float64) {
	d := Data{Seed: p.Seed, N: p.Rows, F: p.Cols, True: min(2, p.Cols), Noise: 1, Scale: 1}
	return d.make()
}

// correction makes a new correction.
func (p *KappaP) correction() fs.LassoCorrection {
	switch p.Corr {
	case 1:
		return &fs.ElasticNet{Lamb: p.Eta}
	case 2, 3:
		return fs.NewCLasso(p.Cols, p.Eta)
	}
	return &fs.PureLasso{}
}

func lambOf(i int) float64 { return math.Exp(-0.4 * float64(i)) }

// checkSelection solves the lasso on the rows of a group and compares what is selected, where that is
// clear.
func checkSelection(c *Ctx, p *KappaP, i int, group []int, sel []int) (msg string) {
	rows, y := p.realData()
	full := fs.NewNormalizedData(dense(rows), append([]float64{}, y...))
	var gr [][]float64
	var gy []float64
	for _, r := range group {
		row := make([]float64, p.Cols)
		for j := range row {
			row[j] = full.X.At(r, j)
		}
		gr = append(gr, row)
		gy = append(gy, 0)
	}
	// the normalized target values, by the definition of the normalization
	mu, sd := 0.0, 0.0
	for _, v := range y {
		mu += v / float64(len(y))
	}
	for _, v := range y {
		sd += (v - mu) * (v - mu) / float64(len(y)-1)
	}
	for k, r := range group {
		gy[k] = (y[r] - mu) / math.Sqrt(sd)
	}
	nd := fs.NewNormalizedData(dense(gr), append([]float64{}, gy...))
	var beta []float64
	ps := c.Plain(1, "", nil, func() {
		beta = fs.LassoCrdDesc(nd, lambOf(i), &fs.Empirical{}, nil, 200, 1e-6, p.correction())
	})
	if ps.Outcome.Kind != "finished" {
		return ""
	}
	for _, b := range beta {
		if math.IsNaN(b) || math.IsInf(b, 0) {
			return ""
		}
	}
	in := make([]bool, p.Cols)
	for _, s := range sel {
		if s < 0 || s >= p.Cols || in[s] {
			return fmt.Sprintf("selection %v of %d features", sel, p.Cols)
		}
		in[s] = true
	}
	n := float64(len(group))
	// residual of the solution
	res := make([]float64, len(group))
	my, sy := 0.0, 0.0
	for _, v := range gy {
		my += v / n
	}
	for _, v := range gy {
		sy += (v - my) * (v - my) / (n - 1)
	}
	for k := range group {
		res[k] = (gy[k] - my) / math.Sqrt(sy)
		for j := range beta {
			res[k] -= nd.X.At(k, j) * beta[j]
		}
	}
	for j := 0; j < p.Cols; j++ {
		if math.Abs(beta[j]) > 1e-3 && !in[j] {
			return fmt.Sprintf("feature %d has coefficient %v on group %v and is not selected: %v", j, beta[j], group, sel)
		}
		grad := 0.0
		for k := range group {
			grad += nd.X.At(k, j) * res[k] / n
		}
		if beta[j] == 0 && math.Abs(grad) < 0.99*lambOf(i) && in[j] {
			return fmt.Sprintf("feature %d is not in the model of group %v and is selected: %v", j, group, sel)
		}
	}
	c.probe("lasso group")
	if p.Corr > 0 {
		c.probe("corrected lasso group")
	}
	return ""
}

func shrinkKappa(p KappaP) []KappaP {
	var out []KappaP
	add := func(f func(*KappaP)) {
		q := p
		f(&q)
		if q != p {
			out = append(out, q)
		}
	}
	if p.Targets > 1 {
		add(func(q *KappaP) { q.Targets /= 2 })
		add(func(q *KappaP) { q.Targets-- })
	}
	if p.Samples > 1 {
		add(func(q *KappaP) { q.Samples-- })
	}
	if p.Rows > 2 && !p.Real {
		add(func(q *KappaP) { q.Rows-- })
	}
	add(func(q *KappaP) { q.Real = false })
	add(func(q *KappaP) { q.Corr = 0 })
	add(func(q *KappaP) { q.Warm = false })
	add(func(q *KappaP) { q.Slow = 0 })
	add(func(q *KappaP) { q.Names = 0 })
	return out
}
