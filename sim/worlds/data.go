//go:build go1.23

package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"

	"gonum.org/v1/gonum/mat"
)

// Data describes a data set; its numbers follow from the description.
type Data struct {
	Seed   uint64  `json:"seed"`
	N      int     `json:"n"`
	F      int     `json:"f"`
	True   int     `json:"true"` // number of features that matter
	Noise  float64 `json:"noise"`
	Scale  float64 `json:"scale"`  // of the target
	Dup    bool    `json:"dup"`    // two equal columns
	Bias   bool    `json:"bias"`   // constant first column
	Binary bool    `json:"binary"` // a two-valued column
	Corr   float64 `json:"corr"`   // correlation between columns
	Wide   int     `json:"wide"`   // orthogonal columns, the ones that matter are among the first Wide
}

func genData(g *Rng, fmin, fmax int) Data {
	d := Data{Seed: g.next() >> 1, F: g.in(fmin, fmax)}
	d.N = d.F + pick(g, 2, 3, 4, 6, 10, 20)
	d.True = g.in(0, min(d.F, 3))
	d.Noise = pick(g, 0.05, 0.3, 1, 3)
	d.Scale = pick(g, 0.01, 1, 1, 30)
	d.Dup = d.F >= 3 && g.p(0.15)
	d.Bias = g.p(0.3)
	d.Binary = g.p(0.2)
	d.Corr = pick(g, 0, 0, 0.5, 0.9)
	return d
}

func (d Data) make() (rows [][]float64, y []float64) {
	if d.Wide > 0 {
		return d.makeWide()
	}
	g := newRng(d.Seed)
	rows = make([][]float64, d.N)
	y = make([]float64, d.N)
	beta := make([]float64, d.F)
	for i := 0; i < d.True; i++ {
		beta[g.n(d.F)] = pick(g, -3.0, -1, 1, 2, 4) + 0.1*g.norm()
	}
	for i := range rows {
		r := make([]float64, d.F)
		common := g.norm()
		for j := range r {
			r[j] = math.Sqrt(1-d.Corr)*g.norm() + math.Sqrt(d.Corr)*common
		}
		if d.Binary && d.F > 3 {
			r[d.F-1] = float64(1 + (i*7+i/3)%2)
		}
		if d.Dup {
			r[d.F-1] = r[1]
		}
		if d.Bias {
			r[0] = 1
		}
		s := 0.0
		for j := range r {
			s += beta[j] * r[j]
		}
		rows[i] = r
		y[i] = (s + d.Noise*g.norm()) * d.Scale
	}
	return rows, y
}

// makeWide makes orthogonal columns, for which the best models are known however many there are. The
// noise is almost orthogonal to the columns that do not matter.
func (d Data) makeWide() (rows [][]float64, y []float64) {
	g := newRng(d.Seed)
	cols := make([][]float64, d.F+1)
	dot := func(a, b []float64) (s float64) {
		for i := range a {
			s += a[i] * b[i]
		}
		return s
	}
	for j := range cols {
		c := make([]float64, d.N)
		for i := range c {
			c[i] = g.norm()
		}
		for pass := 0; pass < 2; pass++ {
			for _, o := range cols[:j] {
				f := dot(c, o) / dot(o, o)
				for i := range c {
					c[i] -= f * o[i]
				}
			}
		}
		f := math.Sqrt(float64(d.N) / dot(c, c))
		for i := range c {
			c[i] *= f
		}
		cols[j] = c
	}
	y = make([]float64, d.N)
	for j, c := range cols {
		b := 0.003 * d.Noise * g.norm() // a column that does not matter
		if j == d.F {
			b = d.Noise // the rest
		}
		for i := range y {
			y[i] += b * d.Scale * c[i]
		}
	}
	for _, j := range d.wideCols() {
		b := pick(g, -3.0, -1, 1, 2, 4) + 0.1*g.norm()
		for i := range y {
			y[i] += b * d.Scale * cols[j][i]
		}
	}
	rows = make([][]float64, d.N)
	for i := range rows {
		rows[i] = make([]float64, d.F)
		for j := range rows[i] {
			rows[i][j] = cols[j][i]
		}
	}
	return rows, y
}

// wideCols are the columns that matter.
func (d Data) wideCols() []int {
	g := newRng(d.Seed ^ 0x77)
	var cols []int
	for len(cols) < min(d.True, d.Wide) {
		j := g.n(d.Wide)
		if !contains(cols, j) {
			cols = append(cols, j)
		}
	}
	return cols
}

func dense(rows [][]float64) *mat.Dense {
	m := mat.NewDense(len(rows), len(rows[0]), nil)
	for i, r := range rows {
		for j, v := range r {
			m.Set(i, j, v)
		}
	}
	return m
}

// ---- independent least squares (Jacobi eigenvalues of the normal equations, refined once) ----

type fit struct {
	coeff []float64
	rss   float64
	rank  int
	clear bool // the rank is beyond doubt
}

func colsOf(model uint64) []int {
	var c []int
	for j := 0; j < 64; j++ {
		if model>>uint(j)&1 == 1 {
			c = append(c, j)
		}
	}
	return c
}

func boolsOf(m uint64, f int) []bool {
	b := make([]bool, f)
	for i := range b {
		b[i] = m>>uint(i)&1 == 1
	}
	return b
}

func lsq(rows [][]float64, y []float64, cols []int) fit {
	k := len(cols)
	a := make([][]float64, k)
	for i := range a {
		a[i] = make([]float64, k)
		for j := range a[i] {
			for _, r := range rows {
				a[i][j] += r[cols[i]] * r[cols[j]]
			}
		}
	}
	val, vec := jacobi(a)
	maxv := 0.0
	for _, v := range val {
		maxv = math.Max(maxv, v)
	}
	res := fit{coeff: make([]float64, k), clear: true}
	ok := make([]bool, k)
	for i, v := range val {
		if v > 1e-7 {
			ok[i] = true
			res.rank++
			if v < 1e-5 {
				res.clear = false
			}
		} else if v > 1e-11*math.Max(1, maxv) {
			res.clear = false
		}
	}
	r := append([]float64{}, y...)
	for pass := 0; pass < 3; pass++ {
		g := make([]float64, k)
		for i := range g {
			for n, row := range rows {
				g[i] += row[cols[i]] * r[n]
			}
		}
		for e := range val {
			if !ok[e] {
				continue
			}
			p := 0.0
			for i := range g {
				p += vec[i][e] * g[i]
			}
			for i := range g {
				res.coeff[i] += vec[i][e] * p / val[e]
			}
		}
		for n, row := range rows {
			s := y[n]
			for i, c := range cols {
				s -= res.coeff[i] * row[c]
			}
			r[n] = s
		}
	}
	for _, v := range r {
		res.rss += v * v
	}
	return res
}

// jacobi returns the eigenvalues and eigenvectors (columns) of a symmetric matrix.
func jacobi(m [][]float64) ([]float64, [][]float64) {
	n := len(m)
	a := make([][]float64, n)
	v := make([][]float64, n)
	for i := range a {
		a[i] = append([]float64{}, m[i]...)
		v[i] = make([]float64, n)
		v[i][i] = 1
	}
	for sweep := 0; sweep < 60; sweep++ {
		off := 0.0
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				off += a[i][j] * a[i][j]
			}
		}
		if off < 1e-300 {
			break
		}
		for p := 0; p < n; p++ {
			for q := p + 1; q < n; q++ {
				if a[p][q] == 0 {
					continue
				}
				th := (a[q][q] - a[p][p]) / (2 * a[p][q])
				t := 1 / (math.Abs(th) + math.Sqrt(th*th+1))
				if th < 0 {
					t = -t
				}
				c := 1 / math.Sqrt(t*t+1)
				s := t * c
				for k := 0; k < n; k++ {
					x, y := a[k][p], a[k][q]
					a[k][p], a[k][q] = c*x-s*y, s*x+c*y
				}
				for k := 0; k < n; k++ {
					x, y := a[p][k], a[q][k]
					a[p][k], a[q][k] = c*x-s*y, s*x+c*y
				}
				for k := 0; k < n; k++ {
					x, y := v[k][p], v[k][q]
					v[k][p], v[k][q] = c*x-s*y, s*x+c*y
				}
			}
		}
	}
	val := make([]float64, n)
	for i := range val {
		val[i] = a[i][i]
	}
	return val, v
}

// aicc is the documented criterion.
func aicc(k, n int, rss float64) float64 {
	denum := float64(n - k - 1)
	if k >= n-1 {
		denum = 1
	}
	return 2*float64(k) + float64(n)*math.Log(rss) + float64(2*k*k+2*k)/denum
}

// table holds the exact fit of every model of a data set.
type table struct {
	rows  [][]float64
	y     []float64
	fits  map[uint64]fit
	score map[uint64]float64 // minus AICc of the models with fewer features than rows
	best  float64
	bestS []int // the best model
	lazy  map[string]fit
	good  bool // well conditioned: every rank is clear and no residual vanishes
}

func newTable(d Data) *table {
	rows, y := d.make()
	t := &table{rows: rows, y: y, fits: map[uint64]fit{}, score: map[uint64]float64{}, best: math.Inf(-1), good: true}
	if d.F > 10 || d.Wide > 0 {
		t.lazy = map[string]fit{}
		if d.Wide > 0 {
			t.bestWide(d)
		}
		return t
	}
	yy := 0.0
	for _, v := range y {
		yy += v * v
	}
	for m := uint64(1); m < 1<<uint(d.F); m++ {
		k := bits.OnesCount64(m)
		f := lsq(rows, y, colsOf(m))
		t.fits[m] = f
		if !f.clear {
			t.good = false
		}
		if k < d.N {
			if f.rss < 1e-9*yy || f.rss < 1e-10 {
				t.good = false
			}
			s := -aicc(k, d.N, f.rss)
			t.score[m] = s
			if s > t.best {
				t.best, t.bestS = s, colsOf(m)
			}
		}
	}
	return t
}

// bestWide finds the best model of orthogonal columns: the most important ones, as many as pay.
func (t *table) bestWide(d Data) {
	gain := make([]float64, d.F)
	order := make([]int, d.F)
	yy := 0.0
	for _, v := range t.y {
		yy += v * v
	}
	for j := range gain {
		order[j] = j
		s := 0.0
		for i, r := range t.rows {
			s += r[j] * t.y[i]
		}
		gain[j] = s * s / float64(d.N)
	}
	sort.Slice(order, func(a, b int) bool { return gain[order[a]] > gain[order[b]] })
	for k := 1; k <= d.F && k < d.N; k++ {
		yy -= gain[order[k-1]]
		if s := -aicc(k, d.N, yy); s > t.best {
			t.best, t.bestS = s, append([]int{}, order[:k]...)
		}
	}
	sort.Ints(t.bestS)
	_, t.best, _ = t.of(t.bestS)
}

// of returns the exact fit and score of a model given by its features; not all lists of features are
// models that can be scored. The coefficients are those of the features in ascending order.
func (t *table) of(sel []int) (fit, float64, bool) {
	s := append([]int{}, sel...)
	sort.Ints(s)
	for i, v := range s {
		if v < 0 || v >= len(t.rows[0]) || i > 0 && v == s[i-1] {
			return fit{}, 0, false
		}
	}
	if t.lazy == nil {
		var m uint64
		for _, v := range s {
			m |= 1 << uint(v)
		}
		f := t.fits[m]
		score, ok := t.score[m]
		return f, score, ok
	}
	key := fmt.Sprint(s)
	f, ok := t.lazy[key]
	if !ok {
		f = lsq(t.rows, t.y, s)
		t.lazy[key] = f
	}
	return f, -aicc(len(s), len(t.y), f.rss), len(s) > 0 && len(s) < len(t.y)
}

// isScore says whether some model has this score.
func (t *table) isScore(v float64) bool {
	if t.lazy != nil {
		return v <= t.best+t.tol()
	}
	for _, s := range t.score {
		if math.Abs(s-v) <= t.tol() {
			return true
		}
	}
	return false
}

// models is the number of models that have a score, at most.
func (t *table) models() int {
	if t.lazy != nil {
		return math.MaxInt
	}
	return len(t.score)
}

// goodData draws data sets until one is well conditioned.
func goodData(g *Rng, gen func(g *Rng) Data) Data {
	for i := 0; ; i++ {
		d := gen(g)
		if newTable(d).good {
			return d
		}
		if i > 200 {
			panic("harness: no well conditioned data set")
		}
	}
}

// tolScore is how far two computations of a score may differ.
func (t *table) tol() float64 { return 1e-6 * float64(len(t.y)+1) }

func shrinkData(d Data) []Data {
	var out []Data
	add := func(f func(*Data)) {
		e := d
		f(&e)
		if e != d && newTable(e).good {
			out = append(out, e)
		}
	}
	if d.Wide > 0 {
		add(func(e *Data) { e.True = 1 })
		add(func(e *Data) { e.F = max(e.Wide, e.F-1) })
		add(func(e *Data) { e.F = max(e.Wide, (e.F+e.Wide)/2) })
		add(func(e *Data) { e.N = max(d.F+4, d.N-1) })
		return out
	}
	if d.F > 3 {
		add(func(e *Data) { e.F--; e.True = min(e.True, e.F) })
		add(func(e *Data) { e.F = 3; e.True = min(e.True, 3) })
	}
	if d.N > d.F+2 {
		add(func(e *Data) { e.N = d.F + 2 })
		add(func(e *Data) { e.N-- })
	}
	if d.Dup {
		add(func(e *Data) { e.Dup = false })
	}
	if d.Bias {
		add(func(e *Data) { e.Bias = false })
	}
	if d.Binary {
		add(func(e *Data) { e.Binary = false })
	}
	if d.Corr != 0 {
		add(func(e *Data) { e.Corr = 0 })
	}
	if d.Scale != 1 {
		add(func(e *Data) { e.Scale = 1 })
	}
	return out
}

func closeTo(a, b, tol float64) bool {
	return math.Abs(a-b) <= tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}

func closeSlice(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !closeTo(a[i], b[i], tol) {
			return false
		}
	}
	return true
}
