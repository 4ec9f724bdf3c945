//go:build go1.23

package main

import (
	"math"

	fs "github.com/davidkleiven/goselect/featselect"
)

// problem is a lasso problem on normalized data, set up without the library.
type problem struct {
	x       [][]float64 // by column
	y       []float64
	mu, std []float64
	muY     float64
	stdY    float64
	bias    bool
	scale   float64 // of the products with the residual
	unit    bool    // the columns are taken for orthogonal
	only    []int   // features that may enter
}

func meanStd(v []float64) (float64, float64) {
	mu, s := 0.0, 0.0
	for _, x := range v {
		mu += x / float64(len(v))
	}
	for _, x := range v {
		s += (x - mu) * (x - mu)
	}
	return mu, math.Sqrt(s / float64(len(v)-1))
}

func newProblem(rows [][]float64, y []float64) *problem {
	q := &problem{scale: 1}
	norm := func(v []float64) ([]float64, float64, float64) {
		mu, std := meanStd(v)
		div := std
		if std < 1e-10 {
			div = 1
		}
		out := make([]float64, len(v))
		for i := range v {
			out[i] = (v[i] - mu) / div
		}
		return out, mu, std
	}
	q.y, q.muY, q.stdY = norm(y)
	for j := range rows[0] {
		var col []float64
		for i := range rows {
			col = append(col, rows[i][j])
		}
		x, mu, std := norm(col)
		q.x, q.mu, q.std = append(q.x, x), append(q.mu, mu), append(q.std, std)
		q.only = append(q.only, j)
	}
	q.bias = q.std[0] < 1e-10
	return q
}

// coeff is what the model of a node has on the normalized data; ok tells whether its constant term fits.
func (q *problem) coeff(n *fs.LassoLarsNode) (b []float64, ok bool) {
	b = make([]float64, len(q.x))
	for i, s := range n.Selection {
		b[s] += n.Coeff[i]
	}
	if q.bias {
		want := q.muY
		for j := 1; j < len(b); j++ {
			want -= b[j] * q.mu[j]
		}
		if !closeTo(b[0], want, 1e-6) {
			return nil, false
		}
		b[0] = 0
	}
	for j := range b {
		if j > 0 || !q.bias {
			b[j] *= q.std[j] / q.stdY
		}
	}
	return b, true
}

// gradient is the product of every column with what the model leaves.
func (q *problem) gradient(b []float64) []float64 {
	r := append([]float64{}, q.y...)
	for j, v := range b {
		if v == 0 || q.unit {
			continue
		}
		for i := range r {
			r[i] -= v * q.x[j][i]
		}
	}
	g := make([]float64, len(b))
	for j := range g {
		for i := range r {
			g[j] += q.x[j][i] * r[i]
		}
		g[j] *= q.scale
		if q.unit {
			g[j] -= b[j]
		}
	}
	return g
}

// violation is how far a model is from being the lasso's for the value lamb.
func (q *problem) violation(b []float64, lamb float64) float64 {
	g := q.gradient(b)
	may := make([]bool, len(b))
	for _, j := range q.only {
		may[j] = true
	}
	worst := 0.0
	for j := range g {
		d := 0.0
		switch {
		case !may[j]:
			d = math.Abs(b[j])
		case b[j] > 1e-7:
			d = math.Abs(g[j] - lamb)
		case b[j] < -1e-7:
			d = math.Abs(g[j] + lamb)
		default:
			d = math.Abs(g[j]) - lamb
		}
		worst = math.Max(worst, d)
	}
	return worst
}

// solve finds the lasso model for the value lamb, if it can.
func (q *problem) solve(b []float64, lamb float64) ([]float64, bool) {
	b = append([]float64{}, b...)
	r := append([]float64{}, q.y...)
	for j, v := range b {
		for i := range r {
			r[i] -= v * q.x[j][i]
		}
	}
	for sweep := 0; sweep < 5000; sweep++ {
		change := 0.0
		for _, j := range q.only {
			xx, xr := 0.0, 0.0
			for i := range r {
				xx += q.x[j][i] * q.x[j][i]
				xr += q.x[j][i] * r[i]
			}
			if xx < 1e-9 {
				continue
			}
			xr += xx * b[j]
			v := 0.0
			if xr > lamb {
				v = (xr - lamb) / xx
			} else if xr < -lamb {
				v = (xr + lamb) / xx
			}
			if v != b[j] {
				for i := range r {
					r[i] -= (v - b[j]) * q.x[j][i]
				}
				change = math.Max(change, math.Abs(v-b[j]))
				b[j] = v
			}
		}
		if change < 1e-14 {
			break
		}
	}
	return b, q.violation(b, lamb) < 1e-8
}

// checkModels tells whether every node of a path is the lasso's model for its value.
func (q *problem) checkModels(c *Ctx, what string, nodes []*fs.LassoLarsNode, tol float64) (all [][]float64) {
	for i, n := range nodes {
		if n == nil || len(n.Selection) != len(n.Coeff) {
			c.Failf("content", "%s: node %d is %v", what, i, n)
			return nil
		}
		for _, s := range n.Selection {
			if s < 0 || s >= len(q.x) {
				c.Failf("content", "%s: node %d selects %v", what, i, n.Selection)
				return nil
			}
		}
		b, ok := q.coeff(n)
		if !ok {
			c.Failf("content", "%s: the constant term of node %d, %v with %v, is not that of the data", what, i, n.Selection, n.Coeff)
			return nil
		}
		if v := q.violation(b, n.Lamb); v > tol {
			c.Failf("content", "%s: node %d, %v with %v, is not the lasso's model for %v: off by %v", what, i, n.Selection, n.Coeff, n.Lamb, v)
			return nil
		}
		all = append(all, b)
	}
	return all
}

// checkLars tells whether a path has a node at every value down to lmin where the set of features changes.
func (q *problem) checkLars(c *Ctx, what string, nodes []*fs.LassoLarsNode, lmin float64) {
	const tol = 1e-5
	all := q.checkModels(c, what, nodes, tol)
	if c.Failed() {
		return
	}
	first := 0.0
	g := q.gradient(make([]float64, len(q.x)))
	for _, j := range q.only {
		first = math.Max(first, math.Abs(g[j]))
	}
	if first < lmin {
		return
	}
	if len(nodes) == 0 || !closeTo(nodes[0].Lamb, first, 1e-6) {
		c.Failf("content", "%s: it does not begin at %v: %d nodes", what, first, len(nodes))
		return
	}
	between := func(i int, b []float64, lamb float64) bool {
		m := make([]float64, len(b))
		for j := range m {
			m[j] = (all[i][j] + b[j]) / 2
		}
		if v := q.violation(m, (nodes[i].Lamb+lamb)/2); v > tol {
			c.Failf("content", "%s: nodes are missing between %v and %v: off by %v", what, nodes[i].Lamb, lamb, v)
			return false
		}
		return true
	}
	for i := 1; i < len(all); i++ {
		if nodes[i].Lamb > nodes[i-1].Lamb+1e-9 {
			c.Failf("content", "%s: node %d is for %v, that before for %v", what, i, nodes[i].Lamb, nodes[i-1].Lamb)
			return
		}
		if !between(i-1, all[i], nodes[i].Lamb) {
			return
		}
	}
	last := len(all) - 1
	if end, ok := q.solve(all[last], lmin); ok && nodes[last].Lamb > lmin {
		if between(last, end, lmin) {
			c.probe("path complete to its end")
		}
	}
}
