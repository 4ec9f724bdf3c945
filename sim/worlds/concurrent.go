//go:build go1.23

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	"github.com/davidkleiven/goselect/zzverif/rt"
	"gonum.org/v1/gonum/mat"
)

// JobsP is a set of calls that run at the same time on the same data.
type JobsP struct {
	Data  [2]Data   `json:"data"` // two data sets of one shape
	Tasks [][]JobP  `json:"tasks"`
	Lamb  []float64 `json:"lamb"`
	Sub   bool      `json:"sub"`
}

// JobP is a call.
type JobP struct {
	Kind string `json:"kind"`
	On   int    `json:"on"` // data set
	Seed uint64 `json:"seed"`
	Root bool   `json:"root"`
	Num  int    `json:"num"`
	Corr string `json:"corr"`
}

var jobKinds = []string{"bnb", "bnb", "sa", "thresh", "path", "path", "lars", "fit", "fit", "omp", "nested", "criteria", "power", "expanded", "brute", "kappa", "sequence", "table", "split"}

func init() {
	register("concurrent", map[string]int{"C15": 10}, genJobs, runJobs, shrinkJobs)
}

func genJobs(g *Rng, prop string) (rt.Config, *JobsP) {
	p := &JobsP{}
	for {
		d := genData(g, 3, 6)
		d.N = max(8, d.F+pick(g, 4, 6, 8, 12))
		d.Dup, d.Binary = false, false
		e := d
		e.Seed = g.next() >> 1
		if d.usable() && e.usable() && newTable(d).good && newTable(e).good {
			p.Data = [2]Data{d, e}
			break
		}
	}
	n := g.in(2, 4)
	same := g.p(0.4)
	kind := jobKinds[g.n(len(jobKinds))]
	for i := 0; i < n; i++ {
		var js []JobP
		for k := g.in(1, 2); k > 0; k-- {
			j := JobP{Kind: kind, Seed: g.next() >> 1, Root: g.p(0.3), Num: g.in(1, 4)}
			if !same {
				j.Kind = jobKinds[g.n(len(jobKinds))]
			}
			if g.p(0.3) {
				j.On = 1
			}
			j.Corr = pick(g, "pure", "elastic", "classo")
			js = append(js, j)
		}
		p.Tasks = append(p.Tasks, js)
	}
	p.Sub = g.p(0.2)
	hi := pick(g, 0.5, 1, 2)
	for _, f := range []float64{0.01, 0.05, 0.2, 1} {
		p.Lamb = append(p.Lamb, hi*f)
	}
	cfg := schedule(g, 64<<20)
	cfg.PreemptP = pick(g, 1e-4, 1e-3, 1e-3, 0.01, 0.01, 0.05)
	return cfg, p
}

// jobData is the data of one data set in the forms the calls take.
type jobData struct {
	X    mat.Matrix
	base *mat.Dense
	y    []float64
	norm *fs.NormalizedData
	dset *fs.Dataset
	lazy *fs.LazyPowerMatrix
	tab  *table
	kept []mat.Matrix // matrices and slices that the data are part of
	more [][]float64
}

// part is a slice that ends before its backing array does.
func (d *jobData) part(y []float64) []float64 {
	full := append(append([]float64{}, y...), 4321, -4321)
	d.more = append(d.more, full)
	return full[:len(y)]
}

// view is a matrix that is part of a larger one.
func (d *jobData) view(rows [][]float64) *mat.Dense {
	x := dense(rows)
	n, f := x.Dims()
	big := mat.NewDense(n+2, f+2, nil)
	for i := 0; i < n+2; i++ {
		for j := 0; j < f+2; j++ {
			big.Set(i, j, 1234)
		}
	}
	v := big.Slice(1, n+1, 1, f+1).(*mat.Dense)
	v.Copy(x)
	d.kept = append(d.kept, big)
	return v
}

func (p *JobsP) build(k int) *jobData {
	rows, y := p.Data[k].make()
	d := &jobData{base: dense(rows)}
	d.y = d.part(y)
	if p.Sub {
		d.base = d.view(rows)
	}
	d.X = d.base
	d.lazy = fs.NewLazyMatrix(d.base, 2)
	d.norm = fs.NewNormalizedData(dense(rows), d.part(y))
	names := make([]string, 0, len(rows[0])+1)
	for j := range rows[0] {
		names = append(names, fmt.Sprintf("f%d", j))
	}
	names = append(names, "y")
	d.dset = &fs.Dataset{X: dense(rows), Y: d.part(y), Names: names, TargetCol: len(names) - 1}
	if p.Sub {
		d.dset.X = d.view(rows)
	}
	return d
}

// fingerprint of everything the calls were given.
func (d *jobData) fingerprint() string {
	var b strings.Builder
	m := func(x mat.Matrix) {
		r, c := x.Dims()
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				fmt.Fprintf(&b, "%x ", math.Float64bits(x.At(i, j)))
			}
			b.WriteByte('\n')
		}
	}
	v := func(y []float64) {
		for _, x := range y {
			fmt.Fprintf(&b, "%x ", math.Float64bits(x))
		}
		b.WriteByte('\n')
	}
	b.WriteString("data matrix\n")
	m(d.X)
	b.WriteString("targets\n")
	v(d.y)
	b.WriteString("normalized matrix\n")
	m(d.norm.X)
	b.WriteString("data set\n")
	m(d.dset.X)
	v(d.dset.Y)
	fmt.Fprintf(&b, "%q %d\n", d.dset.Names, d.dset.TargetCol)
	b.WriteString("data next to those given\n")
	for _, x := range d.kept {
		m(x)
	}
	for _, y := range d.more {
		v(y)
	}
	return b.String()
}

func changed(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	section := "?"
	for i := range x {
		if strings.HasPrefix(x[i], "data") || strings.HasPrefix(x[i], "norm") || strings.HasPrefix(x[i], "targ") {
			section = x[i]
		}
		if i >= len(y) || x[i] != y[i] {
			return section
		}
	}
	return section
}

// result is what a call returned, as named lists of numbers; exact results are compared as text.
type jobResult struct {
	exact string
	nums  [][]float64
	names []string
	list  *jsonList
	done  bool
}

func (r *jobResult) add(name string, v ...float64) {
	r.names = append(r.names, name)
	r.nums = append(r.nums, append([]float64{}, v...))
}

func (r *jobResult) nodes(f int, ns []*fs.LassoLarsNode) {
	for i, n := range ns {
		full := make([]float64, f)
		for k, s := range n.Selection {
			if s >= 0 && s < f && k < len(n.Coeff) {
				full[s] += n.Coeff[k]
			}
		}
		r.add(fmt.Sprintf("node %d for %v", i, n.Lamb), append([]float64{n.Lamb}, full...)...)
	}
}

func (p *JobsP) call(j JobP, ds []*jobData) *jobResult {
	d := ds[j.On]
	f := p.Data[j.On].F
	r := &jobResult{}
	switch j.Kind {
	case "bnb":
		h := fs.NewHighscore(4)
		var sp fs.SearchProgress
		par := fs.NewSelectModelOptParams()
		if j.Root {
			g := newRng(j.Seed)
			m := make([]bool, f)
			for i := range m {
				m[i] = g.p(0.5)
			}
			par.RootModel = m
		}
		fs.SelectModel(d.X, d.y, h, &sp, par)
		l, err := listOf(h)
		if err != nil || len(l.Items) == 0 {
			r.exact = fmt.Sprintf("no list %v", err)
			break
		}
		r.list = l
		r.add("best score", l.Items[0].Score)
	case "sa":
		res := fs.SelectModelSA(d.X, d.y, 1, fs.Aicc)
		b, _ := json.Marshal(res)
		r.exact = string(b)
	case "thresh":
		t := &ThreshP{Samples: j.Num, Step: 1, MaxThr: 1}
		r.exact = fmt.Sprint(t.gridIndex(fs.L2ConsistentCovTO(d.X, j.Num, 1, 1)))
	case "path":
		var corr fs.LassoCorrection = &fs.PureLasso{}
		switch j.Corr {
		case "elastic":
			corr = &fs.ElasticNet{Lamb: 0.2}
		case "classo":
			corr = fs.NewCLasso(f, 0.1)
		}
		r.nodes(f, fs.LassoCrdDescPath(d.norm, &fs.Empirical{}, append([]float64{}, p.Lamb...), 5000, 1e-10, corr))
	case "lars":
		r.nodes(f, fs.LassoLars(d.norm, 1e-2, &fs.MorsePenroseCD{}))
	case "fit":
		g := newRng(j.Seed)
		for k := 0; k < 4*j.Num; k++ {
			m := make([]bool, f)
			any := false
			for i := range m {
				m[i] = g.p(0.5)
				any = any || m[i]
			}
			if !any {
				m[0] = true
			}
			des := fs.GetDesignMatrix(m, d.X)
			co := fs.Fit(des, d.y)
			r.add(fmt.Sprintf("coefficients of %v", m), co...)
			r.add("rss", fs.Rss(des, co, d.y))
			r.add("prediction", fs.Predict(des, co)...)
		}
	case "omp":
		res := fs.Omp(d.X, d.y, 1e-3)
		r.exact = fmt.Sprint(res.Order)
		r.add("coefficients", res.Coeff...)
	case "nested":
		if p.Data[j.On].Bias {
			return p.call(JobP{Kind: "lars", On: j.On}, ds)
		}
		res := fs.NestedLasso(d.dset, 1e-2, 0.6, &fs.MorsePenroseCD{})
		r.exact = fmt.Sprint(len(res.Paths))
		for _, q := range res.Paths {
			r.add("aicc", q.Aicc...)
			r.add("bic", q.Bic...)
			r.nodes(f, q.Nodes)
		}
	case "criteria":
		g := newRng(j.Seed)
		for k := 0; k < 4*j.Num; k++ {
			m := make([]bool, f)
			for i := range m {
				m[i] = g.p(0.5)
			}
			lo, hi := fs.BoundsAICC(m, g.n(f), d.X, d.y)
			r.add(fmt.Sprintf("bounds of %v", m), lo, hi)
		}
	case "power":
		l := fs.NewLazyMatrix(d.base, 1+j.Num%3)
		if j.Root {
			l.AddPowerSequence([]int{0, 2}, 4)
		}
		full := l.FullMatrix()
		for k := 0; k < l.NumCols(); k++ {
			r.add(fmt.Sprintf("column %d", k), mat.Col(nil, k, full)...)
		}
	case "expanded":
		if j.Root {
			for k := j.Num % d.lazy.NumCols(); k < d.lazy.NumCols(); k++ {
				r.add(fmt.Sprintf("column %d", k), d.lazy.GetCol(k)...)
			}
			break
		}
		full := d.lazy.FullMatrix()
		for k := 0; k < d.lazy.NumCols(); k++ {
			r.add(fmt.Sprintf("column %d", k), mat.Col(nil, k, full)...)
		}
	case "brute":
		h := fs.BruteForceSelect(d.base, d.y)
		r.add("number", float64(h.Len()))
		r.add("scores", h.Scores()...)
	case "kappa", "sequence":
		var ts []fs.CohensKappaTarget
		for k := 0; k < 1+j.Num%2; k++ {
			t := fs.NewPureLassoCohen()
			t.Dset = d.norm
			t.Lamb = p.Lamb[(j.Num+k)%len(p.Lamb)]
			t.Cov = &fs.Empirical{}
			t.MaxIter, t.Tol = 5000, 1e-10
			t.Correction = &fs.PureLasso{}
			if j.Corr == "classo" {
				t.Correction = fs.NewCLasso(f, 0.1)
			}
			ts = append(ts, t)
		}
		if j.Kind == "kappa" {
			for _, t := range ts {
				r.exact += fmt.Sprint(fs.GetCohensKappa(j.Num, t), " ")
			}
			break
		}
		r.exact = fmt.Sprint(fs.CalculateCohenSequence(j.Num, ts[:1]))
	case "table":
		var b bytes.Buffer
		d.dset.SaveHandle(&b)
		text := b.String()
		q := fs.ParseCSV(&b, d.dset.TargetCol)
		js, err := json.Marshal(d.dset)
		var o fs.Dataset
		if err == nil {
			err = json.Unmarshal(js, &o)
		}
		r.exact = fmt.Sprint(text, q.Names, q.TargetCol, mat.Formatted(q.X), q.Y, err, o.IsEqual(d.dset))
	case "split":
		a, b := fs.RandomRowSplit(d.X, j.Num)
		r.exact = fmt.Sprint(mat.Formatted(a), mat.Formatted(b), mat.Formatted(fs.CovarianceMatrix(a)))
	}
	r.done = true
	return r
}

func runJobs(c *Ctx, p *JobsP) {
	// each call alone
	solo := make([][]*jobResult, len(p.Tasks))
	for i, js := range p.Tasks {
		for _, j := range js {
			var r *jobResult
			var before, after string
			ps := c.Plain(c.Cfg.RandSeed, "uniform", nil, func() {
				rt.OwnStream(j.Seed)
				ds := []*jobData{p.build(0), p.build(1)}
				before = ds[0].fingerprint() + ds[1].fingerprint()
				r = p.call(j, ds)
				after = ds[0].fingerprint() + ds[1].fingerprint()
			})
			if ps.Outcome.Kind == "panic" && (strings.Contains(ps.Outcome.Msg, "Feature never included") || strings.Contains(ps.Outcome.Msg, "svd:") || strings.Contains(ps.Outcome.Msg, "No features in model") || strings.Contains(ps.Outcome.Msg, "Only the first column")) {
				c.probe("call not possible")
				return
			}
			if ps.Outcome.Kind != "finished" || r == nil || !r.done {
				c.Failf("solo", "a call of %s on its own ends with %s %s", j.Kind, ps.Outcome.Kind, ps.Outcome.Msg)
				return
			}
			if before != after {
				c.Failf("input", "a call of %s on its own changes the %s it was given", j.Kind, changed(before, after))
				return
			}
			solo[i] = append(solo[i], r)
		}
	}
	got := make([][]*jobResult, len(p.Tasks))
	var before, after string
	s := c.Sim()
	c.Go(s, func() {
		ds := []*jobData{p.build(0), p.build(1)}
		before = ds[0].fingerprint() + ds[1].fingerprint()
		var tasks []func()
		for i, js := range p.Tasks {
			i, js := i, js
			got[i] = make([]*jobResult, len(js))
			tasks = append(tasks, func() {
				for k, j := range js {
					rt.OwnStream(j.Seed)
					got[i][k] = p.call(j, ds)
				}
			})
		}
		together("job", tasks...)
		after = ds[0].fingerprint() + ds[1].fingerprint()
	}, true)
	if c.Failed() {
		return
	}
	if before != after {
		c.Failf("input", "calls of %s change the %s they were given", p.kinds(), changed(before, after))
		return
	}
	for i, js := range p.Tasks {
		for k, j := range js {
			c.probe("call " + j.Kind)
			c.compare(p, j, solo[i][k], got[i][k])
			if c.Failed() {
				return
			}
		}
	}
}

func (p *JobsP) kinds() string {
	var out []string
	for _, js := range p.Tasks {
		for _, j := range js {
			out = append(out, j.Kind)
		}
	}
	return strings.Join(out, ", ")
}

func (c *Ctx) compare(p *JobsP, j JobP, want, got *jobResult) {
	if got == nil || !got.done {
		c.Failf("outcome", "a call of %s did not return", j.Kind)
		return
	}
	if want.exact != got.exact {
		c.Failf("result", "%s returns %s; alone it returns %s (calls: %s)", j.Kind, clip(got.exact), clip(want.exact), p.kinds())
		return
	}
	if len(want.nums) != len(got.nums) {
		c.Failf("result", "%s returns %d results; alone it returns %d (calls: %s)", j.Kind, len(got.nums), len(want.nums), p.kinds())
		return
	}
	for i := range want.nums {
		if want.names[i] != got.names[i] || !closeSlice(want.nums[i], got.nums[i], 1e-6) {
			c.Failf("result", "%s: %s is %v; alone: %s is %v (calls: %s)", j.Kind, got.names[i], got.nums[i], want.names[i], want.nums[i], p.kinds())
			return
		}
	}
	if got.list != nil {
		checkGenuine(c, newTable(p.Data[j.On]), got.list, 4, "concurrent search")
	}
}

func shrinkJobs(p JobsP) []JobsP {
	var out []JobsP
	for i := range p.Tasks {
		if len(p.Tasks) > 1 {
			q := p
			q.Tasks = append(append([][]JobP{}, p.Tasks[:i]...), p.Tasks[i+1:]...)
			out = append(out, q)
		}
		for k := range p.Tasks[i] {
			if len(p.Tasks[i]) > 1 {
				q := p
				q.Tasks = append([][]JobP{}, p.Tasks...)
				q.Tasks[i] = append(append([]JobP{}, p.Tasks[i][:k]...), p.Tasks[i][k+1:]...)
				out = append(out, q)
			}
		}
	}
	for _, d := range shrinkData(p.Data[0]) {
		e := d
		e.Seed = p.Data[1].Seed
		if d.N >= 8 && d.usable() && e.usable() && newTable(e).good {
			q := p
			q.Data = [2]Data{d, e}
			out = append(out, q)
		}
	}
	if p.Sub {
		q := p
		q.Sub = false
		out = append(out, q)
	}
	return out
}
