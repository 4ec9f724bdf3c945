//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"

	fs "github.com/davidkleiven/goselect/featselect"
	"github.com/davidkleiven/goselect/zzverif/rt"
	"gonum.org/v1/gonum/mat"
)

// BnbP is a branch and bound search through the library.
type BnbP struct {
	Data     Data    `json:"data"`
	Root     string  `json:"root"` // none, random, optimum, full, near
	RootSeed uint64  `json:"root_seed"`
	MaxItems int     `json:"max_items"`
	MaxQueue int     `json:"max_queue"` // 0: default, -1: none
	Cutoff   float64 `json:"cutoff"`
	NoParams bool    `json:"no_params"`
	Readers  int     `json:"readers"`
	Reads    int     `json:"reads"`
	Sub      bool    `json:"sub"`  // the matrix is a view of a larger one
	Warm     bool    `json:"warm"` // other data of the same shape are searched first
}

func init() {
	register("bnbapi", map[string]int{"C01": 6, "C02": 6, "C03": 3, "C04": 6, "C05": 5}, genBnb, runBnb, shrinkBnb)
}

func genBnb(g *Rng, prop string) (rt.Config, *BnbP) {
	p := &BnbP{}
	p.Data = goodData(g, func(g *Rng) Data {
		d := genData(g, 3, 6)
		if g.p(0.06) {
			d = genData(g, 7, 10)
		}
		if g.p(0.02) {
			d = Data{Seed: g.next() >> 1, F: pick(g, 11, 16, 20, 33, 40, 65, 70), Noise: pick(g, 0.3, 1), Scale: pick(g, 0.01, 1, 30)}
			d.N = d.F + g.in(4, 12)
			d.Wide = g.in(3, 6)
			d.True = g.in(1, 3)
			if d.F <= 20 {
				d.Wide, d.True = d.F, g.in(1, 2)
			}
		}
		switch prop {
		case "C01", "C02":
			if d.F <= 6 && g.p(0.2) { // fewer rows than features
				d.N = g.in(3, d.F)
				d.F = g.in(d.N, 6)
				d.Dup, d.Bias = false, false
			}
		}
		return d
	})
	p.Root = pick(g, "none", "none", "random", "optimum", "near", "full")
	if p.Data.Wide > 0 {
		p.Root = pick(g, "optimum", "near")
		if p.Data.Wide <= 6 && g.p(0.5) {
			p.Root = "none"
		}
	}
	p.RootSeed = g.next() >> 1
	p.MaxItems = pick(g, 1, 2, 3, 5, 10, 10, 100)
	p.NoParams = p.Root == "none" && g.p(0.3)
	p.Sub = g.p(0.2)
	p.Warm = p.Data.F <= 6 && g.p(0.1)
	switch prop {
	case "C01":
		if !p.NoParams && g.p(0.2) {
			p.Cutoff = pick(g, 0.5, 3, 20)
		}
		if !p.NoParams && g.p(0.2) && p.Data.F < 20 {
			p.MaxQueue = 2 << p.Data.F // more than the queue can hold
		}
	case "C02", "C03":
		if !p.NoParams && g.p(0.4) {
			p.MaxQueue = pick(g, -1, g.in(1, 12))
		}
	case "C04":
		p.NoParams = false
		if p.Root == "none" {
			p.Root = "random"
			if p.Data.Wide > 0 {
				p.Root = "optimum"
			}
		}
		p.MaxQueue = pick(g, -1, 1, 2, 3, 5, 8, 20)
		if g.p(0.7) {
			p.Readers, p.Reads = 1, g.in(2, 8)
		}
	case "C05":
		p.Readers, p.Reads = g.in(1, 3), g.in(2, 12)
	}
	cfg := schedule(g, 2<<20)
	if p.Data.Wide > 0 {
		cfg.StepLimit = 160 << 20
	}
	return cfg, p
}

func (p *BnbP) rootModel(t *table) []bool {
	g := newRng(p.RootSeed)
	f := p.Data.F
	legal := func(m uint64) bool { _, ok := t.score[m]; return ok }
	switch p.Root {
	case "none":
		return nil
	case "optimum":
		return boolsWith(t.bestS, f)
	case "near":
		for {
			m := boolsWith(t.bestS, f)
			i := g.n(f)
			if m[i] && p.Data.Wide > 6 {
				continue // without it the search explores all subtrees of the levels before
			}
			m[i] = !m[i]
			if _, _, ok := t.of(selected(m)); ok {
				return m
			}
			if len(selected(m)) == 0 {
				return boolsWith(t.bestS, f)
			}
		}
	case "full":
		m := uint64(1)<<uint(f) - 1
		for !legal(m) {
			m &= m - 1
		}
		return boolsOf(m, f)
	}
	for {
		m := 1 + g.next()%(1<<uint(f)-1)
		if legal(m) {
			return boolsOf(m, f)
		}
	}
}

type jsonNode struct {
	Selected []int     `json:"selected"`
	Tot      int       `json:"totNumFeatures"`
	Score    float64   `json:"score"`
	Level    int       `json:"level"`
	Coeff    []float64 `json:"coeff"`
}

type jsonList struct {
	MaxItems int         `json:"maxItems"`
	Items    []*jsonNode `json:"items"`
}

// key names the model of the node.
func (n *jsonNode) key() string {
	s := append([]int{}, n.Selected...)
	sort.Ints(s)
	return fmt.Sprint(s)
}

func boolsWith(sel []int, f int) []bool {
	b := make([]bool, f)
	for _, v := range sel {
		b[v] = true
	}
	return b
}

func selected(b []bool) []int {
	var s []int
	for i, v := range b {
		if v {
			s = append(s, i)
		}
	}
	return s
}

func (n *jsonNode) model() uint64 {
	var m uint64
	for _, s := range n.Selected {
		m |= 1 << uint(s)
	}
	return m
}

func listOf(h *fs.Highscore) (*jsonList, error) {
	b, err := json.Marshal(h)
	if err != nil {
		return nil, err
	}
	var l jsonList
	if err := json.Unmarshal(b, &l); err != nil {
		return nil, err
	}
	return &l, nil
}

// checkGenuine is the C02 oracle on a list.
func checkGenuine(c *Ctx, t *table, l *jsonList, maxItems int, what string) {
	if l.MaxItems != maxItems {
		c.Failf("size", "%s: list says maxItems %d, not %d", what, l.MaxItems, maxItems)
	}
	if len(l.Items) > maxItems {
		c.Failf("size", "%s: %d entries in a list of size %d", what, len(l.Items), maxItems)
	}
	seen := map[string]bool{}
	for i, n := range l.Items {
		if n == nil {
			c.Failf("entry", "%s: entry %d is empty", what, i)
			return
		}
		m := n.key()
		if i > 0 && l.Items[i-1] != nil && l.Items[i-1].Score < n.Score {
			c.Failf("order", "%s: entry %d (score %v) is better than the entry before it (%v)", what, i, n.Score, l.Items[i-1].Score)
		}
		if seen[m] {
			c.Failf("duplicate", "%s: model %v appears twice", what, n.Selected)
		}
		seen[m] = true
		if len(n.Selected) == 0 {
			continue
		}
		f, want, ok := t.of(n.Selected)
		if !ok {
			c.Failf("entry", "%s: model %v has as many features as data points", what, n.Selected)
			continue
		}
		if n.Tot != len(t.rows[0]) {
			c.Failf("entry", "%s: model %v says %d features in total, not %d", what, n.Selected, n.Tot, len(t.rows[0]))
		}
		if math.Abs(want-n.Score) > t.tol() {
			c.Failf("score", "%s: model %v has score %v, listed with %v", what, n.Selected, want, n.Score)
		}
		if !closeSlice(f.coeff, n.Coeff, 1e-5) {
			c.Failf("coeff", "%s: model %v has coefficients %v, listed with %v", what, n.Selected, f.coeff, n.Coeff)
		}
	}
}

func runBnb(c *Ctx, p *BnbP) {
	t := newTable(p.Data)
	X := dense(t.rows)
	var Xm mat.Matrix = X
	if p.Sub {
		big := mat.NewDense(p.Data.N+2, p.Data.F+2, nil)
		v := big.Slice(1, p.Data.N+1, 1, p.Data.F+1).(*mat.Dense)
		v.Copy(X)
		Xm = v
	}
	y := append([]float64{}, t.y...)
	root := p.rootModel(t)
	var h *fs.Highscore
	var sp fs.SearchProgress
	s := c.Sim()
	type prog struct {
		at    uint64
		score float64
		num   int
		log2  float64
	}
	reads := make([][]prog, p.Readers)
	var lists []*jsonList
	returned := false
	warm := 0
	leaked := c.Go(s, func() {
		if p.Warm {
			other := p.Data
			other.Seed = p.Data.Seed ^ 0x5555
			wr, wy := other.make()
			var wsp fs.SearchProgress
			fs.SelectModel(dense(wr), wy, fs.NewHighscore(p.MaxItems), &wsp, nil)
			warm = s.Stdout.Len()
		}
		h = fs.NewHighscore(p.MaxItems)
		var params *fs.SelectModelOptParams
		if !p.NoParams {
			params = fs.NewSelectModelOptParams()
			params.Cutoff = p.Cutoff
			if root != nil {
				params.RootModel = append([]bool{}, root...)
			}
			if p.MaxQueue != 0 {
				params.MaxQueueSize = max(p.MaxQueue, 0)
			}
		}
		over := false
		for r := 0; r < p.Readers; r++ {
			r := r
			rt.GoNamed("reader", func() {
				for k := 0; k < p.Reads && !over; k++ {
					if c.For("C04") {
						l, err := listOf(h)
						if err != nil {
							c.Failf("json", "the list cannot be read during the search: %v", err)
							return
						}
						lists = append(lists, l)
					} else {
						a, b, l := sp.Get()
						reads[r] = append(reads[r], prog{rt.Now(), a, b, l})
						if lb := h.BestScore(); b > 0 && lb < a-1e-9 {
							c.Failf("ahead", "after %d explored models the progress says best score %v, the list read afterwards %v", b, a, lb)
							return
						}
					}
					for j := 0; j < 50 && !over; j++ {
						rt.Yield()
					}
				}
			})
		}
		fs.SelectModel(Xm, y, h, &sp, params)
		returned = true
		over = true
	}, true)
	if c.Failed() {
		return
	}
	if !returned {
		c.Failf("outcome", "SelectModel did not return")
		return
	}
	if c.For("C03") && len(leaked) > 0 {
		c.Failf("leak", "%d goroutines never end: %v", len(leaked), leaked)
		return
	}
	l, err := listOf(h)
	if err != nil {
		c.Failf("json", "%v", err)
		return
	}
	if len(l.Items) != h.Len() {
		c.Failf("size", "Len() is %d with %d entries", h.Len(), len(l.Items))
	}
	best := math.Inf(-1)
	if len(l.Items) > 0 {
		for _, n := range l.Items {
			if n == nil {
				c.Failf("entry", "the list has an empty entry")
				return
			}
			best = math.Max(best, n.Score)
		}
	}
	c.extraHash = math.Float64bits(best)
	if p.MaxQueue != 0 && s.Stdout.Len() > warm {
		c.probe("queue limit reached")
	}
	if c.For("C01") {
		if math.Abs(h.BestScore()-best) > 0 {
			c.Failf("best", "BestScore() is %v, the best entry has %v", h.BestScore(), best)
		}
		if len(l.Items) == 0 {
			c.Failf("optimum", "empty list; the optimum %v scores %v", t.bestS, t.best)
			return
		}
		if best > t.best+t.tol() {
			c.Failf("optimum", "best score %v is better than any model's (%v)", best, t.best)
		}
		if best < t.best-p.Cutoff-t.tol() {
			c.Failf("optimum", "best reported %v scores %v; model %v scores %v (cutoff %v)", l.Items[0].Selected, best, t.bestS, t.best, p.Cutoff)
		}
		if p.Data.Wide > 0 {
			c.probe("more than ten features")
		}
		if p.Root == "optimum" {
			c.probe("start model is the optimum")
		}
		if t.best < 0 {
			c.probe("all scores negative")
		}
	}
	if c.For("C02") {
		checkGenuine(c, t, l, p.MaxItems, "after the search")
		if p.Data.N <= p.Data.F {
			c.probe("no more rows than features")
		}
	}
	if c.For("C04") {
		_, rs, _ := t.of(selected(root))
		if best < rs-t.tol() {
			c.Failf("start", "best reported scores %v, the start model %v scores %v", best, selected(root), rs)
		}
		lists = append(lists, l)
		for i := 1; i < len(lists); i++ {
			checkNoLoss(c, lists[i-1], lists[i], p.MaxItems)
		}
	}
	if c.For("C05") {
		a, num, pruned := sp.Get()
		for _, rs := range reads {
			for _, r := range rs {
				if r.num > num {
					c.Failf("backwards", "%d models are explored during the search, %d at its end", r.num, num)
				}
			}
		}
		if most := math.Log2(1 + math.Pow(2, float64(p.Data.F))); pruned > most+1e-9 {
			c.Failf("pruned", "the search ends with 2^%v pruned models of %d features", pruned, p.Data.F)
		}
		if num > t.models() {
			c.Failf("count", "%d models are explored of %d there are", num, t.models())
		}
		listed := 0
		for _, n := range l.Items {
			if len(n.Selected) > 0 {
				listed++
			}
		}
		if num < listed-1 {
			c.Failf("count", "the search ends with %d explored models, %d are listed", num, listed)
		}
		if num > 0 && a > best+1e-9 {
			c.Failf("ahead", "the search ends with best score %v, the list has %v", a, best)
		}
		if listed > 1 && a < l.Items[1].Score-1e-9 {
			c.Failf("count", "the search ends with best score %v, two listed models have %v and %v", a, l.Items[0].Score, l.Items[1].Score)
		}
		for _, rs := range reads {
			var last prog
			for i, r := range rs {
				if i > 0 && (r.num < last.num || r.log2 < last.log2-1e-9) {
					c.Failf("backwards", "progress goes from (explored %d, pruned %v) to (explored %d, pruned %v)", last.num, last.log2, r.num, r.log2)
				}
				if r.num > 0 {
					if !t.isScore(r.score) {
						c.Failf("unreal", "after %d explored models the best score is %v, which no model has", r.num, r.score)
					}
					if i > 0 && last.num > 0 && r.score < last.score-1e-9 {
						c.Failf("worse", "best score goes from %v to %v", last.score, r.score)
					}
					c.probe("progress read during the search")
				}
				last = r
			}
		}
	}
}

func (c *Ctx) probe(name string) {
	if c.Stats.Probes == nil {
		c.Stats.Probes = map[string]int{}
	}
	c.Stats.Probes[name]++
}

// checkNoLoss: a model of the earlier list is missing later only if a full list of models at least
// as good displaced it.
func checkNoLoss(c *Ctx, a, b *jsonList, maxItems int) {
	later := map[string]bool{}
	worst := math.Inf(1)
	for _, n := range b.Items {
		if n == nil {
			c.Failf("entry", "the list has an empty entry")
			return
		}
		later[n.key()] = true
		worst = math.Min(worst, n.Score)
	}
	for _, n := range a.Items {
		if n == nil || len(n.Selected) == 0 || later[n.key()] {
			continue
		}
		if len(b.Items) < maxItems-1 || worst < n.Score-1e-9 {
			c.Failf("lost", "model %v (score %v) disappears from a list that later holds %d of %d entries down to %v", n.Selected, n.Score, len(b.Items), maxItems, worst)
		}
	}
}

func shrinkBnb(p BnbP) []BnbP {
	var out []BnbP
	for _, d := range shrinkData(p.Data) {
		q := p
		q.Data = d
		out = append(out, q)
	}
	add := func(f func(*BnbP)) {
		q := p
		f(&q)
		if q != p {
			out = append(out, q)
		}
	}
	if p.Readers > 1 {
		add(func(q *BnbP) { q.Readers = 1 })
	}
	if p.Reads > 1 {
		add(func(q *BnbP) { q.Reads /= 2 })
	}
	add(func(q *BnbP) { q.Sub = false })
	add(func(q *BnbP) { q.Warm = false })
	add(func(q *BnbP) { q.MaxItems = 10 })
	if p.Root != "none" {
		add(func(q *BnbP) { q.Root = "none" })
	}
	return out
}
