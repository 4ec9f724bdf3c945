//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"

	fs "github.com/davidkleiven/goselect/featselect"
	"github.com/davidkleiven/goselect/zzverif/rt"
)

// SharedP is a highscore list or a progress record shared between goroutines.
type SharedP struct {
	Seed     uint64 `json:"seed"`
	Clients  int    `json:"clients"`
	Ops      int    `json:"ops"`
	MaxItems int    `json:"max_items"`
	Ties     bool   `json:"ties"`
	Neg      bool   `json:"neg"`
	Pre      int    `json:"pre"`    // models inserted before the clients start
	Values   int    `json:"values"` // kind of scores and counts
}

func init() {
	register("hslist", map[string]int{"C06": 10}, genShared, runHslist, shrinkShared)
	register("progress", map[string]int{"C05": 3}, genShared, runProgress, shrinkShared)
}

func genShared(g *Rng, prop string) (rt.Config, *SharedP) {
	p := &SharedP{Seed: g.next() >> 1, Clients: g.in(2, 4), Ops: g.in(2, 8), MaxItems: pick(g, 1, 2, 2, 3, 4, 6, 20)}
	p.Ties = g.p(0.2)
	p.Neg = g.p(0.5)
	if g.p(0.25) {
		p.Pre = g.in(1, 40)
		p.MaxItems = pick(g, 1, 2, 3, 8, 20, 30, 50)
	}
	if g.p(0.4) {
		p.Values = g.in(1, 4)
	}
	cfg := schedule(g, 1<<20)
	cfg.PreemptP = pick(g, 0.01, 0.05, 0.2, 0.5)
	return cfg, p
}

// score turns a whole number into one of the kind of scores the run uses; the order may be reversed.
func (p *SharedP) score(n float64) float64 {
	if p.Neg {
		n = -n
	}
	switch p.Values {
	case 1: // hardly different
		return 7 + n*1e-12
	case 2: // very large
		return n * 1.1e296
	case 3: // of both signs, and zero
		return n - math.Copysign(30, n)
	case 4: // very small
		return n * 1e-300
	}
	return n
}

// hop is one operation of a client in a history.
type hop struct {
	client    int
	call, ret uint64
	kind      string
	id        int     // inserted node, or update set
	score     float64 // inserted score, or best score read
	n         int
	scores    []float64
	ids       []int
	log2      float64
}

func (o hop) String() string {
	switch o.kind {
	case "insert":
		return fmt.Sprintf("client %d [%d,%d] insert %d (score %v)", o.client, o.call, o.ret, o.id, o.score)
	case "len":
		return fmt.Sprintf("client %d [%d,%d] Len = %d", o.client, o.call, o.ret, o.n)
	case "best":
		return fmt.Sprintf("client %d [%d,%d] BestScore = %v", o.client, o.call, o.ret, o.score)
	case "scores":
		return fmt.Sprintf("client %d [%d,%d] Scores = %v", o.client, o.call, o.ret, o.scores)
	case "json":
		return fmt.Sprintf("client %d [%d,%d] JSON = %v %v", o.client, o.call, o.ret, o.ids, o.scores)
	case "set":
		return fmt.Sprintf("client %d [%d,%d] set %d", o.client, o.call, o.ret, o.id)
	case "get":
		return fmt.Sprintf("client %d [%d,%d] get = %v %d %v", o.client, o.call, o.ret, o.score, o.n, o.log2)
	}
	return "?"
}

// linearizable searches an order of the operations that respects real time and the model.
// The model's state is the set of operations done so far and the last update.
func linearizable(ops []hop, ok func(done uint64, last int, o hop) bool, writes func(o hop) bool) bool {
	type key struct {
		done uint64
		last int
	}
	seen := map[key]bool{}
	all := uint64(1)<<uint(len(ops)) - 1
	var try func(done uint64, last int) bool
	try = func(done uint64, last int) bool {
		if done == all {
			return true
		}
		k := key{done, last}
		if seen[k] {
			return false
		}
		seen[k] = true
		// the first return among the operations left bounds which may come next
		minRet := uint64(math.MaxUint64)
		for i, o := range ops {
			if done>>uint(i)&1 == 0 && o.ret < minRet {
				minRet = o.ret
			}
		}
		for i, o := range ops {
			if done>>uint(i)&1 == 1 || o.call > minRet {
				continue
			}
			if !ok(done, last, o) {
				continue
			}
			l := last
			if writes(o) {
				l = i
			}
			if try(done|1<<uint(i), l) {
				return true
			}
		}
		return false
	}
	return try(0, -1)
}

func historyString(ops []hop) string {
	sort.Slice(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	s := ""
	for _, o := range ops {
		s += "\n  " + o.String()
	}
	return s
}

func runHslist(c *Ctx, p *SharedP) {
	g := newRng(p.Seed)
	scores := map[int]float64{}
	var plans [][]hop
	id := 1
	used := map[float64]bool{}
	for k := 0; k < p.Clients; k++ {
		var plan []hop
		for i := 0; i < p.Ops; i++ {
			o := hop{client: k}
			switch g.n(8) {
			case 0:
				o.kind = "len"
			case 1:
				o.kind = "best"
			case 2:
				o.kind = "scores"
			case 3:
				o.kind = "json"
			default:
				o.kind, o.id = "insert", id
				sc := float64(g.in(1, 60))
				for used[sc] && !(p.Ties && g.p(0.7)) {
					sc = float64(g.in(1, 1000))
				}
				used[sc] = true
				o.score = p.score(sc)
				scores[id] = o.score
				id++
			}
			plan = append(plan, o)
		}
		plans = append(plans, plan)
	}
	var pre []hop // done before, in this order
	for i := 0; i < p.Pre; i++ {
		o := hop{kind: "insert", id: id, score: p.score(float64(g.in(1, 200)))}
		scores[id] = o.score
		id++
		pre = append(pre, o)
	}
	node := func(o hop) *fs.Node {
		m := make([]bool, 10)
		for b := range m {
			m[b] = o.id>>uint(b)&1 == 1
		}
		n := fs.NewNode(10, m)
		n.Score = o.score
		return n
	}
	var ops []hop
	s := c.Sim()
	c.Go(s, func() {
		h := fs.NewHighscore(p.MaxItems)
		for _, o := range pre {
			h.Insert(node(o))
		}
		var clients []func()
		for k := range plans {
			k := k
			clients = append(clients, func() {
				for _, o := range plans[k] {
					var n *fs.Node
					if o.kind == "insert" {
						n = node(o)
					}
					o.call = rt.Now()
					switch o.kind {
					case "insert":
						h.Insert(n)
					case "len":
						o.n = h.Len()
					case "best":
						o.score = h.BestScore()
					case "scores":
						o.scores = append([]float64{}, h.Scores()...)
					case "json":
						l, err := listOf(h)
						if err != nil {
							rt.Fail("json", "reading the list fails: %v", err)
						}
						if l.MaxItems != p.MaxItems {
							rt.Fail("json", "the list says it holds %d items, not %d", l.MaxItems, p.MaxItems)
						}
						for _, it := range l.Items {
							if it == nil {
								rt.Fail("json", "empty entry")
							}
							o.ids = append(o.ids, int(it.model()))
							o.scores = append(o.scores, it.Score)
						}
					}
					o.ret = rt.Now()
					ops = append(ops, o)
				}
			})
		}
		together("client", clients...)
	}, true)
	if c.Failed() {
		return
	}
	if len(ops) != p.Clients*p.Ops {
		c.Failf("outcome", "%d of %d operations ended", len(ops), p.Clients*p.Ops)
		return
	}
	lo := max(1, p.MaxItems-1)
	ok := func(done uint64, _ int, o hop) bool {
		if o.kind == "insert" {
			return true
		}
		var in []float64
		ids := map[int]bool{}
		for _, q := range pre {
			in = append(in, q.score)
			ids[q.id] = true
		}
		for i, q := range ops {
			if done>>uint(i)&1 == 1 && q.kind == "insert" {
				in = append(in, q.score)
				ids[q.id] = true
			}
		}
		sort.Sort(sort.Reverse(sort.Float64Slice(in)))
		size := func(n int) bool { return n <= min(len(in), p.MaxItems) && n >= min(len(in), lo) }
		switch o.kind {
		case "len":
			return size(o.n)
		case "best":
			return (len(in) == 0 && o.score == 0) || (len(in) > 0 && o.score == in[0])
		}
		if !size(len(o.scores)) {
			return false
		}
		for i, v := range o.scores {
			if v != in[i] {
				return false
			}
		}
		if o.kind == "json" {
			for i, x := range o.ids {
				if !ids[x] || scores[x] != o.scores[i] {
					return false
				}
				delete(ids, x)
			}
		}
		return true
	}
	if !linearizable(ops, ok, func(hop) bool { return false }) {
		c.Failf("history", "no order of the operations explains this history of a list of size %d:%s", p.MaxItems, historyString(ops))
	}
	for i := range ops {
		for j := range ops {
			if ops[i].client < ops[j].client && ops[i].call < ops[j].ret && ops[j].call < ops[i].ret {
				c.probe("overlapping operations")
				return
			}
		}
	}
}

func runProgress(c *Ctx, p *SharedP) {
	g := newRng(p.Seed)
	var plans [][]hop
	id := 1
	writers := g.in(1, p.Clients)
	for k := 0; k < p.Clients; k++ {
		var plan []hop
		for i := 0; i < p.Ops; i++ {
			o := hop{client: k, kind: "get"}
			if k < writers && g.p(0.6) {
				o.kind, o.id = "set", id
				id++
			}
			plan = append(plan, o)
		}
		plans = append(plans, plan)
	}
	val := func(id int) (float64, int, float64) {
		switch p.Values {
		case 1: // only the count tells the updates apart
			return -3.1, id, 0.7
		case 2: // large, and not exact in single precision
			return -0.1 * float64(id) * 1e200, id + 1<<40, 1.1e9 + 0.1*float64(id)
		case 3: // everything decreases
			return -float64(id) / 3, 1000 - id, 100 - float64(id)/7
		case 4: // only the score
			return 1e-300 * float64(id), 5, 0
		}
		return float64(id) + 0.25, id, float64(id) + 0.5
	}
	var ops []hop
	s := c.Sim()
	c.Go(s, func() {
		var sp fs.SearchProgress
		var clients []func()
		for k := range plans {
			k := k
			clients = append(clients, func() {
				for _, o := range plans[k] {
					o.call = rt.Now()
					if o.kind == "set" {
						sp.Set(val(o.id))
					} else {
						o.score, o.n, o.log2 = sp.Get()
					}
					o.ret = rt.Now()
					ops = append(ops, o)
				}
			})
		}
		together("client", clients...)
	}, true)
	if c.Failed() {
		return
	}
	if len(ops) != p.Clients*p.Ops {
		c.Failf("outcome", "%d of %d operations ended", len(ops), p.Clients*p.Ops)
		return
	}
	ok := func(_ uint64, last int, o hop) bool {
		if o.kind == "set" {
			return true
		}
		if last < 0 {
			return o.score == 0 && o.n == 0 && o.log2 == 0
		}
		a, b, l := val(ops[last].id)
		return o.score == a && o.n == b && o.log2 == l
	}
	if !linearizable(ops, ok, func(o hop) bool { return o.kind == "set" }) {
		c.Failf("history", "no order of the operations explains this history:%s", historyString(ops))
	}
}

func shrinkShared(p SharedP) []SharedP {
	var out []SharedP
	add := func(f func(*SharedP)) {
		q := p
		f(&q)
		if q != p {
			out = append(out, q)
		}
	}
	if p.Ops > 1 {
		add(func(q *SharedP) { q.Ops-- })
	}
	if p.Clients > 2 {
		add(func(q *SharedP) { q.Clients-- })
	}
	if p.Pre > 0 {
		add(func(q *SharedP) { q.Pre-- })
		add(func(q *SharedP) { q.Pre = 0 })
	}
	add(func(q *SharedP) { q.Values = 0 })
	add(func(q *SharedP) { q.Ties = false })
	add(func(q *SharedP) { q.Neg = false })
	return out
}

// SaP is a search by simulated annealing.
type SaP struct {
	Data   Data    `json:"data"`
	Sweeps int     `json:"sweeps"`
	Again  bool    `json:"again"` // repeat it with the same stream
	Crit   string  `json:"crit"`
	Scale  float64 `json:"scale"`
	Warm   bool    `json:"warm"` // other data of the same shape are searched first
}

func init() {
	register("sa", map[string]int{"C14": 10}, genSa, runSa, shrinkSa)
}

func genSa(g *Rng, prop string) (rt.Config, *SaP) {
	p := &SaP{}
	p.Data = goodData(g, func(g *Rng) Data {
		d := genData(g, 2, 7)
		d.N = pick(g, 4, 5, 6, 8, 10, 12, 16, 20)
		if d.N <= 5 {
			d.Dup, d.Bias, d.Binary, d.F = false, false, false, min(d.F, 5)
		}
		if g.p(0.02) {
			d.F = g.in(11, 30)
			d.N = g.in(8, 60)
			d.Dup, d.Binary = false, false
		}
		if g.p(0.03) {
			d.F, d.True, d.Dup = 1, min(d.True, 1), false
		}
		return d
	})
	p.Sweeps = pick(g, 1, 1, 2, 3, 5)
	if g.p(0.03) {
		p.Sweeps = g.in(6, 40)
	}
	p.Again = g.p(0.5)
	p.Warm = !p.Again && g.p(0.15)
	p.Crit = pick(g, "aicc", "aicc", "bic", "rss")
	cfg := schedule(g, 256<<20)
	cfg.PreemptP = pick(g, 0, 1e-4, 1e-3)
	cfg.RandMode = pick(g, "uniform", "uniform", "sticky", "extreme", "mixed", "low", "high")
	return cfg, p
}

func (p *SaP) crit(k, n int, rss float64) float64 {
	switch p.Crit {
	case "bic":
		return fs.Bic(k, n, rss)
	case "rss":
		return rss
	}
	return fs.Aicc(k, n, rss)
}

func runSa(c *Ctx, p *SaP) {
	rows, y := p.Data.make()
	t := newTable(p.Data)
	best := math.Inf(1)
	evals := 0
	var res *fs.SARes
	search := func() {
		best, evals, res = math.Inf(1), 0, nil
		res = fs.SelectModelSA(dense(rows), append([]float64{}, y...), p.Sweeps, func(k, n int, rss float64) float64 {
			v := p.crit(k, n, rss)
			best = math.Min(best, v)
			evals++
			return v
		})
	}
	s := c.Sim()
	c.Go(s, func() {
		if p.Warm {
			other := p.Data
			other.Seed ^= 0x5555
			wr, wy := other.make()
			fs.SelectModelSA(dense(wr), wy, 1, p.crit)
		}
		search()
	}, true)
	if c.Failed() {
		return
	}
	if res == nil {
		c.Failf("outcome", "no result")
		return
	}
	b, _ := json.Marshal(res)
	c.extraHash = hashString(string(b))
	score := func(sel []int) float64 {
		f, _, _ := t.of(sel)
		return -p.crit(len(sel), len(y), f.rss)
	}
	legal := func(what string, sel []int, coeff []float64) (string, bool) {
		for i, v := range sel {
			if v < 0 || v >= p.Data.F || contains(sel[:i], v) {
				c.Failf("model", "%s is %v", what, sel)
				return "", false
			}
		}
		if len(sel) == 0 || len(sel) >= len(y)/2 {
			c.Failf("model", "%s has %d features with %d data points", what, len(sel), len(y))
			return "", false
		}
		// coefficients belong to the features in the order listed
		cols := append([]int{}, sel...)
		sort.Ints(cols)
		exact, _, _ := t.of(sel)
		pos := map[int]float64{}
		for i, f := range cols {
			pos[f] = exact.coeff[i]
		}
		want := make([]float64, len(sel))
		for i, f := range sel {
			want[i] = pos[f]
		}
		if !closeSlice(want, coeff, 1e-5) {
			c.Failf("coeff", "%s, %v, has coefficients %v; they are %v", what, sel, coeff, want)
			return "", false
		}
		return fmt.Sprint(cols), true
	}
	if _, ok := legal("the selected model", res.Selected, res.Coeff); !ok {
		return
	}
	if res.Scores == nil || len(res.Scores.Items) == 0 {
		c.Failf("list", "empty highscore list")
		return
	}
	if len(res.Scores.Items) > res.Scores.Cap {
		c.Failf("list", "%d entries in a list of %d", len(res.Scores.Items), res.Scores.Cap)
	}
	seen := map[string]bool{}
	top := math.Inf(-1)
	tol := 1e-6 * (1 + math.Abs(best))
	for i, it := range res.Scores.Items {
		if it == nil {
			c.Failf("list", "entry %d is empty", i)
			return
		}
		m, ok := legal(fmt.Sprintf("entry %d", i), it.Selection, it.Coeff)
		if !ok {
			return
		}
		if seen[m] {
			c.Failf("list", "model %v appears twice", it.Selection)
			return
		}
		seen[m] = true
		if w := score(it.Selection); math.Abs(w-it.Score) > 1e-6*(1+math.Abs(w)) {
			c.Failf("score", "entry %d, %v, has score %v; it is %v", i, it.Selection, it.Score, w)
			return
		}
		top = math.Max(top, it.Score)
	}
	if math.Abs(top+best) > tol {
		c.Failf("best", "the best entry scores %v; the best score encountered is %v", top, -best)
		return
	}
	if bi := res.Scores.BestItem; bi != nil {
		if _, ok := legal("the best item", bi.Selection, bi.Coeff); !ok {
			return
		}
		if w := score(bi.Selection); math.Abs(w-bi.Score) > 1e-6*(1+math.Abs(w)) || math.Abs(bi.Score+best) > tol {
			c.Failf("best", "the best item %v scores %v, listed with %v; the best score encountered is %v", bi.Selection, w, bi.Score, -best)
			return
		}
	}
	if len(res.Scores.Items) == res.Scores.Cap {
		c.probe("full list")
	}
	if p.Again {
		first := b
		ps := c.Plain(c.Cfg.RandSeed, c.Cfg.RandMode, nil, search)
		if ps.Outcome.Kind != "finished" {
			c.Failf("repeat", "the repetition ends with %s %s", ps.Outcome.Kind, ps.Outcome.Msg)
			return
		}
		b, _ := json.Marshal(res)
		if string(b) != string(first) {
			c.Failf("repeat", "the same stream gives %s, then %s", first, b)
		}
	}
}

func shrinkSa(p SaP) []SaP {
	var out []SaP
	for _, d := range shrinkData(p.Data) {
		q := p
		q.Data = d
		out = append(out, q)
	}
	add := func(f func(*SaP)) {
		q := p
		f(&q)
		if q != p {
			out = append(out, q)
		}
	}
	if p.Sweeps > 1 {
		add(func(q *SaP) { q.Sweeps = 1 })
	}
	add(func(q *SaP) { q.Again = false })
	add(func(q *SaP) { q.Crit = "aicc" })
	return out
}
