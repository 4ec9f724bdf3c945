//go:build go1.23

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"strings"
	"unsafe"

	fs "github.com/davidkleiven/goselect/featselect"
	"github.com/davidkleiven/goselect/zzverif/rt"
	"gonum.org/v1/plot"
	"gonum.org/v1/plot/plotter"
	"gonum.org/v1/plot/vg"
)

// PlotP is a run of the plotlasso command.
type PlotP struct {
	Seed   uint64  `json:"seed"`
	N      int     `json:"n"`
	F      int     `json:"f"`
	Nodes  int     `json:"nodes"`
	Ext    string  `json:"ext"`
	Prefix string  `json:"prefix"`
	Cut    float64 `json:"cut"`   // the stored result ends after this part of it; 0: it is whole
	Prior  int     `json:"prior"` // size of earlier figures, 0: none
	Min    float64 `json:"coeffmin"`
	Max    float64 `json:"coeffmax"` // the range asked for, unless equal
}

func init() {
	register("plotcli", map[string]int{"C16": 10}, genPlot, runPlot, shrinkPlot)
}

var figures = []string{"entrance", "quality", "dev", "path"}

func genPlot(g *Rng, prop string) (rt.Config, *PlotP) {
	p := &PlotP{Seed: g.next(), N: g.in(3, 12), F: g.in(2, 6), Nodes: pick(g, 1, 2, 3, 5, 8, 12),
		Ext: pick(g, "svg", "svg", "svg", "svg", "svg", "png", "png", "jpg"), Prefix: pick(g, "lassofig", "/w/res/fig")}
	if g.p(0.04) {
		p.Ext = pick(g, "xyz", "gif", "")
	}
	if g.p(0.05) {
		p.Nodes = g.in(30, 120) // more than one read
	}
	if g.p(0.02) {
		p.F, p.N = g.in(7, 45), g.in(3, 50)
		p.Nodes = min(p.Nodes, 12)
	}
	if g.p(0.01) {
		p.Nodes, p.F = g.in(120, 400), 2
	}
	if g.p(0.15) {
		p.Cut = g.f() * 0.999
	}
	if g.p(0.3) {
		p.Prior = pick(g, 100, 200000)
	}
	if g.p(0.2) {
		p.Min, p.Max = pick(g, -2, -0.5, 0, 0.25), pick(g, 0.75, 1, 3)
	}
	cfg := schedule(g, 64<<20)
	if g.p(0.85) {
		cfg.FaultP = pick(g, 0.02, 0.1, 0.3, 0.7)
		cfg.Faults = pick(g, midFaults, saveFaults, saveFaults, saveFaults+","+readFaults, saveCrashes, saveCrashes+","+saveFaults, "read:short", "write:partial", "close:eio", "write:enospc,create:enospc")
		if strings.Contains(cfg.Faults, "crash") {
			cfg.MaxCrash = 1
		}
	}
	return cfg, p
}

// stored makes a lasso result.
func (p *PlotP) stored() []byte {
	g := newRng(p.Seed)
	ds := &fs.Dataset{TargetCol: p.F}
	x := make([][]float64, p.N)
	for i := range x {
		for j := 0; j < p.F; j++ {
			x[i] = append(x[i], g.norm())
		}
		ds.Y = append(ds.Y, g.norm())
	}
	ds.X = dense(x)
	for j := 0; j <= p.F; j++ {
		ds.Names = append(ds.Names, fmt.Sprintf("col%d", j))
	}
	path := fs.LassoLarsPath{Dset: ds}
	lamb := 1.0
	for k := 0; k < p.Nodes; k++ {
		n := &fs.LassoLarsNode{Lamb: lamb}
		for j := 0; j < p.F; j++ {
			if g.p(float64(k+1)/float64(p.Nodes+1)) || j == 0 {
				n.Selection = append(n.Selection, j)
				n.Coeff = append(n.Coeff, g.norm())
			}
		}
		path.LassoLarsNodes = append(path.LassoLarsNodes, n)
		lamb *= 0.3 + 0.6*g.f()
	}
	b, err := json.Marshal(&path)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

func (p *PlotP) file(i int) string { return p.Prefix + "_" + figures[i] + "." + p.Ext }

func runPlot(c *Ctx, p *PlotP) {
	var text []byte
	want := make([][]byte, len(figures))
	var rng *fs.AxisRange
	if p.Min != p.Max {
		rng = &fs.AxisRange{Min: p.Min, Max: p.Max}
		c.probe("range of coefficients asked for")
	}
	ps := c.Plain(1, "", nil, func() {
		text = p.stored()
		path := fs.LassoLarsPathFromBytes(text)
		for i, f := range []func() *plot.Plot{path.PlotEntranceTimes, path.PlotQualityScores, path.PlotDeviations, func() *plot.Plot { return path.PlotPath(rng) }} {
			var b bytes.Buffer
			var wt io.WriterTo
			plt := f()
			p.checkFigure(c, path, figures[i], plt)
			wt, err := plt.WriterTo(4*vg.Inch, 4*vg.Inch, p.Ext)
			if err != nil {
				continue
			}
			if _, err := wt.WriteTo(&b); err == nil {
				want[i] = b.Bytes()
			}
		}
	})
	if ps.Outcome.Kind != "finished" {
		c.Failf("none", "the result cannot be drawn: %s %s", ps.Outcome.Kind, ps.Outcome.Msg)
		return
	}
	if c.Failed() {
		return
	}
	cut := p.Cut > 0
	if cut {
		text = text[:int(p.Cut*float64(len(text)))]
	}
	s := c.Sim()
	s.Disk.Put("/w/path.json", text)
	s.Disk.MakeDir("/w/res")
	for i := range figures {
		if p.Prior > 0 {
			f := p.file(i)
			if !strings.HasPrefix(f, "/") {
				f = "/w/" + f
			}
			s.Disk.Put(f, bytes.Repeat([]byte("x"), p.Prior))
		}
	}
	main := mains["goselect_plotlasso"]
	if main == nil {
		panic("harness: no command plotlasso")
	}
	c.Go(s, func() {
		old := os.Args
		os.Args = []string{"goselect-plotlasso", "-json", "/w/path.json", "-prefix", p.Prefix, "-ext", p.Ext}
		if rng != nil {
			os.Args = append(os.Args, fmt.Sprintf("-coeffmin=%v", p.Min), fmt.Sprintf("-coeffmax=%v", p.Max))
		}
		defer func() { os.Args = old }()
		main()
	}, false, "exit", "panic", "crash")
	if c.Failed() {
		return
	}
	said := 0
	for i := range figures {
		f := p.file(i)
		if !announced(s.Stdout.String(), f) {
			continue
		}
		said++
		if cut {
			c.Failf("untrue", "%s is announced; the stored result was cut off after %d bytes", f, len(text))
			return
		}
		if !strings.HasPrefix(f, "/") {
			f = "/w/" + f
		}
		b, ok := s.Disk.Get(f)
		if !ok || want[i] == nil || !bytes.Equal(b, want[i]) {
			c.Failf("untrue", "%s is announced; the file (%v) holds %d bytes, not the figure of %d bytes", f, ok, len(b), len(want[i]))
			return
		}
		c.probe("figure announced")
	}
	if said == len(figures) {
		return
	}
	var first *rt.FaultEvent
	for i, f := range s.Disk.Log {
		if f.Kind != "short" && first == nil {
			first = &s.Disk.Log[i]
		}
	}
	if s.Outcome.Kind == "crash" {
		c.probe("crash")
		return
	}
	bad := cut || want[0] == nil
	if first == nil && !bad {
		c.Failf("none", "without any fault %d of %d figures are announced: %s %s %q", said, len(figures), s.Outcome.Kind, s.Outcome.Msg, clip(s.Stderr.String()))
		return
	}
	c.probe("failure")
	if first == nil {
		first = &rt.FaultEvent{Op: "nothing", Kind: "an unusable result or format"}
	}
	if !reported(s, *first) {
		c.Failf("silent", "%s at %s: %d of %d figures are announced, and no failure reported", first.Kind, first.Op, said, len(figures))
	}
}

// series returns the points a figure is made of.
func series(plt *plot.Plot) (all []plotter.XYs) {
	f := reflect.ValueOf(plt).Elem().FieldByName("plotters")
	if !f.IsValid() || f.Kind() != reflect.Slice {
		return nil
	}
	for i := 0; i < f.Len(); i++ {
		e := f.Index(i)
		v := reflect.NewAt(e.Type(), unsafe.Pointer(e.UnsafeAddr())).Elem().Interface()
		r := reflect.ValueOf(v)
		if r.Kind() == reflect.Ptr {
			r = r.Elem()
		}
		if r.Kind() != reflect.Struct {
			continue
		}
		if x := r.FieldByName("XYs"); x.IsValid() && x.CanInterface() {
			if xy, ok := x.Interface().(plotter.XYs); ok {
				all = append(all, xy)
			}
		}
	}
	return all
}

// checkFigure compares the points of a figure with those of the stored result.
func (p *PlotP) checkFigure(c *Ctx, path *fs.LassoLarsPath, what string, plt *plot.Plot) {
	got := series(plt)
	if len(got) == 0 {
		c.probe("points of a figure not visible")
		return
	}
	near := func(a, b plotter.XY) bool { return closeTo(a.X, b.X, 1e-6) && closeTo(a.Y, b.Y, 1e-6) }
	has := func(l plotter.XYs, q plotter.XY) bool {
		for _, v := range l {
			if near(v, q) {
				return true
			}
		}
		return false
	}
	var want, all plotter.XYs
	for _, l := range got {
		all = append(all, l...)
	}
	rows, y := path.Dset.X, path.Dset.Y
	n, nf := rows.Dims()
	for _, nd := range path.LassoLarsNodes {
		rss := 0.0
		for i := range y {
			e := y[i]
			for j, s := range nd.Selection {
				e -= rows.At(i, s) * nd.Coeff[j]
			}
			rss += e * e
		}
		x := math.Log10(nd.Lamb)
		switch what {
		case "entrance":
			for _, s := range nd.Selection {
				want = append(want, plotter.XY{X: float64(s), Y: x})
			}
		case "quality":
			k := len(nd.Selection)
			d := float64(n - k - 1)
			if k >= n-1 {
				d = 1
			}
			want = append(want, plotter.XY{X: x, Y: 2*float64(k) + float64(n)*math.Log(rss) + float64(2*k*k+2*k)/d})
		case "dev":
			want = append(want, plotter.XY{X: x, Y: math.Log10(math.Sqrt(rss / float64(n)))})
		}
	}
	if what != "path" {
		for _, q := range want {
			if !has(all, q) {
				c.Failf("content", "figure %s lacks the point %v: %v", what, q, all)
				return
			}
		}
		for _, q := range all {
			if !has(want, q) {
				c.Failf("content", "figure %s shows %v, which is not of the result %v", what, q, want)
				return
			}
		}
		return
	}
	for f := 0; f < nf; f++ {
		var line plotter.XYs
		enters := false
		for _, nd := range path.LassoLarsNodes {
			v := 0.0
			for j, s := range nd.Selection {
				if s == f {
					v, enters = nd.Coeff[j], true
				}
			}
			line = append(line, plotter.XY{X: math.Log10(nd.Lamb), Y: v})
		}
		shown := !enters
		for _, l := range got {
			same := true
			for _, q := range line {
				same = same && has(l, q)
			}
			for _, q := range l {
				same = same && has(line, q)
			}
			shown = shown || same
		}
		if !shown {
			c.Failf("content", "figure path does not show the coefficients %v of feature %d", line, f)
			return
		}
	}
	if p.Min != p.Max && (plt.Y.Min != p.Min || plt.Y.Max != p.Max) {
		c.Failf("content", "figure path shows the range %v to %v, not %v to %v", plt.Y.Min, plt.Y.Max, p.Min, p.Max)
	}
}

// announced tells whether a line says that file f was written.
func announced(out, f string) bool {
	for _, l := range strings.Split(out, "\n") {
		if i := strings.Index(l, f); i >= 0 && strings.Contains(l, "written") && (i+len(f) == len(l) || !strings.ContainsRune("abcdefghijklmnopqrstuvwxyz0123456789_.", rune(l[i+len(f)]))) {
			return true
		}
	}
	return false
}

func shrinkPlot(p PlotP) []PlotP {
	var out []PlotP
	try := func(f func(*PlotP)) {
		q := p
		f(&q)
		if q != p {
			out = append(out, q)
		}
	}
	try(func(q *PlotP) { q.Nodes = max(1, q.Nodes/2) })
	try(func(q *PlotP) { q.Nodes = max(1, q.Nodes-1) })
	try(func(q *PlotP) { q.F = max(2, q.F-1) })
	try(func(q *PlotP) { q.N = max(3, q.N-1) })
	try(func(q *PlotP) { q.Prior = 0 })
	try(func(q *PlotP) { q.Cut = 0 })
	try(func(q *PlotP) { q.Min, q.Max = 0, 0 })
	try(func(q *PlotP) { q.Ext = "svg" })
	try(func(q *PlotP) { q.Prefix = "lassofig" })
	return out
}
