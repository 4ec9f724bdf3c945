//go:build go1.23

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"strconv"
	"strings"
	"syscall"

	"gonum.org/v1/gonum/mat"

	fs "github.com/davidkleiven/goselect/featselect"
	"github.com/davidkleiven/goselect/zzverif/rt"
)

// CsvP is the reading of data sets in CSV format.
type CsvP struct {
	Seed    uint64  `json:"seed"`
	Rows    int     `json:"rows"`
	Cols    int     `json:"cols"`
	Target  int     `json:"target"`
	Pad     bool    `json:"pad"`
	Quote   bool    `json:"quote"`
	CRLF    bool    `json:"crlf"`
	NoEnd   bool    `json:"no_end"` // no newline at the end
	Long    bool    `json:"long"`   // long fields
	Streams int     `json:"streams"`
	Disk    bool    `json:"disk"`
	ErrAt   float64 `json:"err_at"` // the stream fails after this share of its bytes (0: it does not)
	SplitP  float64 `json:"split_p"`
	Blank   int     `json:"blank"` // empty lines at the end
	Huge    bool    `json:"huge"`  // more than any usual buffer, delivered in large pieces
	Err     string  `json:"err"`   // kind of failure of the stream
	Once    bool    `json:"once"`  // the stream goes on after its failure
	Bad     string  `json:"bad"`   // what is wrong with a row of the first stream
}

func init() {
	register("csv", map[string]int{"C09": 10}, genCsv, runCsv, shrinkCsv)
	register("roundtrip", map[string]int{"C10": 10}, genTrip, runTrip, shrinkTrip)
}

func genCsv(g *Rng, prop string) (rt.Config, *CsvP) {
	p := &CsvP{Seed: g.next() >> 1, Rows: pick(g, 1, 2, 3, 5, 20, 120), Cols: g.in(2, 8)}
	p.Target = g.in(-p.Cols, p.Cols-1)
	p.Pad, p.Quote, p.CRLF, p.NoEnd = g.p(0.4), g.p(0.15), g.p(0.2), g.p(0.3)
	p.Long = g.p(0.15)
	if g.p(0.08) {
		p.Cols = g.in(9, 150)
	}
	if g.p(0.03) {
		p.Rows = g.in(121, 1500)
		p.Cols = min(p.Cols, 4)
	}
	p.Target = g.in(-p.Cols, p.Cols-1)
	p.Streams = pick(g, 1, 1, 2, 3)
	p.Disk = g.p(0.35)
	if g.p(0.35) {
		p.ErrAt = pick(g, 0.001, g.f(), g.f(), g.f(), 1)
		p.Err = pick(g, "", "cut", "timeout", "eio", "reset", "closed", "wrapped")
		p.Once = g.p(0.3)
	} else if g.p(0.08) {
		p.Bad = pick(g, "less", "more", "quote")
	}
	p.SplitP = pick(g, 0, 0.3, 0.9, 1)
	if g.p(0.1) {
		p.Blank = g.in(1, 3)
	}
	if g.p(0.015) {
		p.Huge, p.Streams = true, 1
		p.SplitP = pick(g, 0, 0.001, 0.01)
		p.Bad = ""
		if g.p(0.5) {
			p.Cols, p.Rows = g.in(500, 3000), g.in(1, 3)
		} else {
			p.Cols, p.Rows = g.in(2, 3), g.in(2000, 6000)
		}
		p.Target = g.in(-p.Cols, p.Cols-1)
	}
	cfg := schedule(g, 8<<20)
	if p.Huge {
		cfg.StepLimit = 1 << 28
	}
	if p.Disk {
		cfg.FaultP = pick(g, 0, 0.1, 0.3, 0.6)
		cfg.Faults = pick(g, "short", "short,eio", "short,eio,emfile", "eio")
	}
	return cfg, p
}

// csvText makes a text and what it says.
func (p *CsvP) csvText(seed uint64) (text string, names []string, vals [][]float64) {
	g := newRng(seed)
	nl := "\n"
	if p.CRLF {
		nl = "\r\n"
	}
	var b strings.Builder
	for j := 0; j < p.Cols; j++ {
		n := pick(g, "var", "x", "Feat ", "y_", "long name no ", "#", " lead", "ü", "-", "1.") + strconv.Itoa(j)
		switch {
		case g.p(0.03) && j > 0:
			n = ""
		case g.p(0.03) && j > 0:
			n = names[0] // not unique
		case g.p(0.03):
			n += pick(g, " ", "  x ", "\t")
		}
		if p.Huge && p.Cols > 100 {
			n += strings.Repeat("n", 60)
		}
		if p.Quote && g.p(0.3) {
			n += pick(g, ",a", "\"q\"", " b")
		}
		names = append(names, n)
		if j > 0 {
			b.WriteByte(',')
		}
		if strings.ContainsAny(n, ",\"") {
			b.WriteString(`"` + strings.ReplaceAll(n, `"`, `""`) + `"`)
		} else {
			b.WriteString(n)
		}
	}
	badRow := newRng(seed + 3).n(p.Rows)
	for i := 0; i < p.Rows; i++ {
		b.WriteString(nl)
		row := make([]float64, p.Cols)
		for j := range row {
			var s string
			switch g.n(8) {
			case 0:
				s = strconv.Itoa(g.in(-1000, 1000))
			case 1:
				s = strconv.FormatFloat(g.norm()*math.Pow(10, float64(g.in(-12, 12))), 'e', -1, 64)
			case 2:
				s = strconv.FormatFloat(g.norm(), 'f', 3, 64)
			case 3:
				s = pick(g, "0", "-0.5", "1", "+2.5", ".5", "1e3", "1E-3", "100000", "-0", "5.", "1e+05", "007", "1e300", "-2.5e-310", "9007199254740993", "0.1000000000000000055", "-.25E2", "1234567890123456789012345")
			default:
				s = strconv.FormatFloat(g.norm()*100, 'g', -1, 64)
			}
			if p.Long && g.p(0.1) {
				switch g.n(4) {
				case 0:
					s = strings.Repeat("0", g.in(5, 100)) + strconv.FormatFloat(math.Abs(g.norm()*100), 'g', -1, 64)
				case 1:
					s = strconv.FormatFloat(g.norm()*math.Pow(10, float64(g.in(10, 200))), 'f', -1, 64)
				default:
					s = strconv.FormatFloat(g.norm(), 'f', g.in(20, 200), 64)
				}
			}
			row[j], _ = strconv.ParseFloat(s, 64)
			if i == badRow && p.Bad == "less" && j == p.Cols-1 {
				continue
			}
			if j > 0 {
				b.WriteByte(',')
			}
			quoted := p.Quote && g.p(0.2)
			if p.Pad && !quoted {
				s = strings.Repeat(" ", g.n(4)) + s + strings.Repeat(" ", g.n(3))
			}
			switch {
			case i == badRow && p.Bad == "quote" && j == p.Cols-1:
				s = `"` + strings.TrimSpace(s)
			case quoted:
				s = `"` + s + `"`
			}
			b.WriteString(s)
		}
		if i == badRow {
			if p.Bad == "more" {
				b.WriteString(",1")
			}
		}
		vals = append(vals, row)
	}
	if !p.NoEnd {
		b.WriteString(nl + strings.Repeat(nl, p.Blank))
	}
	return b.String(), names, vals
}

var errStream = errors.New("simulated stream failure")

// streamErr is a failure of a stream, never its regular end.
func streamErr(kind string) error {
	switch kind {
	case "cut":
		return io.ErrUnexpectedEOF
	case "timeout":
		return os.ErrDeadlineExceeded
	case "eio":
		return &os.PathError{Op: "read", Path: "/w/stream", Err: syscall.EIO}
	case "reset":
		return &os.SyscallError{Syscall: "read", Err: syscall.ECONNRESET}
	case "closed":
		return io.ErrClosedPipe
	case "wrapped":
		return fmt.Errorf("simulated: %w", io.ErrUnexpectedEOF)
	}
	return errStream
}

// splitReader delivers text in pieces the run decides, and may fail.
type splitReader struct {
	data   []byte
	errAt  int // -1: ends with io.EOF
	pos    int
	p      float64
	empty  int
	err    error
	once   bool // goes on after the failure
	failed bool
}

func (r *splitReader) Read(b []byte) (int, error) {
	rt.Y()
	end := len(r.data)
	bad := r.errAt >= 0 && !(r.once && r.failed)
	if bad {
		end = r.errAt
	}
	fin := func() error {
		if bad {
			if !r.failed {
				rt.Count("stream:error")
			}
			r.failed = true
			return r.err
		}
		return io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	if r.pos >= end {
		return 0, fin()
	}
	n := min(len(b), end-r.pos)
	switch rt.Choose("piece", 6, r.p) {
	case 1:
		n = 1
	case 2:
		n = min(n, 2)
	case 3:
		n = min(n, 7)
	case 4:
		n = (n + 1) / 2
	case 5:
		if r.empty < 20 {
			r.empty++
			return 0, nil
		}
	}
	r.empty = 0
	copy(b, r.data[r.pos:r.pos+n])
	r.pos += n
	if n < len(b) && r.pos < end {
		rt.Count("stream:split")
	}
	if r.pos >= end && rt.Choose("last", 2, r.p) == 1 {
		return n, fin()
	}
	return n, nil
}

func checkDataset(c *Ctx, d *fs.Dataset, names []string, vals [][]float64, target int, what string) {
	cols := len(names)
	if target < 0 {
		target += cols
	}
	if d.TargetCol != target {
		c.Failf("target", "%s: target column %d, not %d", what, d.TargetCol, target)
		return
	}
	if len(d.Names) != cols {
		c.Failf("names", "%s: %d names, not %d", what, len(d.Names), cols)
		return
	}
	for j := range names {
		if d.Names[j] != names[j] {
			c.Failf("names", "%s: column %d is called %q, not %q", what, j, d.Names[j], names[j])
			return
		}
	}
	if d.X == nil {
		c.Failf("rows", "%s: no data matrix", what)
		return
	}
	nr, nc := d.X.Dims()
	if nr != len(vals) || nc != cols-1 || len(d.Y) != len(vals) {
		c.Failf("rows", "%s: %d by %d values and %d targets; the text has %d rows of %d", what, nr, nc, len(d.Y), len(vals), cols)
		return
	}
	for i, row := range vals {
		x := 0
		for j, v := range row {
			got := d.Y[i]
			if j != target {
				got = d.X.At(i, x)
				x++
			}
			if got != v {
				c.Failf("value", "%s: row %d column %d is %v, not %v", what, i, j, got, v)
				return
			}
		}
	}
}

func runCsv(c *Ctx, p *CsvP) {
	s := c.Sim()
	type stream struct {
		text  string
		names []string
		vals  [][]float64
		r     *splitReader
		d     *fs.Dataset
		pan   any
		done  bool
		path  string
	}
	var sts []*stream
	for i := 0; i < p.Streams; i++ {
		st := &stream{}
		q := *p
		if i > 0 {
			q.Bad = ""
		}
		st.text, st.names, st.vals = q.csvText(p.Seed + uint64(i)*977)
		st.path = fmt.Sprintf("/w/data%d.csv", i)
		s.Disk.Put(st.path, []byte(st.text))
		st.r = &splitReader{data: []byte(st.text), errAt: -1, p: p.SplitP, err: errStream}
		if p.ErrAt > 0 && i == 0 {
			st.r.errAt = min(int(p.ErrAt*float64(len(st.text))), len(st.text))
			st.r.err, st.r.once = streamErr(p.Err), p.Once
		}
		sts = append(sts, st)
	}
	c.Go(s, func() {
		var tasks []func()
		for _, st := range sts {
			st := st
			tasks = append(tasks, func() {
				st.pan, _ = rt.Protect(func() {
					if p.Disk {
						st.d = fs.ReadCSV(st.path, p.Target)
					} else {
						st.d = fs.ParseCSV(st.r, p.Target)
					}
				})
				st.done = true
			})
		}
		together("parse", tasks...)
	}, true)
	if c.Failed() {
		return
	}
	for i, st := range sts {
		if !st.done {
			c.Failf("outcome", "stream %d is not parsed", i)
			return
		}
		failed := st.r.failed
		what := fmt.Sprintf("stream %d", i)
		if p.Disk {
			what = "file " + st.path
			for _, f := range s.Disk.Log {
				if f.Path == st.path && (f.Op == "read" || f.Op == "open") && f.Kind != "short" {
					failed = true
				}
			}
		}
		if p.ErrAt > 0 && i == 0 && !p.Disk && !failed {
			// it must have been read to the end
			c.Failf("partial", "%s is not read to its end", what)
			return
		}
		if failed {
			if st.d != nil && st.pan == nil {
				c.Failf("partial", "%s fails before its end, yet a data set is returned", what)
				return
			}
			c.probe("failing stream")
			continue
		}
		if p.Bad != "" && i == 0 {
			if st.d != nil && st.pan == nil {
				c.Failf("malformed", "%s has a malformed row (%s), yet a data set is returned", what, p.Bad)
				return
			}
			c.probe("malformed text")
			continue
		}
		if st.pan != nil {
			c.Failf("panic", "%s is not read: %v", what, st.pan)
			return
		}
		if st.d == nil {
			c.Failf("none", "%s: no data set returned", what)
			return
		}
		checkDataset(c, st.d, st.names, st.vals, p.Target, what)
		if c.Failed() {
			return
		}
	}
}

func shrinkCsv(p CsvP) []CsvP {
	var out []CsvP
	add := func(f func(*CsvP)) {
		q := p
		f(&q)
		if q != p {
			out = append(out, q)
		}
	}
	if p.Rows > 1 {
		add(func(q *CsvP) { q.Rows /= 2 })
		add(func(q *CsvP) { q.Rows-- })
	}
	if p.Cols > 2 && p.Target > -p.Cols && p.Target < p.Cols-1 {
		add(func(q *CsvP) { q.Cols-- })
	}
	if p.Streams > 1 {
		add(func(q *CsvP) { q.Streams-- })
	}
	add(func(q *CsvP) { q.Pad = false })
	add(func(q *CsvP) { q.Quote = false })
	add(func(q *CsvP) { q.CRLF = false })
	add(func(q *CsvP) { q.NoEnd = false })
	add(func(q *CsvP) { q.Long = false })
	add(func(q *CsvP) { q.Blank = 0 })
	add(func(q *CsvP) { q.Once = false })
	add(func(q *CsvP) { q.Err = "" })
	if p.ErrAt > 0 {
		add(func(q *CsvP) { q.ErrAt = 0 })
	}
	return out
}

// TripP is data written and read again.
type TripP struct {
	Seed   uint64  `json:"seed"`
	What   string  `json:"what"` // csv, csvfile, lasso, list
	Rows   int     `json:"rows"`
	Cols   int     `json:"cols"`
	Target int     `json:"target"`
	Nodes  int     `json:"nodes"`
	Big    bool    `json:"big"`
	Odd    bool    `json:"odd"` // odd names
	ErrAt  float64 `json:"err_at"`
	Short  bool    `json:"short"` // the failing write stores part of the bytes
	SplitP float64 `json:"split_p"`
	Prior  bool    `json:"prior"`
	Once   bool    `json:"once"` // the writer works again after its failure
	Err    string  `json:"err"`  // kind of failure of the writer
}

func genTrip(g *Rng, prop string) (rt.Config, *TripP) {
	p := &TripP{Seed: g.next() >> 1, What: pick(g, "csv", "csv", "csvfile", "lasso", "lasso", "list"), Rows: pick(g, 1, 2, 5, 30, 150), Cols: g.in(2, 7)}
	p.Target = g.in(0, p.Cols-1)
	p.Nodes = pick(g, 0, 1, 3, 12)
	if g.p(0.06) {
		p.Cols = g.in(8, 60)
	}
	p.Target = g.in(0, p.Cols-1)
	p.Big, p.Odd = g.p(0.3), g.p(0.3)
	p.SplitP = pick(g, 0, 0.3, 0.9)
	cfg := schedule(g, 8<<20)
	if g.p(0.4) {
		if p.What == "csv" || p.What == "list" {
			p.ErrAt = pick(g, 0.001, g.f(), g.f(), 1)
			p.Short = g.p(0.5)
			p.Once = g.p(0.3)
			p.Err = pick(g, "", "timeout", "eio", "closed")
		} else {
			cfg.FaultP = pick(g, 0.05, 0.2, 0.5)
			cfg.Faults = pick(g, "short", "short,eio", "short,eio,partial,enospc,emfile,eacces", "partial", "crash,partial,crash-partial")
			if strings.Contains(cfg.Faults, "crash") {
				cfg.MaxCrash = 1
			}
		}
	}
	p.Prior = g.p(0.3)
	if g.p(0.015) {
		p.Rows, p.Nodes = g.in(1500, 4000), g.in(30, 120)
		p.SplitP = pick(g, 0, 0.001, 0.01)
		cfg.StepLimit = 1 << 28
	}
	return cfg, p
}

// splitWriter stores what it is given and may fail.
type splitWriter struct {
	buf    bytes.Buffer
	limit  int // -1: none
	short  bool
	once   bool // works again after its failure
	err    error
	failed bool
}

func (w *splitWriter) Write(b []byte) (int, error) {
	rt.Y()
	if w.failed {
		if w.once {
			return w.buf.Write(b)
		}
		return 0, errStream
	}
	if w.limit >= 0 && w.buf.Len()+len(b) > w.limit {
		w.failed = true
		rt.Count("stream:write-error")
		n := w.limit - w.buf.Len()
		if !w.short {
			n = 0
		}
		w.buf.Write(b[:n])
		return n, w.err
	}
	return w.buf.Write(b)
}

func (p *TripP) value(g *Rng) float64 {
	switch g.n(6) {
	case 0:
		return float64(g.in(-5, 5))
	case 1:
		if p.Big {
			return g.norm() * 1e9
		}
		return g.norm() * 1000
	case 2:
		return g.norm() * 1e-5
	case 3:
		if p.Odd {
			return pick(g, 0, 0.5e-6, 1.5e-6, -1e-7, 123456789.123456789, -1e15, 1e20, 1e-300, 0.1+0.2, 999999.9999996)
		}
	}
	return g.norm()
}

func (p *TripP) dataset() *fs.Dataset {
	g := newRng(p.Seed)
	d := &fs.Dataset{TargetCol: p.Target}
	for j := 0; j < p.Cols; j++ {
		n := "var" + strconv.Itoa(j)
		if p.Odd && g.p(0.5) {
			n = pick(g, "a,b", "say \"x\"", " lead", "tail ", "ünï", "x\ny", "#1", "3.5", "") + strconv.Itoa(j)
		}
		d.Names = append(d.Names, n)
	}
	var rows [][]float64
	for i := 0; i < p.Rows; i++ {
		r := make([]float64, p.Cols-1)
		for j := range r {
			r[j] = p.value(g)
		}
		rows = append(rows, r)
		d.Y = append(d.Y, p.value(g))
	}
	d.X = dense(rows)
	if p.Seed%5 == 0 {
		// part of a larger matrix
		big := mat.NewDense(len(rows)+1, p.Cols+1, nil)
		v := big.Slice(1, len(rows)+1, 1, p.Cols).(*mat.Dense)
		v.Copy(d.X)
		d.X = v
	}
	return d
}

func sameDataset(c *Ctx, a, b *fs.Dataset, tol float64, what string) {
	if b == nil || b.X == nil {
		c.Failf("none", "%s: no data set", what)
		return
	}
	if a.TargetCol != b.TargetCol {
		c.Failf("target", "%s: target column %d reads back as %d", what, a.TargetCol, b.TargetCol)
	}
	if strings.Join(a.Names, "\x00") != strings.Join(b.Names, "\x00") {
		c.Failf("names", "%s: names %q read back as %q", what, a.Names, b.Names)
	}
	r1, c1 := a.X.Dims()
	r2, c2 := b.X.Dims()
	if r1 != r2 || c1 != c2 || len(a.Y) != len(b.Y) {
		c.Failf("rows", "%s: %d by %d values and %d targets read back as %d by %d and %d", what, r1, c1, len(a.Y), r2, c2, len(b.Y))
		return
	}
	near := func(x, y float64) bool { return math.Abs(x-y) <= tol+1e-12*math.Abs(x) }
	for i := 0; i < r1; i++ {
		if !near(a.Y[i], b.Y[i]) {
			c.Failf("value", "%s: target %d, %v, reads back as %v", what, i, a.Y[i], b.Y[i])
			return
		}
		for j := 0; j < c1; j++ {
			if !near(a.X.At(i, j), b.X.At(i, j)) {
				c.Failf("value", "%s: value %d,%d, %v, reads back as %v", what, i, j, a.X.At(i, j), b.X.At(i, j))
				return
			}
		}
	}
}

func (p *TripP) path() *fs.LassoLarsPath {
	g := newRng(p.Seed + 5)
	path := &fs.LassoLarsPath{Dset: p.dataset()}
	for i := 0; i < p.Nodes; i++ {
		var sel []int
		var co []float64
		for j := 0; j < p.Cols-1; j++ {
			if g.p(0.5) {
				sel = append(sel, j)
				co = append(co, p.value(g))
			}
		}
		path.LassoLarsNodes = append(path.LassoLarsNodes, fs.NewLassoLarsNode(co, math.Exp(-float64(i)), sel))
		path.Aicc = append(path.Aicc, p.value(g))
		path.Bic = append(path.Bic, p.value(g))
	}
	return path
}

func samePath(c *Ctx, a, b *fs.LassoLarsPath, what string) {
	if b == nil {
		c.Failf("none", "%s: no path", what)
		return
	}
	sameDataset(c, a.Dset, b.Dset, 0, what)
	if c.Failed() {
		return
	}
	ja, _ := json.Marshal(struct {
		N    []*fs.LassoLarsNode
		A, B []float64
	}{a.LassoLarsNodes, a.Aicc, a.Bic})
	jb, _ := json.Marshal(struct {
		N    []*fs.LassoLarsNode
		A, B []float64
	}{b.LassoLarsNodes, b.Aicc, b.Bic})
	if !bytes.Equal(ja, jb) {
		c.Failf("nodes", "%s: %s reads back as %s", what, ja, jb)
	}
}

func (p *TripP) list() *fs.Highscore {
	g := newRng(p.Seed + 9)
	h := fs.NewHighscore(pick(g, 2, 5, 10))
	for i := 0; i < p.Nodes; i++ {
		m := make([]bool, 7)
		for j := range m {
			m[j] = (i+1)>>uint(j)&1 == 1 || (j == 6 && g.p(0.5))
		}
		n := fs.NewNode(g.in(0, 7), m)
		n.Score, n.Lower, n.Upper = p.value(g)*float64(i+1), p.value(g), p.value(g)
		for j := range n.Coeff {
			n.Coeff[j] = p.value(g)
		}
		h.Insert(n)
	}
	return h
}

func runTrip(c *Ctx, p *TripP) {
	const out = "/w/out.dat"
	prior := []byte("old content, not of this run\n")
	s := c.Sim()
	if p.Prior {
		s.Disk.Put(out, prior)
	}
	var full bytes.Buffer
	var w *splitWriter
	var back *fs.Dataset
	var backPath *fs.LassoLarsPath
	var list, backList *fs.Highscore
	var pan any
	var listErr error
	ended := false
	dset := p.dataset()
	path := p.path()
	pjson, err := json.Marshal(path)
	if err != nil {
		c.Failf("json", "%v", err)
		return
	}
	main := func() {
		switch p.What {
		case "csv":
			w = &splitWriter{limit: -1, short: p.Short}
			if p.ErrAt > 0 {
				var tmp bytes.Buffer
				dset.SaveHandle(&tmp)
				w.limit = int(p.ErrAt * float64(tmp.Len()-1))
				w.once = p.Once
				w.err = streamErr(p.Err)
			}
			pan, _ = rt.Protect(func() { dset.SaveHandle(w) })
			if !w.failed && pan == nil {
				r := &splitReader{data: w.buf.Bytes(), errAt: -1, p: p.SplitP}
				pan, _ = rt.Protect(func() { back = fs.ParseCSV(r, p.Target) })
			}
		case "csvfile":
			pan, _ = rt.Protect(func() { dset.Save(out) })
			if pan == nil {
				pan, _ = rt.Protect(func() { back = fs.ReadCSV(out, p.Target) })
			}
		case "lasso":
			// stored whole, read under faults
			s.Disk.Put(out, pjson)
			pan, _ = rt.Protect(func() { backPath = fs.LassoLarsPathFromJSON(out) })
		case "list":
			list = p.list()
			b, err := json.Marshal(list)
			if err != nil {
				rt.Fail("json", "%v", err)
			}
			if p.ErrAt > 0 {
				b = b[:int(p.ErrAt*float64(len(b)-1))]
			}
			backList = fs.NewHighscore(3)
			listErr = json.Unmarshal(b, backList)
		}
		ended = true
	}
	c.Plain(1, "uniform", nil, func() { dset.SaveHandle(&full) })
	allowed := []string{}
	if c.Cfg.MaxCrash > 0 {
		allowed = append(allowed, "crash")
	}
	c.Go(s, main, true, allowed...)
	if c.Failed() {
		return
	}
	text := full.Bytes()
	hurt := func(ops ...string) bool {
		for _, f := range s.Disk.Log {
			for _, o := range ops {
				if f.Op == o && f.Kind != "short" {
					return true
				}
			}
		}
		return false
	}
	switch p.What {
	case "csv":
		if !bytes.HasPrefix(text, w.buf.Bytes()) {
			c.Failf("prefix", "what is stored is not a prefix of the full text: %q", clip(w.buf.String()))
			return
		}
		if w.failed {
			c.probe("failing write")
			return
		}
		if pan != nil {
			c.Failf("panic", "%v", pan)
			return
		}
		if !bytes.Equal(text, w.buf.Bytes()) {
			c.Failf("prefix", "only %d of %d bytes are stored", w.buf.Len(), len(text))
			return
		}
		sameDataset(c, dset, back, 5.1e-7, "data set")
	case "csvfile":
		data, ok := s.Disk.Get(out)
		if ok && !bytes.HasPrefix(text, data) && !(p.Prior && bytes.Equal(data, prior)) {
			c.Failf("prefix", "the file holds neither a prefix of the full text nor its old content: %q", clip(string(data)))
			return
		}
		if !ended || hurt("create", "write", "close", "sync", "rename", "chmod", "stat") {
			c.probe("failing write")
			return
		}
		if hurt("read", "open") {
			if back != nil && pan == nil {
				c.Failf("partial", "reading the file fails, yet a data set is returned")
			}
			return
		}
		if pan != nil {
			c.Failf("panic", "%v", pan)
			return
		}
		if !ok || !bytes.Equal(data, text) {
			c.Failf("prefix", "only %d of %d bytes are stored", len(data), len(text))
			return
		}
		sameDataset(c, dset, back, 5.1e-7, "data set")
	case "lasso":
		if !ended {
			return
		}
		if hurt("read", "open", "stat") {
			c.probe("failing read")
			if pan == nil && backPath != nil && (backPath.Dset != nil || len(backPath.LassoLarsNodes) > 0 || len(backPath.Aicc) > 0) {
				// the failure may have come after the last byte
				samePath(c, path, backPath, "reading the file fails, yet a path is returned")
				if c.Failed() {
					c.Class = "partial"
				}
			}
			return
		}
		if pan != nil {
			c.Failf("panic", "%v", pan)
			return
		}
		samePath(c, path, backPath, "lasso path")
	case "list":
		if p.ErrAt > 0 {
			if listErr == nil {
				c.Failf("partial", "part of a list is read without an error")
			} else if backList.Len() > 0 {
				c.Failf("partial", "part of a list is read: %d entries", backList.Len())
			}
			c.probe("failing read")
			return
		}
		if listErr != nil {
			c.Failf("json", "%v", listErr)
			return
		}
		if !list.Equal(backList) || !backList.Equal(list) {
			a, _ := json.Marshal(list)
			b, _ := json.Marshal(backList)
			c.Failf("list", "the list %s reads back as %s", a, b)
			return
		}
		a, _ := json.Marshal(list)
		b, _ := json.Marshal(backList)
		if !bytes.Equal(a, b) {
			c.Failf("list", "the list %s reads back as %s", a, b)
		}
	}
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func shrinkTrip(p TripP) []TripP {
	var out []TripP
	add := func(f func(*TripP)) {
		q := p
		f(&q)
		if q != p {
			out = append(out, q)
		}
	}
	if p.Rows > 1 {
		add(func(q *TripP) { q.Rows /= 2 })
	}
	if p.Cols > 2 && p.Target < p.Cols-1 {
		add(func(q *TripP) { q.Cols-- })
	}
	if p.Nodes > 1 {
		add(func(q *TripP) { q.Nodes /= 2 })
	}
	add(func(q *TripP) { q.Odd = false })
	add(func(q *TripP) { q.Big = false })
	add(func(q *TripP) { q.Prior = false })
	add(func(q *TripP) { q.Once = false })
	add(func(q *TripP) { q.Err = "" })
	return out
}
