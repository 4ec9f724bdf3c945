//go:build go1.23

package rt

import (
	"context"
	"fmt"
	"io"
	"log"
	"os"
	"strings"
)

// ---- math/rand ----

func (s *Sim) stream() *Stream {
	r := s.rnd
	if s.curT != nil {
		r = s.curT.rnd
	}
	if r.seeded != s.seeded {
		// the program has set the seed that all its random numbers depend on
		r.seeded = s.seeded
		r.seed(s.newSeed)
	}
	return r
}

// bits draws 64 bits of the program's random stream in the run's mode.
func (s *Sim) bits() uint64 {
	r := s.stream()
	s.Stats.Draws++
	x := r.next()
	switch s.rndMode {
	case "sticky": // long stretches of the same value
		if x%16 != 0 {
			return r.last
		}
	case "extreme": // values at both ends
		switch r.next() % 3 {
		case 0:
			x = r.next() % 4
		case 1:
			x = ^uint64(0) - r.next()%4
		}
	case "mixed":
		switch r.next() % 8 {
		case 0:
			x = 0
		case 1:
			x = ^uint64(0)
		case 2, 3:
			x = r.last
		}
	case "low":
		if r.next()%4 != 0 {
			x >>= 20
		}
	case "high":
		if r.next()%4 != 0 {
			x |= 0xfffff << 44
		}
	}
	r.last = x
	return x
}

var outside prng

func bits() uint64 {
	if cur == nil {
		return outside.next()
	}
	return cur.bits()
}

func frac() float64 { return float64(bits()>>11) / (1 << 53) }

func below(n uint64) uint64 {
	// multiply-high keeps extreme bits extreme
	x := bits()
	hi, lo := x>>32, x&0xffffffff
	if n < 1<<32 {
		return (hi*n + (lo*n)>>32) >> 32
	}
	return x % n
}

// Rand_* are the top-level functions of math/rand
func Rand_Seed(x int64) {
	if cur == nil {
		outside.seed(uint64(x))
		return
	}
	cur.seeded++
	cur.newSeed = uint64(x)*0x9e3779b97f4a7c15 ^ cur.Cfg.RandSeed
	cur.Stats.Seeds++
}
func Rand_Int63() int64   { return int64(bits() >> 1) }
func Rand_Uint32() uint32 { return uint32(bits() >> 32) }
func Rand_Uint64() uint64 { return bits() }
func Rand_Int31() int32   { return int32(bits() >> 33) }
func Rand_Int() int       { return int(bits() >> 1) }
func Rand_Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(below(uint64(n)))
}
func Rand_Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(below(uint64(n)))
}
func Rand_Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(below(uint64(n)))
}
func Rand_IntN(n int) int          { return Rand_Intn(n) }
func Rand_Int64() int64            { return Rand_Int63() }
func Rand_Int32() int32            { return Rand_Int31() }
func Rand_Int64N(n int64) int64    { return Rand_Int63n(n) }
func Rand_Int32N(n int32) int32    { return Rand_Int31n(n) }
func Rand_Uint64N(n uint64) uint64 { return below(n) }
func Rand_UintN(n uint) uint       { return uint(below(uint64(n))) }
func Rand_Float64() float64        { return frac() }
func Rand_Float32() float32        { return float32(bits()>>40) / (1 << 24) }
func Rand_NormFloat64() float64    { return frac() + frac() + frac() + frac() + frac() + frac() - 3 }
func Rand_ExpFloat64() float64     { return -ln1m(frac()) }

// splitBits drive permutations; they stay uniform so that every order can occur.
func splitN(n int) int {
	if cur == nil {
		return int(outside.next() % uint64(n))
	}
	return cur.stream().intn(n)
}

// Rand_Shuffle is rand.Shuffle; the order drawn is recorded.
func Rand_Shuffle(n int, swap func(i, j int)) {
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := splitN(i + 1)
		swap(i, j)
		idx[i], idx[j] = idx[j], idx[i]
	}
	if cur != nil {
		r := cur.stream()
		r.Splits = append(r.Splits, idx)
	}
}

// Rand_Perm is rand.Perm; the order drawn is recorded.
func Rand_Perm(n int) []int {
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := splitN(i + 1)
		idx[i], idx[j] = idx[j], idx[i]
	}
	if cur != nil {
		r := cur.stream()
		r.Splits = append(r.Splits, append([]int{}, idx...))
	}
	return idx
}

// ---- fmt, log, os.Stdout ----

const maxOut = 64 << 20

func (s *Sim) out(b *strings.Builder, x string) {
	if b.Len() < maxOut {
		b.WriteString(x)
	}
}

func stdout(x string) (int, error) {
	if s := simNow(); s != nil {
		Y()
		s.out(&s.Stdout, x)
		if s.Tracing {
			s.Trace("prints %q", strings.TrimSpace(x))
		}
	}
	return len(x), nil
}

func stderr(x string) {
	if s := simNow(); s != nil {
		Y()
		s.out(&s.Stderr, x)
		if s.Tracing {
			s.Trace("logs %q", strings.TrimSpace(x))
		}
	}
}

// Fmt_Printf is fmt.Printf
func Fmt_Printf(f string, a ...any) (int, error) { return stdout(fmt.Sprintf(f, a...)) }

// Fmt_Print is fmt.Print
func Fmt_Print(a ...any) (int, error) { return stdout(fmt.Sprint(a...)) }

// Fmt_Println is fmt.Println
func Fmt_Println(a ...any) (int, error) { return stdout(fmt.Sprintln(a...)) }

func line(x string) string {
	if !strings.HasSuffix(x, "\n") {
		x += "\n"
	}
	return x
}

// Logger is log.Logger. The real one holds a real lock while it writes, during which the
// simulator may switch to another task.
type Logger struct {
	w      io.Writer // nil: standard error
	prefix string
	flags  int
}

var (
	stdLog  = &Logger{}
	initLog *Logger // as the initialisation of the packages left it
)

func resetLog() {
	if initLog == nil {
		l := *stdLog
		initLog = &l
	}
	*stdLog = *initLog
}

// Log_New is log.New
func Log_New(w io.Writer, prefix string, flags int) *Logger { return &Logger{w, prefix, flags} }

// Log_Default is log.Default
func Log_Default() *Logger { return stdLog }

func (l *Logger) put(x string) {
	x = line(x)
	var b strings.Builder
	if l.flags&log.Lmsgprefix == 0 {
		b.WriteString(l.prefix)
	}
	if l.flags&(log.Ldate|log.Ltime|log.Lmicroseconds) != 0 {
		t := Time_Now()
		if l.flags&log.LUTC != 0 {
			t = t.UTC()
		}
		if l.flags&log.Ldate != 0 {
			b.WriteString(t.Format("2006/01/02 "))
		}
		if l.flags&log.Lmicroseconds != 0 {
			b.WriteString(t.Format("15:04:05.000000 "))
		} else if l.flags&log.Ltime != 0 {
			b.WriteString(t.Format("15:04:05 "))
		}
	}
	if l.flags&log.Lmsgprefix != 0 {
		b.WriteString(l.prefix)
	}
	b.WriteString(x)
	if l.w == nil {
		stderr(b.String())
		return
	}
	l.w.Write([]byte(b.String()))
}

// Print and the others are the methods of log.Logger
func (l *Logger) Print(a ...any)                   { l.put(fmt.Sprint(a...)) }
func (l *Logger) Printf(f string, a ...any)        { l.put(fmt.Sprintf(f, a...)) }
func (l *Logger) Println(a ...any)                 { l.put(fmt.Sprintln(a...)) }
func (l *Logger) Fatal(a ...any)                   { l.Print(a...); Os_Exit(1) }
func (l *Logger) Fatalf(f string, a ...any)        { l.Printf(f, a...); Os_Exit(1) }
func (l *Logger) Fatalln(a ...any)                 { l.Println(a...); Os_Exit(1) }
func (l *Logger) Panic(a ...any)                   { x := fmt.Sprint(a...); l.put(x); panic(x) }
func (l *Logger) Panicf(f string, a ...any)        { x := fmt.Sprintf(f, a...); l.put(x); panic(x) }
func (l *Logger) Panicln(a ...any)                 { x := fmt.Sprintln(a...); l.put(x); panic(x) }
func (l *Logger) Output(depth int, x string) error { l.put(x); return nil }
func (l *Logger) SetFlags(n int)                   { l.flags = n }
func (l *Logger) SetPrefix(p string)               { l.prefix = p }
func (l *Logger) SetOutput(w io.Writer)            { l.w = w }
func (l *Logger) Flags() int                       { return l.flags }
func (l *Logger) Prefix() string                   { return l.prefix }

// Writer returns where the logger writes to
func (l *Logger) Writer() io.Writer {
	if l.w == nil {
		return Stderr
	}
	return l.w
}

// Log_* are the top-level functions of log
func Log_Print(a ...any)                   { stdLog.Print(a...) }
func Log_Printf(f string, a ...any)        { stdLog.Printf(f, a...) }
func Log_Println(a ...any)                 { stdLog.Println(a...) }
func Log_Fatal(a ...any)                   { stdLog.Fatal(a...) }
func Log_Fatalf(f string, a ...any)        { stdLog.Fatalf(f, a...) }
func Log_Fatalln(a ...any)                 { stdLog.Fatalln(a...) }
func Log_Panic(a ...any)                   { stdLog.Panic(a...) }
func Log_Panicf(f string, a ...any)        { stdLog.Panicf(f, a...) }
func Log_Panicln(a ...any)                 { stdLog.Panicln(a...) }
func Log_Output(depth int, x string) error { return stdLog.Output(depth, x) }
func Log_SetFlags(n int)                   { stdLog.SetFlags(n) }
func Log_SetPrefix(p string)               { stdLog.SetPrefix(p) }
func Log_SetOutput(w io.Writer)            { stdLog.SetOutput(w) }
func Log_Flags() int                       { return stdLog.Flags() }
func Log_Prefix() string                   { return stdLog.Prefix() }
func Log_Writer() io.Writer                { return stdLog.Writer() }

// Signal_Notify and the others are the functions of os/signal; no signal ever arrives
func Signal_Notify(c chan<- os.Signal, sig ...os.Signal) {}
func Signal_Stop(c chan<- os.Signal)                     {}
func Signal_Ignore(sig ...os.Signal)                     {}
func Signal_Reset(sig ...os.Signal)                      {}
func Signal_Ignored(sig os.Signal) bool                  { return false }

// Signal_NotifyContext is signal.NotifyContext
func Signal_NotifyContext(ctx context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	return Context_WithCancel(ctx)
}

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

var inits []func()

// OnInitialize collects the functions of cobra.OnInitialize.
func OnInitialize(f ...func()) { inits = append(inits, f...) }

// ResetInits forgets them
func ResetInits() { inits = nil }

// RunInits runs them
func RunInits() {
	for _, f := range inits {
		f()
	}
}
