// Package world closes a system of several client processes over one memsql
// database and owns every source of nondeterminism in it: the order of SQL
// statements and callbacks, the clock (testing/synctest), statement failures
// and process crashes.
package world

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	gosql "github.com/go-sql-driver/mysql"
	"github.com/robfig/cron"
	"gorm.io/driver/mysql"
	"gorm.io/gorm"
	"gorm.io/gorm/logger"

	"verif/mc/explore"
	"verif/mc/memsql"
)

// Config says which deviations the scheduler may inject.
type Config struct {
	Preempt      bool            // switch away from a runnable goroutine (cost 1)
	Holds        []time.Duration // hold a statement back for that long while others run (cost 1)
	Faults       bool            // fail a statement before it takes effect (cost 1)
	Begins       bool            // the start of a transaction is a scheduling point and can fail (with Faults)
	CommitFaults bool            // fail a commit, either before or after it applied (cost 1)
	Kinds        []error         // what a failed statement returns is one of these (ErrInjected if empty)
	MaxFaults    int             // at most so many faults (0 = no extra limit)
	Crash        bool            // crash the process of the chosen statement (cost 1)
	MaxCrash     int
	RestartAfter time.Duration // delay before OnRestart after a crash
	MaxSteps     int           // abort (inconclusive) beyond that many steps
	FaultFilter  func(p *Proc, text string) bool
	CrashFilter  func(p *Proc, text string) bool
	Deviate      func() bool // deviations allowed now (nil = always)
}

// Proc is a client process (an "instance" of the service).
type Proc struct {
	W         *World
	Name      string
	mp        *memsql.Proc
	sqlDB     *sql.DB
	DB        *gorm.DB
	Dead      bool
	Inc       int
	OnRestart func(p *Proc) // called with the fresh incarnation
	OnCrash   func()
	ctx       context.Context
	cancel    context.CancelFunc
	tasks     int
	idx       int
}

type pending struct {
	p       *Proc
	gid     int64
	num     int
	kind    string
	text    string
	ch      chan memsql.Verdict
	exit    bool
	until   time.Time
	seq     int
	noFault bool
}

type World struct {
	X               *explore.X
	DB              *memsql.DB
	Cfg             Config
	Dial            gorm.Dialector
	mu              sync.Mutex
	procs           []*Proc
	byMP            map[*memsql.Proc]*Proc
	pend            []*pending
	wake            chan struct{}
	gnum            map[int64]int
	gproc           map[int64]*Proc
	last            int // goroutine number last run
	lastP           *Proc
	steps           int
	faults, crashes int
	held            time.Duration
	start           time.Time
	stopped         bool
	timers          []*event
	tasks           int
	panics          []string
	Check           func() // invariant evaluated (quiescent) after each step
	free            bool
}

type event struct {
	at   time.Time
	f    func()
	name string
}

// dialector with a model connector; parsing caches are shared through gorm.
func dialector(db gorm.ConnPool) gorm.Dialector {
	return mysql.New(mysql.Config{Conn: db, SkipInitializeWithVersion: true})
}

// Run executes body inside a bubble with a fresh world; the scheduler loop is
// started by body through w.Loop.
func Run(x *explore.X, cfg Config, body func(w *World)) {
	var div *explore.Diverged
	leak := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				s := fmt.Sprint(r)
				if strings.Contains(s, "blocked goroutines remain") {
					leak = s
					return
				}
				panic(r)
			}
		}()
		synctest.Test(x.T, func(t *testing.T) {
			w := &World{X: x, Cfg: cfg, DB: memsql.New(), byMP: map[*memsql.Proc]*Proc{}, wake: make(chan struct{}, 1), gnum: map[int64]int{}, gproc: map[int64]*Proc{}, last: -1, start: time.Now()}
			w.DB.Hooks = hooks{w}
			prec := 3
			w.Dial = mysql.New(mysql.Config{SkipInitializeWithVersion: true, DefaultDatetimePrecision: &prec})
			if w.Cfg.MaxSteps == 0 {
				w.Cfg.MaxSteps = 5000
			}
			defer w.shutdown()
			defer func() {
				if r := recover(); r != nil {
					if d, ok := r.(explore.Diverged); ok {
						div = &d
						return
					}
					panic(r)
				}
			}()
			body(w)
			if u := w.DB.Unsupported(); u != "" {
				x.Inconclusive("SQL outside the model: %s", u)
			}
		})
	}()
	if leak != "" {
		x.Note("leaked_goroutines", 1)
	}
	if div != nil {
		panic(*div)
	}
}

// Fail records a violation from any goroutine.
func (w *World) Fail(sig, f string, a ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.X.Failf(sig, f, a...)
}

// Window limits deviations to a span of virtual time.
func (w *World) Window(from, to time.Duration) {
	w.Cfg.Deviate = func() bool { s := w.Since(); return s >= from && s <= to }
}

// Since is the virtual time since the world began.
func (w *World) Since() time.Duration { return time.Since(w.start) }

// Start is when the world began.
func (w *World) Start() time.Time { return w.start }

// AddModels creates tables.
func (w *World) AddModels(ms ...interface{}) {
	for _, m := range ms {
		w.DB.AddModel(w.Dial, m)
	}
}

// NewProc makes a client process with its own connection pool.
func (w *World) NewProc(name string) *Proc {
	p := &Proc{W: w, Name: name, idx: len(w.procs)}
	w.procs = append(w.procs, p)
	w.connect(p)
	return p
}

func (w *World) connect(p *Proc) {
	p.Dead = false
	p.mp = memsql.NewProc(p.Name)
	w.mu.Lock()
	w.byMP[p.mp] = p
	w.mu.Unlock()
	p.sqlDB = sql.OpenDB(w.DB.Connector(p.mp))
	p.ctx, p.cancel = context.WithCancel(context.Background())
	db, err := gorm.Open(dialector(&pool{p.sqlDB, p.ctx}), &gorm.Config{Logger: logger.Discard, TranslateError: true})
	if err != nil {
		panic(err)
	}
	p.DB = db
}

// pool is *sql.DB except that transactions die with their process, so that no
// database/sql goroutine outlives the execution.
type pool struct {
	*sql.DB
	ctx context.Context
}

// alive ends the calling goroutine when its process is gone.
func (p *pool) alive() {
	if p.ctx.Err() != nil {
		runtime.Goexit()
	}
}

func (p *pool) PrepareContext(ctx context.Context, q string) (*sql.Stmt, error) {
	p.alive()
	return p.DB.PrepareContext(ctx, q)
}

func (p *pool) ExecContext(ctx context.Context, q string, a ...interface{}) (sql.Result, error) {
	p.alive()
	return p.DB.ExecContext(ctx, q, a...)
}

func (p *pool) QueryContext(ctx context.Context, q string, a ...interface{}) (*sql.Rows, error) {
	p.alive()
	return p.DB.QueryContext(ctx, q, a...)
}

func (p *pool) QueryRowContext(ctx context.Context, q string, a ...interface{}) *sql.Row {
	p.alive()
	return p.DB.QueryRowContext(ctx, q, a...)
}

func (p *pool) BeginTx(ctx context.Context, o *sql.TxOptions) (gorm.ConnPool, error) {
	p.alive()
	if ctx.Done() == nil {
		ctx = p.ctx
	}
	tx, err := p.DB.BeginTx(ctx, o)
	if err != nil {
		return nil, err
	}
	return tx, nil
}

func (p *pool) GetDBConn() (*sql.DB, error) { return p.DB, nil }

func slowGid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	s := b[len("goroutine "):n]
	i := bytes.IndexByte(s, ' ')
	v, _ := strconv.ParseInt(string(s[:i]), 10, 64)
	return v
}

type hooks struct{ w *World }

func (h hooks) Before(op *memsql.Op) memsql.Verdict {
	w := h.w
	if op.Kind == "begin" && !w.Cfg.Begins {
		return memsql.Verdict{}
	}
	w.mu.Lock()
	p := w.byMP[op.Proc]
	w.mu.Unlock()
	return w.point(p, op.Kind, op.Text())
}

func (h hooks) After(op *memsql.Op, err error) {
	if h.w.X.Tracing && err != nil {
		h.w.mu.Lock()
		h.w.X.Tracef("    %s: error %v", op.Proc.Name, err)
		h.w.mu.Unlock()
	}
}
func (h hooks) Blocked(p *memsql.Proc) {
	if h.w.X.Tracing {
		h.w.mu.Lock()
		h.w.X.Tracef("    %s blocks on a row lock", p.Name)
		h.w.mu.Unlock()
	}
}
func (h hooks) Resumed(mp *memsql.Proc) {
	w := h.w
	w.mu.Lock()
	p := w.byMP[mp]
	w.mu.Unlock()
	w.point(p, "resume", "resume after lock wait")
}

// point blocks until the scheduler lets the operation go.
func (w *World) point(p *Proc, kind, text string) memsql.Verdict {
	w.mu.Lock()
	if w.stopped || p.Dead {
		w.mu.Unlock()
		runtime.Goexit()
	}
	if w.free {
		w.mu.Unlock()
		return memsql.Verdict{}
	}
	g := gid()
	w.gproc[g] = p
	q := &pending{p: p, gid: g, kind: kind, text: text, ch: make(chan memsql.Verdict, 1)}
	w.pend = append(w.pend, q)
	w.mu.Unlock()
	select {
	case w.wake <- struct{}{}:
	default:
	}
	v := <-q.ch
	if q.exit {
		runtime.Goexit()
	}
	return v
}

// Cur is the process whose code the calling goroutine last ran.
func (w *World) Cur() *Proc {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.gproc[gid()]
}

// Point is a scheduling point of harness code (callbacks, user code).
// It returns a non-nil error when the scheduler decided to fail it.
func (p *Proc) Point(text string) error {
	return p.W.point(p, "user", text).Err
}

// Go starts a client goroutine of the process.
func (p *Proc) Go(name string, f func()) {
	w := p.W
	w.mu.Lock()
	p.tasks++
	inc := p.Inc
	w.mu.Unlock()
	go func() {
		done := false
		defer func() {
			w.mu.Lock()
			if p.Inc == inc {
				p.tasks--
			}
			w.mu.Unlock()
			select {
			case w.wake <- struct{}{}:
			default:
			}
			if !done {
				if r := recover(); r != nil {
					buf := make([]byte, 4096)
					buf = buf[:runtime.Stack(buf, false)]
					w.mu.Lock()
					w.panics = append(w.panics, fmt.Sprintf("%s/%s: %v\n%s", p.Name, name, r, buf))
					w.mu.Unlock()
				}
			}
		}()
		f()
		done = true
	}()
}

// At schedules f (run by the scheduler itself, quiescent) at a virtual time.
func (w *World) At(d time.Duration, name string, f func()) {
	w.timers = append(w.timers, &event{at: w.start.Add(d), f: f, name: name})
	sort.SliceStable(w.timers, func(i, j int) bool { return w.timers[i].at.Before(w.timers[j].at) })
}

// Setup runs f with every operation let through unscheduled.
func (w *World) Setup(f func()) {
	w.mu.Lock()
	w.free = true
	w.mu.Unlock()
	f()
	w.mu.Lock()
	w.free = false
	w.mu.Unlock()
}

// Procs lists the processes.
func (w *World) Procs() []*Proc { return w.procs }

// Tasks is the number of client goroutines still running.
func (w *World) Tasks() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := 0
	for _, p := range w.procs {
		n += p.tasks
	}
	return n
}

// Panics returns panics that escaped client goroutines.
func (w *World) Panics() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.panics
}

// Kill crashes a process.
func (w *World) Kill(p *Proc) {
	w.mu.Lock()
	if p.Dead {
		w.mu.Unlock()
		return
	}
	p.Dead = true
	p.Inc++
	p.tasks = 0
	var mine []*pending
	var rest []*pending
	for _, q := range w.pend {
		if q.p == p {
			mine = append(mine, q)
		} else {
			rest = append(rest, q)
		}
	}
	w.pend = rest
	w.mu.Unlock()
	w.DB.Kill(p.mp)
	for _, q := range mine {
		q.exit = true
		q.ch <- memsql.Verdict{}
	}
	synctest.Wait()
	p.cancel()
	p.sqlDB.Close()
}

// Crash kills and schedules the restart.
func (w *World) Crash(p *Proc) {
	w.Kill(p)
	w.crashes++
	w.mu.Lock()
	w.X.Tracef("[%s] CRASH %s", w.Since(), p.Name)
	w.mu.Unlock()
	synctest.Wait()
	if p.OnCrash != nil {
		p.OnCrash()
	}
	if p.OnRestart != nil {
		d := w.Cfg.RestartAfter
		if d == 0 {
			d = time.Second
		}
		w.timers = append(w.timers, &event{at: time.Now().Add(d), name: "restart " + p.Name, f: func() {
			w.connect(p)
			p.OnRestart(p)
		}})
		sort.SliceStable(w.timers, func(i, j int) bool { return w.timers[i].at.Before(w.timers[j].at) })
	}
}

// Loop schedules until stop() (evaluated when nothing is pending) or the horizon.
func (w *World) Loop(horizon time.Duration, stop func() bool) {
	end := w.start.Add(horizon)
	for {
		synctest.Wait()
		now := time.Now()
		// due harness events
		if len(w.timers) > 0 && !w.timers[0].at.After(now) {
			e := w.timers[0]
			w.timers = w.timers[1:]
			w.mu.Lock()
			w.X.Tracef("[%s] * %s", w.Since(), e.name)
			w.mu.Unlock()
			e.f()
			continue
		}
		if w.Check != nil {
			w.Check()
		}
		elig := w.eligible(now)
		if len(elig) == 0 {
			w.mu.Lock()
			np := len(w.pend)
			w.mu.Unlock()
			if np == 0 && stop != nil && stop() && len(w.timers) == 0 {
				return
			}
			if !now.Before(end) {
				return
			}
			next := end
			w.mu.Lock()
			for _, q := range w.pend {
				if q.until.After(now) && q.until.Before(next) {
					next = q.until
				}
			}
			w.mu.Unlock()
			if len(w.timers) > 0 && w.timers[0].at.Before(next) {
				next = w.timers[0].at
			}
			select {
			case <-w.wake:
			case <-time.After(next.Sub(now)):
			}
			continue
		}
		w.steps++
		if w.steps > w.Cfg.MaxSteps {
			w.X.Inconclusive("more than %d steps", w.Cfg.MaxSteps)
			return
		}
		w.step(elig)
	}
}

func (w *World) eligible(now time.Time) []*pending {
	w.mu.Lock()
	defer w.mu.Unlock()
	var el []*pending
	var fresh []*pending
	for _, q := range w.pend {
		if _, ok := w.gnum[q.gid]; !ok {
			fresh = append(fresh, q)
		}
	}
	// number goroutines first seen now, in canonical order
	sort.SliceStable(fresh, func(i, j int) bool { return canonLess(fresh[i], fresh[j]) })
	for _, q := range fresh {
		if _, ok := w.gnum[q.gid]; !ok {
			w.gnum[q.gid] = len(w.gnum)
		}
	}
	for _, q := range w.pend {
		q.num = w.gnum[q.gid]
		if !q.until.After(now) {
			el = append(el, q)
		}
	}
	sort.SliceStable(el, func(i, j int) bool {
		a, b := el[i], el[j]
		if (a.num == w.last) != (b.num == w.last) {
			return a.num == w.last
		}
		if (a.p == w.lastP) != (b.p == w.lastP) {
			return a.p == w.lastP
		}
		if a.p.idx != b.p.idx {
			return a.p.idx < b.p.idx
		}
		return a.num < b.num
	})
	return el
}

func canonLess(a, b *pending) bool {
	if a.p.idx != b.p.idx {
		return a.p.idx < b.p.idx
	}
	return a.text < b.text
}

// Kinds of failures a client can see without the statement having taken effect.
var Kinds = []error{
	ErrInjected,
	&gosql.MySQLError{Number: 1205, Message: "Lock wait timeout exceeded; try restarting transaction"},
	&gosql.MySQLError{Number: 1213, Message: "Deadlock found when trying to get lock; try restarting transaction"},
	&gosql.MySQLError{Number: 1040, Message: "Too many connections"},
	&gosql.MySQLError{Number: 1290, Message: "The MySQL server is running with the --read-only option"},
	gosql.ErrInvalidConn,
	driver.ErrBadConn,
	context.DeadlineExceeded,
	io.ErrUnexpectedEOF,
	sql.ErrConnDone,
}

// fitting leaves out lock failures where no lock is waited for.
func fitting(kinds []error, q *pending) (l []error) {
	t := strings.ToUpper(q.text)
	free := q.kind == "begin" || q.kind == "sql" && strings.HasPrefix(t, "SELECT") && !strings.Contains(t, " FOR UPDATE") && !strings.Contains(t, " FOR SHARE") && !strings.Contains(t, "LOCK IN SHARE")
	for _, k := range kinds {
		if e, ok := k.(*gosql.MySQLError); ok && free && (e.Number == 1213 || e.Number == 1205) {
			continue
		}
		l = append(l, k)
	}
	return
}

// ErrInjected is the failure injected into statements.
var ErrInjected = &gosql.MySQLError{Number: 3024, Message: "injected: query execution was interrupted"}

func (w *World) step(el []*pending) {
	cfg := &w.Cfg
	x := w.X
	dev := x.Budget() > 0 && (cfg.Deviate == nil || cfg.Deviate())
	// 1. which operation
	q := el[0]
	if len(el) > 1 && dev && cfg.Preempt {
		costs := make([]int, len(el))
		for i := 1; i < len(el); i++ {
			costs[i] = 1
		}
		q = el[x.Choose("op "+w.short(el), costs...)]
	}
	// 2. what happens to it
	type alt struct {
		name string
		d    time.Duration
	}
	alts := []alt{{name: "run"}}
	if dev && x.Budget() > 0 {
		if q.kind != "resume" && !q.noFault && (cfg.MaxFaults == 0 || w.faults < cfg.MaxFaults) {
			if q.kind == "commit" {
				if cfg.CommitFaults {
					alts = append(alts, alt{name: "commit-fails"}, alt{name: "commit-lost-ack"})
				}
			} else if cfg.Faults && (q.kind == "sql" || q.kind == "begin") && (cfg.FaultFilter == nil || cfg.FaultFilter(q.p, q.text)) {
				alts = append(alts, alt{name: "error"})
			} else if cfg.Faults && q.kind == "user" && cfg.FaultFilter != nil && cfg.FaultFilter(q.p, q.text) {
				alts = append(alts, alt{name: "error"})
			}
		}
		if cfg.Crash && w.crashes < max(1, cfg.MaxCrash) && q.p.OnRestart != nil && (cfg.CrashFilter == nil || cfg.CrashFilter(q.p, q.text)) {
			alts = append(alts, alt{name: "crash"})
		}
		if q.until.IsZero() {
			for _, d := range cfg.Holds {
				alts = append(alts, alt{name: "hold", d: d})
			}
		}
	}
	a := alts[0]
	if len(alts) > 1 {
		costs := make([]int, len(alts))
		for i := 1; i < len(costs); i++ {
			costs[i] = 1
		}
		a = alts[x.Choose("fate of "+q.p.Name, costs...)]
	}
	w.mu.Lock()
	x.Tracef("[%s] %s/g%d %s %s", w.Since(), q.p.Name, q.num, a.name, clip(q.text))
	w.mu.Unlock()
	switch a.name {
	case "crash":
		w.Crash(q.p)
		return
	case "hold":
		w.mu.Lock()
		q.until = time.Now().Add(a.d)
		w.held += a.d
		w.mu.Unlock()
		return
	}
	v := memsql.Verdict{}
	switch a.name {
	case "error", "commit-fails":
		v.Err = ErrInjected
		if l := fitting(cfg.Kinds, q); len(l) > 0 {
			v.Err = l[x.Pick("kind of the error", len(l))]
		}
		w.faults++
	case "commit-lost-ack":
		v.Err = gosql.ErrInvalidConn
		v.AfterApply = true
		w.faults++
	}
	w.mu.Lock()
	for i, o := range w.pend {
		if o == q {
			w.pend = append(w.pend[:i], w.pend[i+1:]...)
			break
		}
	}
	w.last, w.lastP = q.num, q.p
	w.mu.Unlock()
	q.ch <- v
	synctest.Wait()
	w.mu.Lock()
	h := w.DB.Hash(time.Now())
	var sb strings.Builder
	for _, o := range w.pend {
		sb.WriteString(o.p.Name)
		sb.WriteString(opShape(o.text))
	}
	x.Step(h ^ explore.Hash(sb.String()))
	w.mu.Unlock()
}

// opShape is the statement without its arguments.
func opShape(s string) string {
	if i := strings.LastIndexByte(s, '?'); i >= 0 {
		return s[:i]
	}
	return s
}

func clip(s string) string {
	if len(s) > 260 {
		return s[:260] + "…"
	}
	return s
}

func (w *World) short(el []*pending) string {
	if !w.X.Tracing {
		return ""
	}
	var b strings.Builder
	for i, q := range el {
		if i > 0 {
			b.WriteString(" | ")
		}
		t := q.text
		if len(t) > 60 {
			t = t[:60]
		}
		fmt.Fprintf(&b, "%s/g%d %s", q.p.Name, q.num, t)
	}
	return b.String()
}

// Steps so far.
func (w *World) Steps() int { return w.steps }

// Crashes so far.
func (w *World) Crashes() int { return w.crashes }

// Held is the total time statements were held back.
func (w *World) Held() time.Duration { return w.held }

// Faults so far.
func (w *World) Faults() int { return w.faults }

func (w *World) shutdown() {
	w.mu.Lock()
	w.stopped = true
	w.mu.Unlock()
	for _, p := range w.procs {
		w.Kill(p)
	}
	synctest.Wait()
	cron.StopAll()
	time.Sleep(2 * time.Minute)
	synctest.Wait()
	time.Sleep(30 * time.Minute)
	synctest.Wait()
}
