package checks

import (
	"context"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync/atomic"
	"testing/synctest"
	"time"

	ddd "github.com/bytedance/dddfirework"
	"github.com/bytedance/dddfirework/eventbus/mem"
	"github.com/go-logr/stdr"
	"gorm.io/gorm"

	"verif/mc/explore"
)

// The routing of events, of transaction checks and of timer callbacks to what
// is registered.  The router is one per process, so every execution uses event
// types of its own.

var routeRun atomic.Int64

func init() { stdr.SetVerbosity(-1) } // the router logs every event

type inner struct {
	X []int
	Y map[string]string
}

// evA is an event with fields of several kinds.
type evA struct {
	T    ddd.EventType `json:"-"`
	S    string
	N    int64
	F    float64
	P    *int
	In   inner
	skip int
}

func (e *evA) GetType() ddd.EventType { return e.T }
func (e *evA) GetSender() string      { return "sender " + e.S }

// evAlt decodes the same payload differently.
type evAlt struct {
	S  string
	In *inner
	Q  int `json:"N"`
}

// seen shows the event a handler got; the handler then changes its event, which
// is its own.
func (e *evA) seen() string {
	s := asJSON(e)
	*e = evA{S: "changed by a handler", N: -1, F: 9, In: inner{X: append(e.In.X, 99), Y: map[string]string{"changed": "x"}}}
	return s
}

func (e *evAlt) seen() string {
	s := asJSON(e)
	*e = evAlt{S: "changed by a handler", In: &inner{X: []int{99}}, Q: -1}
	return s
}

func someEvent(n int) *evA {
	e := &evA{S: fmt.Sprintf("s%d \u00e9\"", n), N: int64(n) << 40, F: 0.25, skip: 5}
	if n%2 == 1 {
		e.P = &n
		e.In = inner{X: []int{n, 0}, Y: map[string]string{"k": ""}}
	}
	return e
}

func asJSON(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

// rcall is an observed handler call.
type rcall struct {
	reg int
	got string
}

// router is the harness of one execution.
type router struct {
	cancelled bool // the bus hands over a context that is over
	x         *explore.X
	n         int64
	regs      []rreg
	calls     []rcall
	err       error  // what the failing handler returned
	how       string // how it failed
	nest      func() error
	nested    int
	eng       *ddd.Engine
	cb        ddd.DomainEventHandler
	chk       ddd.DomainEventTXChecker
	ctx       bool // a handler did not get the bus's context
	errs      []error
	bad       bool
	deep      int
}

type rreg struct {
	typ, kind string
}

type ctxKeyR struct{}

func (r *router) fail(sig, f string, a ...interface{}) {
	if !r.bad {
		r.x.Failf(sig, f, a...)
	}
	r.bad = true
}

func (r *router) typ(t string) ddd.EventType { return ddd.EventType(fmt.Sprintf("%s#%d", t, r.n)) }

// rbus is a bus that only keeps the callbacks.
type rbus struct{ r *router }

func (b *rbus) Dispatch(ctx context.Context, evt ...*ddd.DomainEvent) error { return nil }
func (b *rbus) RegisterEventHandler(cb ddd.DomainEventHandler)              { b.r.cb = cb }

type rtxbus struct{ rbus }

func (b *rtxbus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) { b.r.chk = cb }
func (b *rtxbus) DispatchBegin(ctx context.Context, evt ...*ddd.DomainEvent) (context.Context, error) {
	return ctx, nil
}
func (b *rtxbus) Commit(ctx context.Context) error   { return nil }
func (b *rtxbus) Rollback(ctx context.Context) error { return nil }

// called is where a handler runs; it says what the handler does.
func (r *router) called(ctx context.Context, i int, got string) error {
	if ctx.Value(ctxKeyR{}) != "bus" {
		r.ctx = true
	}
	r.calls = append(r.calls, rcall{i, got})
	if r.x.Tracing {
		r.x.Tracef("handler %d got %s", i, got)
	}
	if r.deep > 0 || r.x.Budget() <= 0 {
		return nil
	}
	cmd := strings.HasPrefix(r.regs[i].kind, "engine")
	costs := []int{0, 1, 1, 1}
	if cmd {
		costs = append(costs, 1)
	}
	switch r.x.Choose("handler", costs...) {
	case 1:
		r.how = "error"
		if r.regs[i].kind == "own error" {
			r.err = &myErr{"own"}
		} else {
			r.err = fmt.Errorf("handler %d failed", i)
			if len(r.errs) > 0 {
				l := r.errs
				if !cmd { // to a command it is a request to roll back
					l = append(append([]error{}, l...), ddd.ErrBreak, fmt.Errorf("wrapped: %w", ddd.ErrBreak))
				}
				r.err = l[r.x.Pick("error", len(l))]
			}
		}
		return r.err
	case 2:
		r.how = "panic"
		r.err = fmt.Errorf("handler %d panicked", i)
		panic(r.err)
	case 3:
		if r.nest != nil {
			r.deep++
			r.nested++
			err := r.nest()
			r.deep--
			if err != nil {
				r.fail("nested", "an event delivered while another is handled failed: %v", err)
			}
		}
	case 4:
		return ddd.ErrBreak
	}
	return nil
}

type rmain struct {
	f    func(ctx context.Context) error
	init bool
}

func (m *rmain) Main(ctx context.Context, repo *ddd.Repository) error { return m.f(ctx) }

type rcmd struct {
	ddd.Command
	f func(ctx context.Context) error
}

func (m *rcmd) Act(ctx context.Context, c ddd.RootContainer, roots ...ddd.IEntity) error {
	return m.f(ctx)
}

var rkinds = []string{"typed", "raw", "raw named", "other type", "own error", "engine main", "engine command", "engine func", "engine mainfunc", "engine raw"}

func (r *router) register(t, kind string) {
	i := len(r.regs)
	r.regs = append(r.regs, rreg{t, kind})
	et := r.typ(t)
	raw := func(e *ddd.DomainEvent) string { return "raw " + asJSON(e) }
	switch kind {
	case "typed":
		ddd.RegisterEventHandler(et, func(ctx context.Context, e *evA) error { return r.called(ctx, i, e.seen()) })
	case "raw":
		ddd.RegisterEventHandler(et, func(ctx context.Context, e *ddd.DomainEvent) error { return r.called(ctx, i, raw(e)) })
	case "raw named":
		ddd.RegisterEventHandler(et, ddd.DomainEventHandler(func(ctx context.Context, e *ddd.DomainEvent) error { return r.called(ctx, i, raw(e)) }))
	case "other type":
		ddd.RegisterEventHandler(et, func(ctx context.Context, e *evAlt) error { return r.called(ctx, i, e.seen()) })
	case "own error":
		ddd.RegisterEventHandler(et, func(ctx context.Context, e *evA) *myErr {
			if err := r.called(ctx, i, e.seen()); err != nil {
				return err.(*myErr)
			}
			return nil
		})
	case "engine main":
		r.eng.RegisterEventHandler(et, func(e *evA) ddd.ICommandMain {
			return &rmain{f: func(ctx context.Context) error { return r.called(ctx, i, e.seen()) }}
		})
	case "engine command":
		r.eng.RegisterEventHandler(et, func(e *evAlt) ddd.ICommand {
			return &rcmd{f: func(ctx context.Context) error { return r.called(ctx, i, e.seen()) }}
		})
	case "engine func":
		r.eng.RegisterEventHandler(et, func(e *evA) func(ctx context.Context, repo *ddd.Repository) error {
			return func(ctx context.Context, repo *ddd.Repository) error { return r.called(ctx, i, e.seen()) }
		})
	case "engine mainfunc":
		r.eng.RegisterEventHandler(et, func(e *evA) ddd.MainFunc {
			return func(ctx context.Context, repo *ddd.Repository) error { return r.called(ctx, i, e.seen()) }
		})
	case "engine raw":
		r.eng.RegisterEventHandler(et, func(e *ddd.DomainEvent) *rmain {
			return &rmain{f: func(ctx context.Context) error { return r.called(ctx, i, raw(e)) }}
		})
	}
}

// expect is what a handler has to see of an event; ok is false when the payload
// cannot be decoded.
func (g rreg) expect(e *ddd.DomainEvent) (s string, ok bool) {
	switch g.kind {
	case "raw", "raw named", "engine raw":
		return "raw " + asJSON(e), true
	case "other type", "engine command":
		v := &evAlt{}
		err := json.Unmarshal(e.Payload, v)
		return asJSON(v), err == nil
	}
	v := &evA{}
	err := json.Unmarshal(e.Payload, v)
	return asJSON(v), err == nil
}

// deliver hands an event to the callback and checks who got it.
func (r *router) deliver(t string, e *ddd.DomainEvent) {
	start := len(r.calls)
	r.err, r.how = nil, ""
	keep := asJSON(e)
	var err error
	var pan interface{}
	func() {
		defer func() {
			if pan = recover(); pan != nil && strings.Contains(fmt.Sprintf("%T", pan), "Diverged") {
				panic(pan)
			}
		}()
		ctx := context.WithValue(context.Background(), ctxKeyR{}, "bus")
		if r.cancelled {
			c, cancel := context.WithCancel(ctx)
			cancel()
			ctx = c
		}
		err = r.cb(ctx, e)
	}()
	got := r.calls[start:]
	if r.nested > 0 {
		// take the nested calls out
		var l []rcall
		for _, c := range got {
			if r.regs[c.reg].typ == t {
				l = append(l, c)
			}
		}
		got = l
	}
	r.check(t, e, got, err, pan)
	if asJSON(e) != keep {
		r.fail("event-changed", "the event was changed while it was routed")
	}
}

func (r *router) check(t string, e *ddd.DomainEvent, got []rcall, err error, pan interface{}) {
	n := 0
	for i, g := range r.regs {
		if g.typ != t {
			continue
		}
		w, ok := g.expect(e)
		if !ok {
			if err == nil {
				r.fail("decode-hidden", "a payload that handler %d (%s) cannot decode was not reported", i, g.kind)
			}
			break
		}
		if n >= len(got) {
			r.fail("not-called", "handler %d (%s) was not called, %d calls, error %v, panic %v", i, g.kind, len(got), err, pan)
			return
		}
		c := got[n]
		n++
		if c.reg != i {
			r.fail("wrong-handler", "handler %d (%s) was called instead of handler %d (%s)", c.reg, r.regs[c.reg].kind, i, g.kind)
			return
		}
		if c.got != w {
			r.fail("wrong-payload", "handler %d (%s) got %s instead of %s", i, g.kind, c.got, w)
			return
		}
		if n == len(got) && r.err != nil {
			break
		}
	}
	if n != len(got) {
		r.fail("called-too-often", "%d handlers were called instead of %d", len(got), n)
		return
	}
	switch {
	case r.how == "panic":
		if pan != interface{}(r.err) {
			r.fail("panic-lost", "a handler's panic did not reach the bus: %v", pan)
		}
	case pan != nil:
		r.fail("panic", "routing panicked: %v", pan)
	case r.err != nil:
		if !errors.Is(err, r.err) {
			r.fail("error-lost", "the bus got %v instead of the handler's error %v", err, r.err)
		}
	case err != nil:
		for _, g := range r.regs {
			if _, ok := g.expect(e); g.typ == t && !ok {
				return
			}
		}
		r.fail("error-made-up", "the bus got an error although no handler failed: %v", err)
	}
	if r.ctx {
		r.fail("context", "a handler did not get the bus's context")
	}
}

func newRouter(x *explore.X, how int) *router {
	r := &router{x: x, n: routeRun.Add(1)}
	b := &rtxbus{rbus{r}}
	switch how {
	case 0:
		r.eng = ddd.NewEngine(nil, &eexec{newEH(x, ecfg{noTx: true})}, ddd.WithLogger(discard), ddd.WithoutTransaction, ddd.WithEventBus(b))
	case 1:
		r.eng = ddd.NewEngine(nil, &eexec{newEH(x, ecfg{noTx: true})}, ddd.WithLogger(discard), ddd.WithoutTransaction)
		ddd.RegisterEventBus(b)
	case 2:
		r.eng = ddd.NewEngine(nil, &eexec{newEH(x, ecfg{noTx: true})}, ddd.WithLogger(discard), ddd.WithoutTransaction, ddd.WithEventBus(&rbus{&router{}}))
		r.eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error { return nil }, ddd.WithEventBus(b))
	}
	return r
}

var payloads = []string{"value", "other value", "null", "wrong type", "broken", "empty"}

func (r *router) event(t string, kind string) *ddd.DomainEvent {
	v := someEvent(len(r.calls)*2 + 1)
	if kind == "other value" {
		v = someEvent(2)
	}
	v.T = r.typ(t)
	e := ddd.NewDomainEvent(v)
	switch kind {
	case "null":
		e.Payload = []byte("null")
	case "wrong type":
		e.Payload = []byte(`{"S":"x","N":"y","In":[1]}`)
	case "broken":
		e.Payload = []byte(`{"S":`)
	case "empty":
		e.Payload = nil
	}
	return e
}

// errors that mean something to some layer: to the bus they are all failures
var routeErrs = []error{ddd.ErrEntityNotFound, ddd.ErrEntityRepeated, ddd.ErrEntityLocked, ddd.ErrEntityNotRegister,
	ddd.ErrNoEventBusFound, ddd.ErrNoEventTimerFound, gorm.ErrRecordNotFound, gorm.ErrDuplicatedKey, sql.ErrNoRows,
	context.Canceled, context.DeadlineExceeded, io.EOF, fmt.Errorf("wrapped: %w", ddd.ErrEntityNotFound), errors.New("")}

func scnRoute(regs, evts int, kinds, pays []string, errs ...error) func(x *explore.X) {
	return func(x *explore.X) {
		r := newRouter(x, x.Pick("bus", 3))
		r.errs = errs
		for i := 0; i < regs; i++ {
			c := x.Pick("registration", 2*len(kinds)+1)
			if c == 0 {
				break
			}
			r.register([]string{"A", "B"}[(c-1)%2], kinds[(c-1)/2])
		}
		for i := 0; i < evts && !r.bad; i++ {
			c := x.Pick("event", 3*len(pays))
			t := []string{"A", "B", "C"}[c%3]
			e := r.event(t, pays[c/3])
			if i == 0 && t != "C" {
				o := map[string]string{"A": "B", "B": "A"}[t]
				r.nest = func() error {
					return r.cb(context.WithValue(context.Background(), ctxKeyR{}, "bus"), r.event(o, "value"))
				}
			} else {
				r.nest = nil
			}
			r.deliver(t, e)
			if r.nested > 0 && !r.bad {
				// every handler of the other type was called by the nested delivery
				o, n, m := map[string]string{"A": "B", "B": "A"}[t], 0, 0
				for _, g := range r.regs {
					if g.typ == o {
						n++
					}
				}
				for _, c := range r.calls {
					if r.regs[c.reg].typ == o {
						m++
					}
				}
				if m != n*r.nested {
					r.fail("nested", "a nested event reached %d handlers instead of %d", m, n*r.nested)
				}
			}
			r.nested, r.calls = 0, nil
			r.nest = nil
		}
		var l []string
		for _, g := range r.regs {
			l = append(l, g.typ+g.kind)
		}
		x.StepStr(strings.Join(l, ","))
		x.Outcome("%d handlers, failed %v", len(r.regs), r.err != nil)
	}
}

// scnRouteCancelled: the bus's context is over before the event is delivered,
// which is no reason for a handler to be left out or to have failed.
func scnRouteCancelled(x *explore.X) {
	r := newRouter(x, x.Pick("bus", 3))
	r.cancelled = true
	for i := 0; i < 3; i++ {
		c := x.Pick("registration", 6)
		if c == 0 {
			break
		}
		r.register("A", rkinds[c-1])
		x.StepStr(rkinds[c-1])
	}
	r.deliver("A", r.event("A", "value"))
	x.Outcome("%d handlers, failed %v", len(r.regs), r.err != nil)
}

// ---- transaction checks

type (
	status  int
	status8 int8
	statusU uint
)

var ckinds = []string{"none", "typed", "raw", "raw named", "int", "own", "int8", "uint"}

func (r *router) registerChecker(t, kind string, ans int, seen *[]string) {
	et := r.typ(t)
	note := func(s string) { *seen = append(*seen, t+" "+kind+" "+s) }
	raw := func(e *ddd.DomainEvent) string { return "raw " + asJSON(e) }
	switch kind {
	case "typed":
		ddd.RegisterEventTXChecker(et, func(e *evA) ddd.TXStatus { note(asJSON(e)); return ddd.TXStatus(ans) })
	case "raw":
		ddd.RegisterEventTXChecker(et, func(e *ddd.DomainEvent) ddd.TXStatus { note(raw(e)); return ddd.TXStatus(ans) })
	case "raw named":
		ddd.RegisterEventTXChecker(et, ddd.DomainEventTXChecker(func(e *ddd.DomainEvent) ddd.TXStatus { note(raw(e)); return ddd.TXStatus(ans) }))
	case "int":
		ddd.RegisterEventTXChecker(et, func(e *evA) int { note(asJSON(e)); return ans })
	case "own":
		ddd.RegisterEventTXChecker(et, func(e *evA) status { note(asJSON(e)); return status(ans) })
	case "int8":
		ddd.RegisterEventTXChecker(et, func(e *ddd.DomainEvent) status8 { note(raw(e)); return status8(ans) })
	case "uint":
		ddd.RegisterEventTXChecker(et, func(e *evA) statusU { note(asJSON(e)); return statusU(ans) })
	}
}

func scnCheckers(x *explore.X) {
	r := newRouter(x, x.Pick("bus", 3))
	if r.chk == nil {
		r.fail("no-checker", "the bus got no status checker")
		return
	}
	var seen []string
	reg := map[string]string{}
	ans := map[string]int{}
	for _, t := range []string{"A", "B"} {
		k := ckinds[x.Pick("checker of "+t, len(ckinds))]
		if k != "none" {
			ans[t] = x.Pick("answer of "+t, 3)
			r.registerChecker(t, k, ans[t], &seen)
			reg[t] = k
		}
	}
	// a second checker for the same type is rejected and changes nothing
	if reg["A"] != "" && x.Pick("repeated", 2) == 1 {
		func() {
			defer func() {
				if recover() == nil {
					r.fail("repeated-checker", "a second checker for one event type was accepted")
				}
			}()
			r.registerChecker("A", "typed", (ans["A"]+1)%3, &seen)
		}()
	}
	for i := 0; i < 2 && !r.bad; i++ {
		t := []string{"A", "B", "C"}[x.Pick("event", 3)]
		e := r.event(t, payloads[x.Pick("payload", len(payloads))])
		seen = nil
		var got ddd.TXStatus
		func() {
			defer func() {
				if p := recover(); p != nil {
					r.fail("checker-panic", "the status check of a %s checker panicked: %v", reg[t], p)
				}
			}()
			got = r.chk(e)
		}()
		if r.bad {
			return
		}
		k := reg[t]
		want, note := ddd.TXRollBack, ""
		if k != "" {
			g := rreg{t, map[string]string{"raw": "raw", "raw named": "raw", "int8": "raw"}[k]}
			s, ok := g.expect(e)
			if ok {
				want, note = ddd.TXStatus(ans[t]), t+" "+k+" "+s
			}
		}
		if got != want {
			r.fail("wrong-status", "the status check of a %s checker gave %v instead of %v", k, got, want)
		}
		if strings.Join(seen, "|") != note {
			r.fail("wrong-checker", "the checker calls were %q instead of %q", seen, note)
		}
	}
	x.StepStr(fmt.Sprint(reg, ans))
	x.Outcome("%d checkers", len(reg))
}

// ---- end to end and timers

// Sender raises events.
type Sender struct{ ddd.BaseEntity }

// scnRouteMem sends events from commands over the in-memory bus.
func scnRouteMem(x *explore.X) {
	bubble(x, func() {
		r := &router{x: x, n: routeRun.Add(1)}
		bus := mem.NewEventBus(8)
		ctx := context.WithValue(context.Background(), ctxKeyR{}, "bus")
		// how the consuming goroutine ends does not matter here
		end := r.event("end", "value")
		ddd.RegisterEventHandler(end.Type, func(ctx context.Context, e *ddd.DomainEvent) error { runtime.Goexit(); return nil })
		defer func() { bus.Dispatch(ctx, end); synctest.Wait() }()
		h := newEH(x, ecfg{noTx: true})
		r.eng = ddd.NewEngine(nil, &eexec{h}, ddd.WithLogger(discard), ddd.WithoutTransaction, ddd.WithEventBus(bus))
		for i := 0; i < 3; i++ {
			c := x.Pick("registration", 2*len(rkinds)+1)
			if c == 0 {
				break
			}
			r.register([]string{"A", "B"}[(c-1)%2], rkinds[(c-1)/2])
		}
		var evs []*ddd.DomainEvent
		var typs []string
		res := r.eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
			e := &Root{}
			e.SetID("r")
			for i := 0; i < 2; i++ {
				t := []string{"A", "B", "C"}[x.Pick("event", 3)]
				v := someEvent(i)
				v.T = r.typ(t)
				e.AddEvent(v)
				typs = append(typs, t)
			}
			evs = e.GetEvents()
			repo.Add(e)
			return nil
		})
		if res.Error != nil {
			r.fail("unexpected-error", "the command failed: %v", res.Error)
		}
		evs = append([]*ddd.DomainEvent{}, evs...)
		bus.Start(ctx)
		synctest.Wait()
		if r.bad {
			return
		}
		got := r.calls
		for i, t := range typs {
			e := evs[i]
			if e.Type != r.typ(t) {
				r.fail("event-type", "the event has type %s instead of %s", e.Type, r.typ(t))
			}
			n := 0
			for _, g := range r.regs {
				if g.typ == t {
					n++
				}
			}
			if len(got) < n {
				r.fail("not-called", "event %d reached %d handlers instead of %d", i, len(got), n)
				return
			}
			r.check(t, e, got[:n], nil, nil)
			got = got[n:]
		}
		if len(got) > 0 && !r.bad {
			r.fail("called-too-often", "%d handler calls too many", len(got))
		}
		x.Outcome("%d handlers", len(r.regs))
	})
}

// rtimer keeps what the engine hands over.
type rtimer struct {
	cb   ddd.TimerHandler
	keys []string
	err  error
}

func (t *rtimer) RegisterTimerHandler(cb ddd.TimerHandler) { t.cb = cb }
func (t *rtimer) RunCron(key, cron string, data []byte) error {
	if t.err != nil {
		return t.err
	}
	t.keys = append(t.keys, key+"|"+cron+"|"+string(data))
	return nil
}
func (t *rtimer) RunOnce(key string, at time.Time, data []byte) error { return nil }
func (t *rtimer) Cancel(key string) error                             { return nil }

func scnRouteTimer(x *explore.X) {
	tm := &rtimer{}
	n := routeRun.Add(1)
	opt := ddd.WithTimer(tm)
	eng := ddd.NewEngine(nil, &eexec{newEH(x, ecfg{noTx: true})}, ddd.WithLogger(discard), ddd.WithoutTransaction, opt)
	if tm.cb == nil {
		x.Failf("no-timer", "the timer got no callback")
		return
	}
	fire := tm
	if x.Pick("timer of a run", 2) == 1 {
		// a timer given to one command gets the callback as well
		fire = &rtimer{}
		eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error { return nil }, ddd.WithTimer(fire))
		if fire.cb == nil {
			x.Failf("no-timer", "the timer given to a run got no callback")
			return
		}
	}
	key := func(k int) string { return fmt.Sprintf("T%d#%d", k, n) }
	var got []string
	kinds := map[int]int{}
	var wantKeys []string
	boom := errors.New("timer command failed")
	lost := false // a callback did not get the timer's context
	for i := 0; i < 3; i++ {
		k := x.Pick("key", 2)
		kind := x.Pick("kind", 4) // func, command, failing command, handler of the event
		cron := fmt.Sprintf("*/%d * * * *", i+1)
		tm.err = nil
		refuse := x.Pick("timer", 2) == 1 && kind != 3
		if refuse {
			tm.err = errors.New("refused")
		}
		var pan interface{}
		func() {
			defer func() { pan = recover() }()
			note := func(k, c string) { got = append(got, fmt.Sprintf("%d %s %s", kind, k, c)) }
			switch kind {
			case 0:
				eng.RegisterCronTask(ddd.EventType(key(k)), cron, note)
			case 1, 2:
				eng.RegisterCronTaskOfCommand(ddd.EventType(key(k)), cron, func(k, c string) ddd.ICommand {
					return &rcmd{f: func(ctx context.Context) error {
						note(k, c)
						lost = lost || ctx.Value(ctxKeyR{}) != "timer"
						if kind == 2 {
							return boom
						}
						return nil
					}}
				})
			case 3:
				if _, in := kinds[k]; in {
					panic("only one handler per key here")
				}
				ddd.RegisterEventHandler(ddd.EventType(key(k)), func(ctx context.Context, e *ddd.TimerEvent) error {
					lost = lost || ctx.Value(ctxKeyR{}) != "timer"
					note(e.Key, e.Cron+string(e.Payload))
					return nil
				})
			}
		}()
		_, in := kinds[k]
		if (in || refuse) != (pan != nil) {
			x.Failf("timer-registration", "registering (key known %v, timer refuses %v) gave panic %v", in, refuse, pan)
			return
		}
		if refuse && !in {
			return // the handler stays registered
		}
		if !in {
			kinds[k] = kind
			if kind != 3 {
				wantKeys = append(wantKeys, key(k)+"|"+cron+"|")
			}
		}
	}
	if g, w := strings.Join(tm.keys, ","), strings.Join(wantKeys, ","); g != w {
		x.Failf("timer-keys", "the timer was given %s instead of %s", g, w)
		return
	}
	for i := 0; i < 2; i++ {
		k := x.Pick("fire", 3)
		got = nil
		err := fire.cb(context.WithValue(context.Background(), ctxKeyR{}, "timer"), key(k), "c r o n", []byte{'d', 0xff})
		kind, in := kinds[k]
		w := ""
		if in {
			w = fmt.Sprintf("%d %s %s", kind, key(k), "c r o n")
			if kind == 3 {
				w += "d\xff"
			}
		}
		if strings.Join(got, ",") != w {
			x.Failf("timer-route", "the callbacks were %q instead of %q", got, w)
			return
		}
		if (in && kind == 2) != errors.Is(err, boom) || (err != nil && !(in && kind == 2)) {
			x.Failf("timer-error", "the timer got error %v from a callback of kind %d", err, kind)
			return
		}
		if lost {
			x.Failf("context", "a callback did not get the timer's context")
			return
		}
	}
	x.StepStr(fmt.Sprint(kinds))
	x.Outcome("%d keys", len(kinds))
}

func init() {
	short := []string{"typed", "raw", "other type", "engine main", "engine raw"}
	add(&explore.Property{
		ID: "C12", Title: "events reach exactly the handlers registered for their type",
		Rule:        "all sequences of up to three registrations (ten kinds of handlers, two event types) x all sequences of events (three types, six kinds of payloads), every handler call failing, panicking, breaking or delivering another event; all pairs of checkers (seven kinds) x events; cron tasks; end to end over the in-memory bus",
		Assumptions: []string{"handlers return error interfaces or pointers, and do not change the event they are given"},
		Scenarios: []*explore.Scenario{
			{Name: "route", Doc: "three registrations, one event", Run: scnRoute(3, 1, rkinds, payloads[:5]), Quick: 1, Thorough: 2},
			{Name: "route-events", Doc: "two registrations, sequences of events", Run: scnRoute(2, 2, rkinds, payloads), Quick: 1, Thorough: 2},
			{Name: "route-many", Doc: "four registrations", Run: scnRoute(4, 1, short, payloads[:1]), Quick: 1, Thorough: 2},
			{Name: "route-mem", Doc: "from a command over the in-memory bus to the handlers", Run: scnRouteMem},
			{Name: "route-cancelled", Doc: "the bus's context is over", Run: scnRouteCancelled, Quick: 1, Thorough: 2},
			{Name: "route-errors", Doc: "two registrations, handlers failing with well-known errors", Run: scnRoute(2, 1, rkinds, payloads[:1], routeErrs...), Quick: 1, Thorough: 2},
			{Name: "checkers", Doc: "transaction status checks", Run: scnCheckers},
			{Name: "cron-tasks", Doc: "timer callbacks", Run: scnRouteTimer},
		},
	})
}
