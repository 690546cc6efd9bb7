package checks

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	busmysql "github.com/bytedance/dddfirework/eventbus/mysql"

	"verif/mc/explore"
	"verif/mc/world"
)

// policy is a retry policy with what the repository documents for it: gaps[i]
// is the minimal time between attempt i and attempt i+1, so there are at most
// len(gaps)+1 attempts.
type policy struct {
	name string
	set  func(o *busmysql.Options)
	gaps []time.Duration
}

func repeat(d time.Duration, n int) []time.Duration {
	l := make([]time.Duration, n)
	for i := range l {
		l[i] = d
	}
	return l
}

func intervalPolicy(d time.Duration, limit int) policy {
	return policy{fmt.Sprintf("interval %s limit %d", d, limit), func(o *busmysql.Options) {
		o.RetryInterval, o.RetryLimit = d, limit
	}, repeat(d, limit+1)}
}

func customPolicy(l ...time.Duration) policy {
	return policy{fmt.Sprintf("custom %v", l), func(o *busmysql.Options) {
		o.RetryInterval, o.RetryLimit = 0, 0
		o.CustomRetry = append([]time.Duration{}, l...)
	}, l}
}

func strategyPolicy(s busmysql.IRetryStrategy, gaps []time.Duration) policy {
	return policy{fmt.Sprintf("strategy %T%+v", s, s), func(o *busmysql.Options) {
		o.RetryInterval, o.RetryLimit = 0, 0
		o.RetryStrategy = s
	}, gaps}
}

// ownStrategy is a user-defined strategy: grows by its own rule, stops at 2.
type ownStrategy struct{}

func (ownStrategy) Next(i *busmysql.RetryInfo) *busmysql.RetryInfo {
	if i.RetryCount >= 2 {
		return nil
	}
	return &busmysql.RetryInfo{ID: i.ID, RetryCount: i.RetryCount + 1, RetryTime: i.RetryTime.Add(time.Duration(i.RetryCount+1) * 1500 * time.Millisecond)}
}
func (ownStrategy) RetryCount() int { return 2 }

func policies() []policy {
	ms := time.Millisecond
	return []policy{
		intervalPolicy(2500*ms, 1),
		intervalPolicy(1500*ms, 0),
		intervalPolicy(700*ms, 3),
		intervalPolicy(2500*ms, -1),
		customPolicy(2500 * ms),
		customPolicy(1200*ms, 3300*ms, 400*ms),
		customPolicy(3300*ms, 1200*ms),
		customPolicy(0, 1200*ms, 0),
		strategyPolicy(&busmysql.LimitRetry{Limit: 1}, repeat(0, 2)),
		strategyPolicy(&busmysql.LimitRetry{Limit: 0}, repeat(0, 1)),
		strategyPolicy(&busmysql.IntervalRetry{Limit: 2, Interval: 1300 * ms}, repeat(1300*ms, 3)),
		strategyPolicy(&busmysql.CustomRetry{Intervals: []time.Duration{600 * ms, 2600 * ms}}, []time.Duration{600 * ms, 2600 * ms}),
		strategyPolicy(ownStrategy{}, []time.Duration{1500 * ms, 3000 * ms}),
		{"default", func(o *busmysql.Options) { o.RetryInterval, o.RetryLimit = 0, 0 }, repeat(3*time.Second, 6)},
	}
}

// nasty error texts: lengths around the column limit, multi-byte characters
// across the cut, invalid and odd bytes
var nasty = []struct {
	name string
	text string
}{
	{"empty", ""},
	{"65535 bytes", strings.Repeat("x", 65535)},
	{"65536 bytes", strings.Repeat("x", 65536)},
	{"multi-byte across 65535", "x" + strings.Repeat("é", 32767) + "é"},
	{"3-byte runes", strings.Repeat("错", 30000)},
	{"4-byte runes", "ab" + strings.Repeat("😀", 17000)},
	{"invalid UTF-8", "bad \xff\xfe bytes"},
	{"truncated rune at the end", "cut \xe9\x94"},
	{"long and invalid", strings.Repeat("\xe9\x94", 40000)},
	{"NUL and quotes", "a\x00b'c\"d\\e%s%d`"},
}

// failKinds are ways for a handler to fail: errors that code tends to treat
// specially, returned and as panics, other panic values and runtime panics.
func failKinds() []error {
	l := append([]error{}, routeErrs...)
	for _, e := range routeErrs {
		e := e
		l = append(l, panicBy(func() { panic(e) }))
	}
	for _, v := range []interface{}{"text", 7, struct{ A int }{1}, []byte("b"), true, (*retrySpec)(nil), fmt.Errorf("e: %w", errHandler)} {
		v := v
		l = append(l, panicBy(func() { panic(v) }))
	}
	return append(l,
		panicBy(func() { var m map[string]int; m["a"] = 1 }),
		panicBy(func() { var l []int; _ = l[len(l)] }),
		panicBy(func() { var p *retrySpec; p.pol = 1 }),
		panicBy(func() { var v interface{} = 1; _ = v.(string) }),
		panicBy(func() { panic(nil) }),
		errors.Join(errHandler, context.Canceled),
	)
}

type retrySpec struct {
	pol      int // fixed policy, or -1 to enumerate all
	attempts int // outcomes enumerated for the first attempts of e1 in A
	kinds    int // 3: ok, error, panic
	nasty    bool
	ways     bool // failKinds
	insts    int
	conc     int
	other    bool
	events   []string
	late     bool // another event is sent while e1 is being retried
	both     bool // e2's outcomes are enumerated too
	always   bool // e1 never succeeds
	slow     time.Duration
	horizon  time.Duration
	own      *policy
	perRun   int
	pols     []policy      // enumerate these instead
	run      time.Duration // RunInterval, default 500 ms
	timing   bool          // check upper bounds of delays (no preemption/holds)
}

func scnBusRetry(sp retrySpec, cfg world.Config) func(x *explore.X) {
	pols := policies()
	if sp.pols != nil {
		pols = sp.pols
	}
	run := sp.run
	if run == 0 {
		run = 500 * time.Millisecond
	}
	return func(x *explore.X) {
		world.Run(x, cfg, func(w *world.World) {
			b := newBusSys(w)
			pol := pols[max(sp.pol, 0)]
			if sp.pol < 0 {
				pol = pols[x.Pick("policy", len(pols))]
			}
			if sp.own != nil {
				pol = *sp.own
			}
			x.Tracef("policy: %s", pol.name)
			opts := func(o *busmysql.Options) {
				o.RetryStrategy, o.CustomRetry = nil, nil
				o.RunInterval = run
				pol.set(o)
				if sp.perRun > 0 {
					o.LimitPerRun = sp.perRun
				}
				if sp.conc > 0 {
					o.ConsumeConcurrent = sp.conc
				}
			}
			type key struct {
				e string
				n int
			}
			memo := map[key]error{}
			b.behave = func(svc, evt string, n int) error {
				if svc != "A" || !(evt == "e1" || evt == "e2" && sp.both) {
					return nil
				}
				if n >= sp.attempts {
					if sp.always {
						return errHandler
					}
					return nil
				}
				k := key{evt, n}
				if e, ok := memo[k]; ok {
					return e
				}
				var r error
				if sp.ways {
					l := failKinds()
					r = l[x.Pick("failure", len(l))]
				} else if sp.nasty {
					c := x.Pick("message", len(nasty)*2)
					t := nasty[c/2]
					if c%2 == 1 {
						x.Tracef("%s panics with: %s", evt, t.name)
						panic(errors.New(t.text))
					}
					x.Tracef("%s fails with: %s", evt, t.name)
					r = errors.New(t.text)
				} else {
					switch x.Pick(fmt.Sprintf("outcome of %s attempt %d", evt, n+1), sp.kinds) {
					case 1:
						r = errHandler
					case 2:
						r = errPanic
					}
				}
				memo[k] = r
				return r
			}
			if sp.slow > 0 {
				b.slow = func(svc, e string, _ int) time.Duration {
					if e == "e1" {
						return sp.slow
					}
					return 0
				}
			}
			var insts []*busInst
			for i := 0; i < max(1, sp.insts); i++ {
				insts = append(insts, b.inst(fmt.Sprintf("P%d", i+1), "A", opts))
			}
			if sp.other {
				b.inst("Q1", "B", opts)
			}
			events := sp.events
			if events == nil {
				events = []string{"e1", "e2"}
			}
			s := b.newSend(insts[0], "s", ddd.SendTypeNormal, events...)
			var s2 *send
			w.Window(1400*time.Millisecond, 6*time.Second)
			insts[0].p.Go("client", func() {
				time.Sleep(1500 * time.Millisecond)
				s.fire(b)
				if sp.late {
					time.Sleep(2 * time.Second)
					s2 = b.newSend(insts[0], "s", ddd.SendTypeNormal, "late")
					s2.fire(b)
				}
			})
			var total time.Duration
			for _, g := range pol.gaps {
				total += g + run + 100*time.Millisecond
			}
			h := sp.horizon
			if h == 0 {
				h = 6*time.Second + 12*run + total*2 + time.Duration(len(pol.gaps)+1)*sp.slow
			}
			// run on a good while after everything is finished
			var idle time.Duration
			w.Loop(h, func() bool {
				if w.Tasks() > 0 || b.openServiceEvents() > 0 {
					idle = 0
					return false
				}
				if idle == 0 {
					idle = w.Since()
				}
				return w.Since() > idle+8*run
			})
			if s.err != nil {
				x.Failf("dispatch", "Dispatch failed without any failure: %v", s.err)
			}
			if s2 != nil {
				events = append(append([]string{}, events...), "late")
			}
			status := map[string]int64{} // service/event -> status column
			byID := map[string]string{}
			for n, e := range b.sent {
				byID[e.ID] = n
			}
			for _, r := range w.DB.Rows(tblSvcEvt) {
				for _, e := range w.DB.Rows(tblEvent) {
					if e["id"] == r["event_id"] {
						status[fmt.Sprint(r["service"])+"/"+byID[fmt.Sprint(e["event_id"])]] = r["status"].(int64)
					}
				}
			}
			for _, svc := range b.services() {
				for _, e := range events {
					troubled := svc == "A" && (e == "e1" || e == "e2" && sp.both)
					all, okN := b.deliveries(svc, e)
					if len(all) == 0 {
						x.Failf("not-handled", "%s was never handed %s", svc, e)
						continue
					}
					if first := all[0].start.Sub(b.sent[e].CreatedAt); sp.timing && first > 2*run+200*time.Millisecond {
						x.Failf("delayed", "%s was handed %s only after %s", svc, e, first)
					}
					st := status[svc+"/"+e]
					if !troubled {
						if len(all) != 1 || okN != 1 || st != int64(busmysql.ServiceEventStatusSuccess) {
							x.Failf("collateral", "%s handled the healthy %s %d times (%d ok, status %d)", svc, e, len(all), okN, st)
						}
						continue
					}
					for k, d := range all {
						if d.ok && k != len(all)-1 {
							x.Failf("after-success", "%s was handed %s again after it succeeded", svc, e)
						}
						if k == 0 {
							continue
						}
						if k > len(pol.gaps) {
							x.Failf("too-many", "%s was handed %s %d times; policy (%s) allows %d", svc, e, len(all), pol.name, len(pol.gaps)+1)
							break
						}
						gap := d.start.Sub(all[k-1].start)
						gend := d.start.Sub(all[k-1].end)
						if gend < pol.gaps[k-1]-time.Millisecond {
							x.Failf("too-soon", "attempt %d of %s came %s after the previous one, policy (%s) says %s", k+1, e, gend, pol.name, pol.gaps[k-1])
						}
						if sp.timing && gap > pol.gaps[k-1]+sp.slow+2*run+200*time.Millisecond {
							x.Failf("too-late", "attempt %d of %s came %s after the previous one, policy (%s) says %s", k+1, e, gap, pol.name, pol.gaps[k-1])
						}
					}
					switch {
					case okN > 0:
						if st != int64(busmysql.ServiceEventStatusSuccess) {
							x.Failf("status", "%s succeeded but has status %d", e, st)
						}
					case len(all) < len(pol.gaps)+1:
						x.Failf("too-few", "%s was handed %s %d times (last outcome: failure); policy (%s) says %d", svc, e, len(all), pol.name, len(pol.gaps)+1)
					case st != int64(busmysql.ServiceEventStatusFailed):
						x.Failf("status", "%s used up its attempts but has status %d", e, st)
					}
				}
			}
			for _, p := range w.Panics() {
				x.Failf("panic", "%s", p)
			}
			b.outcome(fmt.Sprint(pol.name))
		})
	}
}

func init() {
	calm := world.Config{MaxSteps: 30000}
	longWait := customPolicy(7*time.Second, 300*time.Millisecond)
	long := []policy{
		intervalPolicy(2*time.Hour, 2),
		customPolicy(time.Hour, 5*time.Hour, 30*time.Minute),
		customPolicy(7*time.Hour, 6*time.Hour, 5*time.Hour+30*time.Minute, 4*time.Hour),
		customPolicy(59*time.Minute, 61*time.Minute, time.Minute, 3*time.Hour),
		strategyPolicy(&busmysql.IntervalRetry{Limit: 3, Interval: 100 * time.Minute}, repeat(100*time.Minute, 4)),
	}
	var wave []time.Duration
	for i := 0; i < 270; i++ {
		wave = append(wave, time.Duration(600+i%7*450)*time.Millisecond)
	}
	manyTries := []policy{
		intervalPolicy(1300*time.Millisecond, 20),
		intervalPolicy(700*time.Millisecond, 300),
		customPolicy(wave...),
		strategyPolicy(&busmysql.LimitRetry{Limit: 150}, repeat(0, 151)),
	}
	pre := world.Config{Preempt: true, MaxSteps: 30000}
	stall := world.Config{Preempt: true, Holds: []time.Duration{1200 * time.Millisecond}, MaxSteps: 30000}
	add(&explore.Property{
		ID: "C19", Title: "bus retry",
		Rule:        "every sequence of handler outcomes (success, error, panic) up to the stated number of attempts under every policy of a list of 13, error texts of every awkward kind, every pair of 41 ways to fail (well-known errors returned and panicked, other panic values, runtime panics), and interleavings of competing instances up to the deviation bound",
		Assumptions: []string{"MySQL model (mc/memsql), strict sql_mode: an over-long or invalid string makes the statement fail", "statements fail and instances crash only in the bus-retry-faults scenarios; an attempt whose outcome could not be stored need not count"},
		Scenarios: []*explore.Scenario{
			{Name: "bus-retry-policies", Doc: "13 policies x all outcomes of the first four attempts of e1; e2 healthy; another service; an event sent meanwhile", Run: scnBusRetry(retrySpec{pol: -1, attempts: 4, kinds: 3, other: true, late: true, timing: true}, calm)},
			{Name: "bus-retry-exhaust", Doc: "13 policies, e1 and e2 fail forever after each combination of error and panic", Run: scnBusRetry(retrySpec{pol: -1, attempts: 2, kinds: 3, both: true, always: true, late: true, timing: true}, calm)},
			{Name: "bus-retry-slow", Doc: "13 policies, the failing handler takes 1.7 s", Run: scnBusRetry(retrySpec{pol: -1, attempts: 3, kinds: 3, slow: 1700 * time.Millisecond, always: true, events: []string{"e1"}}, calm)},
			{Name: "bus-retry-text", Doc: "two attempts with every pair of awkward error texts, as error and as panic", Run: scnBusRetry(retrySpec{pol: 0, attempts: 2, nasty: true, other: true, late: true, timing: true, horizon: 20 * time.Second}, calm)},
			{Name: "bus-retry-kinds", Doc: "two attempts failing with every pair of well-known errors, panic values and runtime panics", Run: scnBusRetry(retrySpec{pol: 0, attempts: 2, ways: true, other: true, late: true, timing: true, horizon: 20 * time.Second}, calm)},
			{Name: "bus-retry-2inst", Doc: "two instances compete for the retries", Run: scnBusRetry(retrySpec{pol: 0, attempts: 3, kinds: 3, insts: 2, always: true}, stall), Quick: 1, Thorough: 2},
			{Name: "bus-retry-2inst-limit", Doc: "two instances, immediate retries", Run: scnBusRetry(retrySpec{pol: 7, attempts: 3, kinds: 3, insts: 2}, stall), Quick: 1, Thorough: 2},
			{Name: "bus-retry-2inst-exhaust", Doc: "two instances, immediate retries, the event fails for good", Run: scnBusRetry(retrySpec{pol: 8, attempts: 1, kinds: 3, insts: 2, always: true}, stall), Quick: 1, Thorough: 2},
			{Name: "bus-retry-waiting", Doc: "two failed events wait for their next attempt, two events per scan; others pass them", Run: scnBusRetry(retrySpec{own: &longWait, attempts: 2, kinds: 3, perRun: 2, both: true, always: true, other: true, late: true, timing: true, events: []string{"e1", "e2", "e3", "e4"}}, calm)},
			{Name: "bus-retry-long", Doc: "scans every ten minutes, attempts up to five hours apart, all outcomes of the first five attempts", Run: scnBusRetry(retrySpec{pol: -1, pols: long, run: 10 * time.Minute, attempts: 5, kinds: 3, other: true, late: true, timing: true}, calm)},
			{Name: "bus-retry-many", Doc: "up to 300 attempts of one event", Run: scnBusRetry(retrySpec{pol: -1, pols: manyTries, attempts: 2, kinds: 3, always: true, other: true, late: true, timing: true}, world.Config{MaxSteps: 200000})},
			{Name: "bus-retry-conc", Doc: "two consumers per instance", Run: scnBusRetry(retrySpec{pol: 5, attempts: 3, kinds: 3, insts: 2, conc: 2, both: true, events: []string{"e1", "e2", "e3"}}, pre), Quick: 0, Thorough: 1},
		},
	})
}
