package checks

import (
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"
	busmysql "github.com/bytedance/dddfirework/eventbus/mysql"

	"verif/mc/explore"
	"verif/mc/world"
)

// onceSpec is a C17 system: several instances of service A competing.
type onceSpec struct {
	insts   int
	other   bool // one instance of another service
	conc    int
	events  []string
	kicks   int // instances that also trigger handling after the dispatch
	slow    time.Duration
	fails   map[string]int // event -> attempts that fail
	panics  bool
	limit   int
	horizon time.Duration
	from    time.Duration
	slows   []time.Duration // handler durations to enumerate
	every   time.Duration   // polling interval
	// life: one more instance of A comes at an enumerated time, all clean every
	// second what is older than two seconds, B is one late or needs retries
	life bool
	// faults: statements and commits may fail
	faults bool
}

func scnBusOnce(sp onceSpec, cfg world.Config) func(x *explore.X) {
	return func(x *explore.X) {
		world.Run(x, cfg, func(w *world.World) {
			b := newBusSys(w)
			opts := func(o *busmysql.Options) {
				o.RetryLimit = 5
				if sp.conc > 0 {
					o.ConsumeConcurrent = sp.conc
				}
				if sp.limit > 0 {
					o.LimitPerRun = sp.limit
				}
				if sp.every > 0 {
					o.RunInterval = sp.every
				}
				if sp.life {
					o.CleanCron, o.RetentionTime = "* * * * * *", 2*time.Second
					o.RetryInterval = 3 * time.Second
				}
			}
			bFails := 0
			if sp.life {
				bFails = x.Pick("failures of B", 4)
			}
			b.behave = func(svc, evt string, n int) error {
				if svc == "A" && n < sp.fails[evt] {
					if sp.panics {
						return errPanic
					}
					return errHandler
				}
				if svc == "B" && n < bFails {
					return errHandler
				}
				return nil
			}
			if len(sp.slows) > 0 {
				d := sp.slows[x.Pick("duration", len(sp.slows))]
				b.slow = func(string, string, int) time.Duration { return d }
			}
			if sp.slow > 0 {
				b.slow = func(string, string, int) time.Duration { return sp.slow }
			}
			var insts []*busInst
			for i := 0; i < sp.insts; i++ {
				insts = append(insts, b.inst(fmt.Sprintf("P%d", i+1), "A", opts))
			}
			if sp.other {
				b.inst("Q1", "B", opts)
			}
			from := sp.from
			if from == 0 {
				from = 1400 * time.Millisecond
			}
			w.Window(from, from+2700*time.Millisecond)
			if sp.life {
				b.later("P9", "A", time.Duration(2+3*x.Pick("joins", 4))*time.Second+200*time.Millisecond, opts)
				if x.Pick("third service", 2) == 1 {
					b.later("R1", "C", 4300*time.Millisecond, opts)
				}
			}
			s := b.newSend(insts[0], "s", ddd.SendTypeNormal, sp.events...)
			insts[0].p.Go("client", func() {
				time.Sleep(1500 * time.Millisecond)
				if s.fire(b) == nil {
					for k := 0; k < sp.kicks; k++ {
						b.kick(insts[k%len(insts)])
					}
				}
			})
			b.track = sp.faults
			bad := false
			w.Check = func() {
				if bad {
					return
				}
				if m := b.overlap(); m != "" {
					bad = true
					w.Fail("overlap", "%s", m)
				}
			}
			h := sp.horizon
			if h == 0 {
				h = 16 * time.Second
			}
			w.Loop(h, func() bool {
				return !sp.life && w.Tasks() == 0 && w.Since() > 4*time.Second && b.openServiceEvents() == 0
			})
			if sp.faults {
				for _, a := range b.again {
					x.Failf("after-commit", "%s", a)
				}
				for _, p := range w.Panics() {
					x.Failf("panic", "%s", p)
				}
				b.outcome(fmt.Sprint(s.err, w.Faults()))
				return
			}
			if s.err != nil {
				x.Failf("dispatch", "Dispatch failed without any failure: %v", s.err)
			}
			for _, svc := range b.services() {
				for _, e := range sp.events {
					all, ok := b.deliveries(svc, e)
					want := 1
					if svc == "C" && sp.life { // came after the event
						if len(all) > 0 && ok > 1 {
							x.Failf("duplicate", "%s handled %s successfully %d times", svc, e, ok)
						}
						continue
					}
					if svc == "A" {
						want += sp.fails[e]
					} else {
						want += bFails
					}
					if ok > 1 {
						x.Failf("duplicate", "%s handled %s successfully %d times", svc, e, ok)
					} else if ok == 0 {
						x.Failf("not-handled", "%s never handled %s (%d calls)", svc, e, len(all))
					} else if len(all) != want {
						x.Failf("calls", "%s was called %d times for %s, want %d", svc, len(all), e, want)
					}
					// nothing after success
					for k, d := range all {
						if d.ok && k != len(all)-1 {
							x.Failf("after-success", "%s was handed %s again after success", svc, e)
						}
					}
				}
			}
			for _, p := range w.Panics() {
				x.Failf("panic", "%s", p)
			}
			b.outcome("")
		})
	}
}

func init() {
	pre := world.Config{Preempt: true, Holds: []time.Duration{1200 * time.Millisecond}, MaxSteps: 20000}
	preOnly := world.Config{Preempt: true, MaxSteps: 20000}
	full := world.Config{Preempt: true, Faults: true, CommitFaults: true, Crash: true, MaxCrash: 1, MaxSteps: 20000}
	kinds := world.Config{Preempt: true, Faults: true, CommitFaults: true, Kinds: world.Kinds, MaxSteps: 20000}
	add(&explore.Property{
		ID: "C17", Title: "bus exactly once",
		Rule:        "two or three instances of a service and triggers compete for the same events; every interleaving of their statements up to the deviation bound (a preemption or a stall of 1.2 s each cost one)",
		Assumptions: []string{"MySQL model (mc/memsql)", "no crash and no failing statement, except in bus-once-faults and bus-once-kinds, which check that no two handle an event at a time and none after a stored success"},
		Scenarios: []*explore.Scenario{
			{Name: "bus-once-2inst", Doc: "two instances, one event", Run: scnBusOnce(onceSpec{insts: 2, events: []string{"e1"}}, pre), Quick: 3, Thorough: 4},
			{Name: "bus-once-2inst-2ev", Doc: "two instances, two events", Run: scnBusOnce(onceSpec{insts: 2, events: []string{"e1", "e2"}}, pre), Quick: 2, Thorough: 3},
			{Name: "bus-once-kicks", Doc: "poll and two triggers in one instance, plus another instance", Run: scnBusOnce(onceSpec{insts: 2, events: []string{"e1", "e2"}, kicks: 2}, pre), Quick: 2, Thorough: 3},
			{Name: "bus-once-retry", Doc: "first attempt fails", Run: scnBusOnce(onceSpec{insts: 2, events: []string{"e1"}, fails: map[string]int{"e1": 1}, kicks: 1}, pre), Quick: 2, Thorough: 3},
			{Name: "bus-once-panic", Doc: "first two attempts panic", Run: scnBusOnce(onceSpec{insts: 2, events: []string{"e1", "e2"}, fails: map[string]int{"e1": 2}, panics: true}, pre), Quick: 2, Thorough: 2},
			{Name: "bus-once-conc2", Doc: "two consumers per instance, slow handlers", Run: scnBusOnce(onceSpec{insts: 2, conc: 2, events: []string{"e1", "e2", "e3"}, slow: 1700 * time.Millisecond}, pre), Quick: 2, Thorough: 2},
			{Name: "bus-once-3inst", Doc: "three instances and another service", Run: scnBusOnce(onceSpec{insts: 3, other: true, events: []string{"e1"}}, preOnly), Quick: 2, Thorough: 3},
			{Name: "bus-once-limit", Doc: "two events per scan, four events", Run: scnBusOnce(onceSpec{insts: 2, limit: 2, kicks: 1, events: []string{"e1", "e2", "e3", "e4"}}, preOnly), Quick: 2, Thorough: 2},
			{Name: "bus-once-long", Doc: "handlers of eight seconds to eleven minutes, two instances, two consumers", Run: scnBusOnce(onceSpec{insts: 2, conc: 2, events: []string{"e1", "e2"}, every: 5 * time.Second, slows: []time.Duration{8 * time.Second, 31 * time.Second, 70 * time.Second, 660 * time.Second}, horizon: 25 * time.Minute}, preOnly), Quick: 1, Thorough: 1},
			{Name: "bus-once-life", Doc: "cleaning every second, a slower service, an instance that joins later, a service that comes later", Run: scnBusOnce(onceSpec{insts: 1, other: true, life: true, events: []string{"e1", "e2"}, fails: map[string]int{"e2": 1}, horizon: 26 * time.Second}, preOnly), Quick: 1, Thorough: 1},
			{Name: "bus-once-faults", Doc: "statements and commits fail or stall, instances crash: never two at a time, never again after a stored success", Run: scnBusOnce(onceSpec{insts: 2, events: []string{"e1", "e2"}, fails: map[string]int{"e1": 1}, faults: true}, full), Quick: 2, Thorough: 3},
			{Name: "bus-once-kinds", Doc: "the same with statements failing in every way", Run: scnBusOnce(onceSpec{insts: 2, kicks: 2, events: []string{"e1", "e2"}, fails: map[string]int{"e1": 1}, faults: true}, kinds), Quick: 1, Thorough: 2},
			{Name: "bus-once-days", Doc: "calls minutes to a day apart over up to a week, failing attempts, default cleaning", Run: scnBusDays(ddd.SendTypeNormal)},
			{Name: "bus-once-late", Doc: "deviations around the retries", Run: scnBusOnce(onceSpec{insts: 2, events: []string{"e1", "e2"}, fails: map[string]int{"e1": 2, "e2": 1}, from: 2900 * time.Millisecond}, pre), Quick: 2, Thorough: 3},
		},
	})
}
