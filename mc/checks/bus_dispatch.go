package checks

import (
	"context"
	"fmt"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	busmysql "github.com/bytedance/dddfirework/eventbus/mysql"

	"verif/mc/explore"
	"verif/mc/memsql"
	"verif/mc/world"
)

// dispatchSpec describes a C16 system.
type dispatchSpec struct {
	consumers []string   // services of the consumer instances
	batches   [][]string // Dispatch calls of the producer
	kick      bool       // trigger handling right after, as the engine does
	producers int
	opts      func(o *busmysql.Options)
	failFirst bool // handlers fail on the first attempt
	slow      time.Duration
	horizon   time.Duration
	ages      []time.Duration // pick how long before the call an event was raised
	late      bool            // an instance of another service is made between the calls
	gap       time.Duration   // between the calls
	wait      time.Duration   // the consumers are started only then
	sizes     []int           // of the only call
	window    time.Duration   // end of the deviations
}

func scnBusDispatch(sp dispatchSpec, cfg world.Config) func(x *explore.X) {
	return func(x *explore.X) {
		world.Run(x, cfg, func(w *world.World) {
			b := newBusSys(w)
			if sp.failFirst {
				b.behave = func(svc, evt string, n int) error {
					if n == 0 {
						return errHandler
					}
					return nil
				}
			}
			if sp.slow > 0 {
				b.slow = func(string, string, int) time.Duration { return sp.slow }
			}
			if sp.wait > 0 {
				b.waits = map[string]time.Duration{}
				for k := range sp.consumers {
					b.waits[fmt.Sprintf("C%d", k+1)] = sp.wait
				}
			}
			prods := []*busInst{b.inst("P", "A", sp.opts)}
			if sp.producers > 1 {
				prods = append(prods, b.inst("Q", "A", sp.opts))
			}
			for k, c := range sp.consumers {
				b.inst(fmt.Sprintf("C%d", k+1), c, sp.opts)
			}
			svcs := b.services()
			if sp.late {
				svcs = nil // per call
				b.later("L", "L", []time.Duration{1510 * time.Millisecond, 2200 * time.Millisecond}[x.Pick("service made at", 2)], sp.opts)
			}
			var sends []*send
			if sp.sizes != nil {
				sp.batches = [][]string{many(sp.sizes[x.Pick("events", len(sp.sizes))])}
			}
			for i, names := range sp.batches {
				s := b.newSend(prods[i%len(prods)], "s", ddd.SendTypeNormal, names...)
				if sp.ages != nil {
					for _, n := range names {
						s.ages = append(s.ages, sp.ages[x.Pick("age of "+n, len(sp.ages))])
					}
				}
				sends = append(sends, s)
			}
			end := 4 * time.Second
			if sp.window > 0 {
				end = sp.window
			}
			w.Window(1400*time.Millisecond, end)
			for pi, p := range prods {
				p := p
				pi := pi
				p.p.Go("client", func() {
					time.Sleep(1500 * time.Millisecond)
					for i, s := range sends {
						if i%len(prods) != pi {
							continue
						}
						if s.fire(b) == nil && sp.kick {
							b.kick(p)
						}
						time.Sleep(sp.gap)
					}
				})
			}
			h := sp.horizon
			if h == 0 {
				h = 14 * time.Second
			}
			w.Loop(h, func() bool {
				return w.Tasks() == 0 && w.Since() > 4*time.Second && b.openServiceEvents() == 0
			})
			b.verifyDispatch(sends, svcs)
			failed := 0
			for _, s := range sends {
				if !s.done || s.err != nil {
					failed++
				}
			}
			b.outcome(fmt.Sprintf("failed=%d", failed))
		})
	}
}

func many(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("m%03d", i))
	}
	return l
}

// scnBusServices has up to 101 services.
func scnBusServices(x *explore.X) {
	ns := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 33, 65, 101}
	n := ns[x.Pick("other services", len(ns))]
	var cs []string
	for i := 0; i < n; i++ {
		cs = append(cs, fmt.Sprintf("S%d", i))
	}
	scnBusDispatch(dispatchSpec{consumers: cs, batches: [][]string{{"e1", "e2"}, {"e3"}}}, world.Config{MaxSteps: 200000})(x)
}

// scnBusOldServices: services that were registered long before the call, and
// services with odd names.
func scnBusOldServices(x *explore.X) {
	world.Run(x, world.Config{MaxSteps: 50000}, func(w *world.World) {
		b := newBusSys(w)
		names := []string{"B", "b", "A%", "A_", "order-service", "订单服务", strings.Repeat("s", 30), strings.Repeat("订", 30), "B' OR '1'='1", "0", "A,B", "A.B", "null"}
		svc := names[x.Pick("service", len(names))]
		age := []time.Duration{0, time.Hour, 25 * time.Hour, 8 * 24 * time.Hour, 40 * 24 * time.Hour, 800 * 24 * time.Hour}[x.Pick("registered", 6)]
		in := b.inst("P", "A", nil)
		b.inst("C", svc, nil)
		for _, r := range w.DB.Rows(tblService) {
			at := time.Now().Add(-age)
			name := r["name"]
			w.DB.DeleteWhere(tblService, func(m map[string]memsql.Value) bool { return m["name"] == name })
			r["created_at"], r["updated_at"] = at, at
			w.DB.Put(tblService, r)
		}
		sends := []*send{b.newSend(in, "s", ddd.SendTypeNormal, "e1", "e2"), b.newSend(in, "t", ddd.SendTypeLaxFIFO, "f1")}
		in.p.Go("client", func() {
			time.Sleep(1500 * time.Millisecond)
			for _, s := range sends {
				s.fire(b)
			}
		})
		w.Loop(10*time.Second, func() bool { return w.Tasks() == 0 && w.Since() > 4*time.Second })
		b.verifyDispatch(sends, b.services())
		for _, s := range sends {
			if s.err != nil {
				x.Failf("dispatch", "Dispatch failed without any failure: %v", s.err)
			}
			for _, svc := range b.services() {
				for _, n := range s.names {
					if all, _ := b.deliveries(svc, n); len(all) != 1 {
						x.Failf("calls", "%s was called %d times for %s", svc, len(all), n)
					}
				}
			}
		}
		for _, p := range w.Panics() {
			x.Failf("panic", "%s", p)
		}
		b.outcome("")
	})
}

// a Dispatch inside an already running (bus) transaction context, and empty or
// odd sets, are covered by the sequential part
func init() {
	full := world.Config{Preempt: true, Faults: true, CommitFaults: true, Crash: true, MaxCrash: 1, MaxSteps: 20000}
	kinds := world.Config{Faults: true, CommitFaults: true, Kinds: world.Kinds, MaxSteps: 20000}
	lots := full
	lots.Preempt, lots.MaxSteps = false, 50000
	noPre := full
	noPre.Preempt = false
	crash2 := world.Config{Crash: true, MaxCrash: 2, MaxSteps: 20000, RestartAfter: 700 * time.Millisecond}
	one := func(names ...string) [][]string { return [][]string{names} }
	two := func(o *busmysql.Options) { o.LimitPerRun = 2 }
	add(&explore.Property{
		ID: "C16", Title: "bus dispatch",
		Rule:        "producer and consumer processes of one to three services over one database; every schedule, statement failure, commit failure, lost commit acknowledgement and process crash up to the deviation bound",
		Assumptions: []string{"MySQL model (mc/memsql): READ COMMITTED/REPEATABLE READ row locking, strict sql_mode", "no service is down for longer than the one-day scan window", "handlers succeed eventually"},
		Scenarios: []*explore.Scenario{
			{Name: "bus-dispatch-2ev-2svc", Doc: "one call with two events, services A (producer) and B", Run: scnBusDispatch(dispatchSpec{consumers: []string{"B"}, batches: one("e1", "e2")}, full), Quick: 2, Thorough: 3},
			{Name: "bus-dispatch-3ev-3svc", Doc: "one call with three events, three services", Run: scnBusDispatch(dispatchSpec{consumers: []string{"B", "C"}, batches: one("e1", "e2", "e3")}, noPre), Quick: 2, Thorough: 3},
			{Name: "bus-dispatch-2calls", Doc: "two calls, two instances of one service, handling triggered by the engine hook", Run: scnBusDispatch(dispatchSpec{consumers: []string{"A"}, batches: [][]string{{"e1"}, {"e2"}}, kick: true}, full), Quick: 2, Thorough: 3},
			{Name: "bus-dispatch-2prod", Doc: "two producers dispatch at the same time", Run: scnBusDispatch(dispatchSpec{producers: 2, consumers: []string{"B"}, batches: [][]string{{"e1", "e2"}, {"f1"}}}, full), Quick: 2, Thorough: 3},
			{Name: "bus-dispatch-backlog", Doc: "five events with two per scan", Run: scnBusDispatch(dispatchSpec{consumers: []string{"B"}, batches: [][]string{{"e1", "e2", "e3"}, {"e4"}, {"e5"}}, opts: two}, noPre), Quick: 2, Thorough: 3},
			{Name: "bus-dispatch-ages", Doc: "events raised up to 20 h before they are dispatched, in any order", Run: scnBusDispatch(dispatchSpec{consumers: []string{"B"}, batches: [][]string{{"e1", "e2"}, {"e3"}, {"e4"}}, ages: []time.Duration{0, time.Millisecond, 2 * time.Second, 20 * time.Hour}}, noPre), Quick: 0, Thorough: 1},
			{Name: "bus-dispatch-retry", Doc: "handlers fail on the first attempt", Run: scnBusDispatch(dispatchSpec{consumers: []string{"B"}, batches: one("e1", "e2"), failFirst: true, opts: func(o *busmysql.Options) { o.RetryLimit = 3 }}, full), Quick: 2, Thorough: 3},
			{Name: "bus-dispatch-conc", Doc: "two consumers per instance, slow handlers", Run: scnBusDispatch(dispatchSpec{consumers: []string{"A"}, batches: one("e1", "e2", "e3"), slow: 1200 * time.Millisecond, opts: func(o *busmysql.Options) { o.ConsumeConcurrent = 2 }}, full), Quick: 2, Thorough: 3},
			{Name: "bus-dispatch-twocrash", Doc: "two crashes anywhere", Run: scnBusDispatch(dispatchSpec{consumers: []string{"B"}, batches: [][]string{{"e1", "e2"}, {"e3"}}}, crash2), Quick: 2, Thorough: 2},
			{Name: "bus-dispatch-late", Doc: "another service is made between (or while) two calls", Run: scnBusDispatch(dispatchSpec{consumers: []string{"B"}, batches: [][]string{{"e1"}, {"e2", "e3"}, {"e4"}}, gap: time.Second, late: true}, full), Quick: 1, Thorough: 2},
			{Name: "bus-dispatch-unstarted", Doc: "buses that are made before and started after the calls", Run: scnBusDispatch(dispatchSpec{consumers: []string{"A", "B"}, batches: [][]string{{"e1", "e2"}, {"e3"}}, wait: 2500 * time.Millisecond}, full), Quick: 1, Thorough: 2},
			{Name: "bus-dispatch-kinds", Doc: "statements fail in every way", Run: scnBusDispatch(dispatchSpec{consumers: []string{"B"}, batches: [][]string{{"e1", "e2"}, {"e3"}}, opts: func(o *busmysql.Options) { o.RetryLimit = 3 }, failFirst: true}, kinds), Quick: 1, Thorough: 2},
			{Name: "bus-dispatch-services", Doc: "one to 101 other services", Run: scnBusServices, Quick: 0, Thorough: 0},
			{Name: "bus-dispatch-old", Doc: "services registered up to two years ago, with odd names", Run: scnBusOldServices, Quick: 0, Thorough: 0},
			{Name: "bus-dispatch-130", Doc: "a backlog larger than the default scan", Run: scnBusDispatch(dispatchSpec{consumers: []string{"B"}, batches: [][]string{many(130)}, horizon: 30 * time.Second}, world.Config{MaxSteps: 50000}), Quick: 0, Thorough: 0},
			{Name: "bus-dispatch-lots", Doc: "calls of up to 260 events, deviations around the call", Run: scnBusDispatch(dispatchSpec{consumers: []string{"B"}, sizes: []int{6, 12, 26, 60, 101, 130, 260}, window: 1600 * time.Millisecond, horizon: 30 * time.Second}, lots), Quick: 1, Thorough: 2},
		},
	})
	_ = context.Background
}
