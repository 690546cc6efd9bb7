package checks

import (
	"context"
	"fmt"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	busmysql "github.com/bytedance/dddfirework/eventbus/mysql"

	"verif/mc/explore"
	"verif/mc/world"
)

// orderSpec is a C18 system: ordered events of sender s (o1, o2, ...) plus
// others, in services A and B.
type orderSpec struct {
	st      ddd.SendType
	n       int  // ordered events of sender s
	batch   bool // dispatched in one call (equal timestamps) or in several
	gap     time.Duration
	insts   int
	conc    int
	kicks   int
	limit   int // retry limit of the policy: limit+2 calls
	perRun  int
	other   bool // service B too
	mixed   bool // unordered event of another sender, ordered events of a third
	fails   int  // outcomes are enumerated for the first `fails` handler calls of sender s in A
	slow    time.Duration
	expire  bool // an operator marks a failed event expired
	twoProd bool
	horizon time.Duration
	stall   bool
	ages    []time.Duration // how long before the call an event was raised
	ids     bool            // the events' IDs sort in any order
	fill    int             // unrelated events between the ordered ones
	fillAll bool            // … dispatched in one call
	first   []int           // the first event fails one of these many times, the others do not
	limits  []int           // one of these retry limits, instead of limit
	senders []string        // sender s is called one of these, a third sender another one
	types   bool            // every ordered event is sent strictly or laxly
	tx      bool            // every call is made plainly or in a transaction
	stored  int             // so many unrelated events are there between the first two calls, handled before
	faults  int             // so many calls may be repeated because their outcome could not be stored
}

func scnBusOrder(sp orderSpec, cfg world.Config) func(x *explore.X) {
	return func(x *explore.X) {
		world.Run(x, cfg, func(w *world.World) {
			b := newBusSys(w)
			sp := sp
			firsts := 0
			if sp.first != nil {
				sp.limit = sp.limits[x.Pick("retry limit", len(sp.limits))]
				firsts = sp.first[x.Pick("failures of the first event", len(sp.first))]
				sp.horizon = 90 * time.Second
			}
			opts := func(o *busmysql.Options) {
				o.RetryLimit = sp.limit
				if sp.conc > 0 {
					o.ConsumeConcurrent = sp.conc
				}
				if sp.perRun > 0 {
					o.LimitPerRun = sp.perRun
				}
			}
			maxCalls := sp.limit + 2
			decided := 0
			b.behave = func(svc, evt string, n int) error {
				if sp.first != nil && evt == "o1" && n < firsts {
					if n%3 == 2 {
						return errPanic
					}
					return errHandler
				}
				if svc != "A" || evt[0] != 'o' || sp.fails == 0 {
					return nil
				}
				b.mu.Lock()
				k := decided
				decided++
				b.mu.Unlock()
				if k >= sp.fails {
					return nil
				}
				switch x.Pick(fmt.Sprintf("outcome of %s attempt %d", evt, n+1), 3) {
				case 1:
					return errHandler
				case 2:
					return errPanic
				}
				return nil
			}
			if sp.slow > 0 {
				b.slow = func(svc, e string, _ int) time.Duration {
					if e == "o1" {
						return sp.slow
					}
					return 0
				}
			}
			var insts []*busInst
			for i := 0; i < sp.insts; i++ {
				insts = append(insts, b.inst(fmt.Sprintf("P%d", i+1), "A", opts))
			}
			if sp.other {
				b.inst("Q1", "B", opts)
			}
			if sp.faults > 0 {
				w.Window(1600*time.Millisecond, 6500*time.Millisecond)
			} else {
				w.Window(1400*time.Millisecond, 4500*time.Millisecond)
			}
			from, other := "s", "t"
			if sp.senders != nil {
				i := x.Pick("sender", len(sp.senders))
				j := x.Pick("third sender", len(sp.senders)-1)
				if j >= i {
					j++
				}
				from, other = sp.senders[i], sp.senders[j]
			}
			var ordered []string
			for i := 1; i <= sp.n; i++ {
				ordered = append(ordered, fmt.Sprintf("o%d", i))
			}
			third := []string{"t1", "t2"}
			var sends []*send
			if sp.batch {
				sends = append(sends, b.newSend(insts[0], from, sp.st, ordered...))
			} else {
				for i, o := range ordered {
					in := insts[0]
					if sp.twoProd {
						in = insts[i%len(insts)]
					}
					sends = append(sends, b.newSend(in, from, sp.st, o))
				}
			}
			stOf := map[string]ddd.SendType{}
			for _, s := range sends {
				for _, n := range s.names {
					stOf[n] = sp.st
					if sp.types {
						stOf[n] = []ddd.SendType{ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO}[x.Pick("send type of "+n, 2)]
						s.sts = append(s.sts, stOf[n])
					}
				}
			}
			for i, s := range sends {
				s.tx = sp.tx && x.Pick(fmt.Sprintf("call %d in a transaction", i+1), 2) == 1
			}
			if sp.ages != nil {
				k := 0
				for _, s := range sends {
					for range s.names {
						s.ages = append(s.ages, sp.ages[k])
						k++
					}
				}
			}
			if sp.ids {
				pool := []string{"a", "b", "c", "d"}[:sp.n]
				for _, s := range sends {
					for range s.names {
						i := x.Pick("ID", len(pool))
						s.ids = append(s.ids, pool[i])
						pool = append(append([]string{}, pool[:i]...), pool[i+1:]...)
					}
				}
			}
			if sp.fill > 0 {
				var l []*send
				for i, s := range sends {
					var names []string
					for j := 0; j < sp.fill && i > 0; j++ {
						names = append(names, fmt.Sprintf("v%d%d", i, j))
					}
					if sp.fillAll && i > 0 {
						l = append(l, b.newSend(insts[0], "u", ddd.SendTypeNormal, names...))
					} else {
						for _, n := range names {
							l = append(l, b.newSend(insts[0], "u", ddd.SendTypeNormal, n))
						}
					}
					l = append(l, s)
				}
				sends = l
			}
			if sp.mixed {
				sends = append(sends, b.newSend(insts[0], "u", ddd.SendTypeNormal, "u1"))
				sends = append(sends, b.newSend(insts[0], other, sp.st, third...))
			}
			insts[0].p.Go("client", func() {
				time.Sleep(1500 * time.Millisecond)
				for i, s := range sends {
					for j := 0; j < sp.stored && i == 1; j++ {
						b.putEvt(insts[0].p, newEvt(fmt.Sprintf("v%d", j), "u", ddd.SendTypeNormal), 0, 0, false, map[string]svcState{"A": {status: busmysql.ServiceEventStatusSuccess}})
					}
					s.fire(b)
					time.Sleep(sp.gap)
				}
				for k := 0; k < sp.kicks; k++ {
					b.kick(insts[k%len(insts)])
				}
			})
			// final state of an event in a service: 0 open, 1 ok, 2 finally failed, 3 expired
			expired := map[string]bool{}
			final := func(svc, e string) int {
				all, ok := b.deliveries(svc, e)
				switch {
				case ok > 0:
					return 1
				case expired[svc+e]:
					return 3
				case len(all) >= maxCalls && all[len(all)-1].done:
					return 2
				}
				return 0
			}
			seen := 0
			reported := map[string]bool{}
			check := func() {
				b.mu.Lock()
				log := append([]*delivery{}, b.log[seen:]...)
				seen = len(b.log)
				b.mu.Unlock()
				for _, d := range log {
					var chain []string
					switch d.evt[0] {
					case 'o':
						chain = ordered
					case 't':
						chain = third
					}
					for i, e := range chain {
						if e != d.evt {
							continue
						}
						for j, prev := range chain[:i] {
							f := final(d.svc, prev)
							ok := f == 1 || f == 3 || f == 2 && sp.st == ddd.SendTypeLaxFIFO
							if sp.types { // with mixed types the kind of an event decides about its own predecessor
								ok = ok || f == 2 && (stOf[e] == ddd.SendTypeLaxFIFO || j < i-1)
							}
							if !ok && !reported[d.svc+e+prev] {
								reported[d.svc+e+prev] = true
								w.Fail("order", "%s started handling %s while %s was not finished (state %d)", d.svc, e, prev, f)
							}
						}
					}
				}
			}
			w.Check = check
			h := sp.horizon
			if h == 0 {
				h = 30 * time.Second
			}
			if sp.expire {
				w.At(14*time.Second, "operator expires failed events", func() {
					for _, id := range b.expire("") {
						for _, n := range ordered {
							if strings.HasSuffix(id, b.sent[n].ID) {
								expired[strings.TrimSuffix(id, b.sent[n].ID)+n] = true
							}
						}
					}
				})
			}
			w.Loop(h, func() bool {
				return w.Tasks() == 0 && w.Since() > 5*time.Second && b.openServiceEvents() == 0
			})
			check()
			for _, s := range sends {
				if s.err != nil {
					x.Failf("dispatch", "Dispatch failed without any failure: %v", s.err)
				}
			}
			// everything whose predecessors are finished gets handled; blocked
			// events are not handled and use up no attempts
			var out []string
			for _, svc := range b.services() {
				blocked := false
				for i, e := range ordered {
					f := final(svc, e)
					all, _ := b.deliveries(svc, e)
					if sp.types && !blocked {
						blocked = i > 0 && stOf[e] == ddd.SendTypeFIFO && final(svc, ordered[i-1]) == 2
					}
					if blocked {
						if len(all) > 0 {
							x.Failf("blocked-handled", "%s handled %s although a predecessor failed", svc, e)
						}
						continue
					}
					if f == 0 {
						x.Failf("stuck", "%s never finished %s (%d calls)", svc, e, len(all))
					}
					if len(all) > maxCalls+sp.faults {
						x.Failf("too-many-calls", "%s was called %d times for %s", svc, len(all), e)
					}
					if f == 2 && sp.st == ddd.SendTypeFIFO && !sp.types {
						blocked = true
					}
					out = append(out, fmt.Sprintf("%s%s=%d", svc, e, f))
				}
				if sp.faults == 0 && !sp.expire && sp.fill == 0 && sp.ages == nil {
					// handled soon after the last predecessor was done
					due := time.Time{}
					for _, e := range ordered {
						all, _ := b.deliveries(svc, e)
						if len(all) == 0 {
							break
						}
						if t := b.sent[e].CreatedAt; t.After(due) {
							due = t
						}
						if d := all[0].start.Sub(due); d > 5*time.Second+w.Held() {
							x.Failf("delayed", "%s handled %s only %s after its predecessor was done", svc, e, d)
						}
						if t := all[len(all)-1].end; t.After(due) {
							due = t
						}
					}
				}
				if sp.mixed {
					for _, e := range append([]string{"u1"}, third...) {
						all, ok := b.deliveries(svc, e)
						if ok != 1 {
							x.Failf("delayed", "%s did not handle the unrelated event %s (%d calls)", svc, e, len(all))
							continue
						}
						if e == "u1" && all[0].start.Sub(b.sent["u1"].CreatedAt) > 4*time.Second+sp.slow {
							x.Failf("delayed", "%s handled the unrelated event %s only after %s", svc, e, all[0].start.Sub(b.sent["u1"].CreatedAt))
						}
					}
				}
				if svc == "B" {
					for _, e := range ordered {
						if all, ok := b.deliveries(svc, e); ok != 1 || len(all) != 1 {
							x.Failf("other-service", "service B handled %s %d times (%d ok)", e, len(all), ok)
						}
					}
				}
			}
			b.outcome(strings.Join(out, " "))
		})
	}
}

// scnBusStarve: a finally failed strictly ordered event blocks more events
// than one scan takes; another sender's event comes after them.
func scnBusStarve(x *explore.X) {
	world.Run(x, world.Config{MaxSteps: 30000}, func(w *world.World) {
		b := newBusSys(w)
		b.behave = func(svc, evt string, n int) error {
			if evt == "o1" {
				return errHandler
			}
			return nil
		}
		p := b.inst("P1", "A", func(o *busmysql.Options) { o.RetryLimit = -1; o.LimitPerRun = 2 })
		blocked := 1 + x.Pick("blocked events", 4)
		names := many(blocked + 1)
		for i := range names {
			names[i] = fmt.Sprintf("o%d", i+1)
		}
		p.p.Go("client", func() {
			time.Sleep(1500 * time.Millisecond)
			b.newSend(p, "s", ddd.SendTypeFIFO, names...).fire(b)
			time.Sleep(3 * time.Second)
			b.newSend(p, "u", ddd.SendTypeNormal, "u1").fire(b)
		})
		w.Loop(60*time.Second, nil)
		if _, ok := b.deliveries("A", "u1"); ok != 1 {
			sig := "starved"
			if blocked < 2 {
				sig = "delayed"
			}
			x.Failf(sig, "%d blocked events of sender s (2 per scan) keep the unordered event of sender u from being handled", blocked)
		}
		for _, n := range names[1:] {
			if all, _ := b.deliveries("A", n); len(all) > 0 {
				x.Failf("blocked-handled", "%s was handled although its predecessor failed", n)
			}
		}
		b.outcome("")
	})
}

// scnBusNoSender: an ordered event that names no sender cannot be put in any
// order; it is refused together with its call, or handled, but never accepted
// and left lying.
func scnBusNoSender(x *explore.X) {
	world.Run(x, world.Config{MaxSteps: 30000}, func(w *world.World) {
		b := newBusSys(w)
		p := b.inst("P1", "A", nil)
		types := []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO, ddd.SendTypeTransaction}
		n := 1 + x.Pick("events", 3)
		var evts []*ddd.DomainEvent
		refuse := false
		for i := 0; i < n; i++ {
			st := types[x.Pick("send type", len(types))]
			from := []string{"s", ""}[x.Pick("sender", 2)]
			evts = append(evts, b.mk(fmt.Sprintf("e%d", i), from, st))
			refuse = refuse || from == "" && (st == ddd.SendTypeFIFO || st == ddd.SendTypeLaxFIFO)
		}
		tx := x.Pick("in a transaction", 2) == 1
		var err error
		p.p.Go("client", func() {
			time.Sleep(1500 * time.Millisecond)
			if !tx {
				err = p.bus.Dispatch(context.Background(), evts...)
				return
			}
			var ctx context.Context
			if ctx, err = p.bus.DispatchBegin(context.Background(), evts...); err == nil {
				err = p.bus.Commit(ctx)
			}
		})
		w.Loop(20*time.Second, func() bool {
			return w.Tasks() == 0 && w.Since() > 5*time.Second && b.openServiceEvents() == 0
		})
		if err != nil && !refuse {
			x.Failf("dispatch", "the call failed without any failure: %v", err)
		}
		for i := range evts {
			_, ok := b.deliveries("A", fmt.Sprintf("e%d", i))
			if err == nil && ok != 1 {
				x.Failf("no-sender", "event %d of a call that succeeded was handled %d times", i, ok)
			}
			if err != nil && ok > 0 {
				x.Failf("no-sender-partial", "event %d of a refused call was handled", i)
			}
		}
		if l := w.DB.Rows(tblTx); err != nil && len(l) > 0 {
			x.Failf("no-sender-pending", "the transaction of a refused call stays")
		}
		b.outcome(fmt.Sprint(err))
	})
}

// scnBusWindow: a service looks 24 h back. A predecessor that is not finished by
// then does not hold up the events after it any longer.
func scnBusWindow(st ddd.SendType) func(x *explore.X) {
	return func(x *explore.X) {
		world.Run(x, world.Config{MaxSteps: 30000}, func(w *world.World) {
			b := newBusSys(w)
			b.behave = func(svc, evt string, n int) error {
				return []error{nil, errHandler, errPanic}[x.Pick("outcome of "+evt, 3)]
			}
			wait := x.Pick("retries", 2) == 1 // failed for good, or due again in an hour
			p := b.inst("P1", "A", func(o *busmysql.Options) {
				o.RetryLimit = -1
				if wait {
					o.RetryLimit, o.RetryInterval = 3, time.Hour
				}
			})
			s := b.newSend(p, "s", st, "o1", "o2", "o3", "o4")
			s.ages = []time.Duration{24*time.Hour - 10*time.Second, []time.Duration{24*time.Hour - 20*time.Second, 13 * time.Hour}[x.Pick("age of the second", 2)], 12 * time.Hour, 0}
			p.p.Go("client", func() {
				time.Sleep(1500 * time.Millisecond)
				s.fire(b)
			})
			w.Loop(60*time.Second, nil)
			var free time.Time // the next event may start from here on
			for i, n := range s.names {
				all, ok := b.deliveries("A", n)
				if len(all) == 0 && free.IsZero() && i > 0 {
					continue
				}
				leaves := b.sent[n].CreatedAt.Add(24 * time.Hour)
				if len(all) == 0 {
					// its predecessor left the window, it may have left it with it
					if leaves.After(free.Add(4 * time.Second)) {
						x.Failf("held-up", "%s was not handled although the event before it is out of the window", n)
					}
					free = leaves
					continue
				}
				if i > 0 && (free.IsZero() || all[0].start.Before(free)) {
					x.Failf("order", "%s was handled before the event before it was finished or out of the window", n)
				}
				if i > 0 && all[0].start.After(free.Add(4*time.Second)) {
					x.Failf("delayed", "%s was handled only %s after the event before it was finished or out of the window", n, all[0].start.Sub(free))
				}
				end := all[len(all)-1].end
				switch {
				case ok > 0 || st == ddd.SendTypeLaxFIFO && !wait:
					free = end
				case leaves.After(w.Start().Add(60 * time.Second)):
					free = time.Time{} // blocked to the end
				default:
					free = leaves
				}
			}
			b.outcome("")
		})
	}
}

// scnBusJoin: a service that comes later gets the later events only, and they
// do not wait for the ones it never got.
func scnBusJoin(st ddd.SendType) func(x *explore.X) {
	return func(x *explore.X) {
		world.Run(x, world.Config{MaxSteps: 30000}, func(w *world.World) {
			b := newBusSys(w)
			b.behave = func(svc, evt string, n int) error {
				return []error{nil, errHandler, errPanic}[x.Pick("outcome of "+evt+" in "+svc, 3)]
			}
			opts := func(o *busmysql.Options) { o.RetryLimit = -1 }
			p := b.inst("P1", "A", opts)
			b.later("Q1", "B", []time.Duration{2, 4, 6}[x.Pick("service B comes", 3)]*time.Second, opts)
			ss := []*send{b.newSend(p, "s", st, "o1"), b.newSend(p, "s", st, "o2", "o3"), b.newSend(p, "s", st, "o4")}
			p.p.Go("client", func() {
				for _, s := range ss {
					time.Sleep(1700 * time.Millisecond)
					s.fire(b)
				}
			})
			w.Loop(20*time.Second, nil)
			for _, svc := range []string{"A", "B"} {
				blocked := ""
				for _, s := range ss {
					in := false
					for _, r := range s.svcs {
						in = in || r == svc
					}
					for _, n := range s.names {
						all, ok := b.deliveries(svc, n)
						switch {
						case !in && len(all) > 0:
							x.Failf("not-there", "%s was handed %s, which was dispatched before it was registered", svc, n)
						case !in:
						case blocked != "" && len(all) > 0:
							x.Failf("blocked-handled", "%s handled %s although %s had failed", svc, n, blocked)
						case blocked != "":
						case len(all) != 1:
							x.Failf("stuck", "%s handled %s %d times", svc, n, len(all))
						case ok == 0 && st == ddd.SendTypeFIFO:
							blocked = n
						}
					}
				}
			}
			b.outcome(b.order("B"))
		})
	}
}

func init() {
	fill := orderSpec{n: 3, insts: 1, fails: 3, fill: 4, perRun: 2, limit: 1}
	far := orderSpec{n: 3, insts: 1, fails: 2, fill: 260, fillAll: true, perRun: 1000, limit: 0}
	scs := []*explore.Scenario{{Name: "bus-order-fifo-starve", Doc: "1..4 blocked events with two per scan and another sender's event behind them", Run: scnBusStarve},
		{Name: "bus-order-nosender", Doc: "one to three events of every send type with and without a sender, plainly and in a transaction", Run: scnBusNoSender},
		{Name: "bus-order-days", Doc: "ordered events minutes to a day apart over up to a week, failing attempts, default cleaning", Run: scnBusDays(ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO)}}
	for _, batch := range []bool{true, false} {
		n := map[bool]string{true: "one-call", false: "calls"}[batch]
		scs = append(scs,
			&explore.Scenario{Name: "bus-order-types-" + n, Doc: "four events of one sender, each strictly or laxly ordered, every outcome", Run: scnBusOrder(orderSpec{types: true, n: 4, batch: batch, insts: 1, limit: -1, fails: 4}, world.Config{Preempt: true, MaxSteps: 30000}), Quick: 0, Thorough: 1},
			&explore.Scenario{Name: "bus-order-types-retry-" + n, Doc: "three of them, with retries and two instances", Run: scnBusOrder(orderSpec{types: true, n: 3, batch: batch, insts: 2, fails: 4, gap: 300 * time.Millisecond}, world.Config{Preempt: true, MaxSteps: 30000}), Quick: 0, Thorough: 1})
	}
	pre := world.Config{Preempt: true, MaxSteps: 30000}
	stall := world.Config{Preempt: true, Holds: []time.Duration{1200 * time.Millisecond}, MaxSteps: 30000}
	full := world.Config{Faults: true, CommitFaults: true, Crash: true, MaxCrash: 1, MaxSteps: 30000}
	kinds := world.Config{Faults: true, CommitFaults: true, Kinds: world.Kinds, MaxSteps: 30000}
	senders := []string{"s", " s", "\ts", "%", "_", "s%", "s_", "a' OR '1'='1", `a\\' --`, "订单/1", "0", "null", "s1", strings.Repeat("s", 200)}
	F, L := ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO
	for _, t := range []struct {
		n  string
		st ddd.SendType
	}{{"fifo", F}, {"lax", L}} {
		fill.st, far.st = t.st, t.st
		scs = append(scs,
			&explore.Scenario{Name: "bus-order-" + t.n + "-ids", Doc: "the IDs of the events sort in any order", Run: scnBusOrder(orderSpec{st: t.st, n: 4, batch: true, insts: 1, fails: 3, ids: true}, pre), Quick: 0, Thorough: 1},
			&explore.Scenario{Name: "bus-order-" + t.n + "-between", Doc: "four unrelated events between the ordered ones, two events per scan", Run: scnBusOrder(fill, pre), Quick: 1, Thorough: 2},
			&explore.Scenario{Name: "bus-order-" + t.n + "-far", Doc: "260 unrelated events between the ordered ones", Run: scnBusOrder(far, world.Config{MaxSteps: 300000}), Quick: 0, Thorough: 0},
			&explore.Scenario{Name: "bus-order-" + t.n + "-farther", Doc: "1200 unrelated events between the first two", Run: scnBusOrder(orderSpec{st: t.st, n: 3, insts: 1, fails: 2, stored: 1200, limit: 0}, world.Config{MaxSteps: 300000}), Quick: 0, Thorough: 0},
			&explore.Scenario{Name: "bus-order-" + t.n + "-tx", Doc: "one call each, plainly or in a transaction of its own", Run: scnBusOrder(orderSpec{st: t.st, n: 3, insts: 1, limit: 0, fails: 3, tx: true}, world.Config{MaxSteps: 30000}), Quick: 0, Thorough: 0},
			&explore.Scenario{Name: "bus-order-" + t.n + "-window", Doc: "events that leave the 24 h window while they are waited for", Run: scnBusWindow(t.st), Quick: 0, Thorough: 0},
			&explore.Scenario{Name: "bus-order-" + t.n + "-hours", Doc: "a failed event that stays, or is expired hours later", Run: scnBusBlocked(t.st), Quick: 0, Thorough: 0},
			&explore.Scenario{Name: "bus-order-" + t.n + "-join", Doc: "a service that comes between the calls", Run: scnBusJoin(t.st), Quick: 0, Thorough: 0},
			&explore.Scenario{Name: "bus-order-" + t.n + "-faults", Doc: "statements and commits fail, the first handler call too", Run: scnBusOrder(orderSpec{st: t.st, n: 3, batch: true, insts: 1, fails: 1, faults: 2}, full), Quick: 2, Thorough: 3},
			&explore.Scenario{Name: "bus-order-" + t.n + "-kinds", Doc: "statements and commits fail in every way", Run: scnBusOrder(orderSpec{st: t.st, n: 3, batch: true, insts: 1, limit: 2, faults: 2}, kinds), Quick: 1, Thorough: 2},
			&explore.Scenario{Name: "bus-order-" + t.n + "-senders", Doc: "senders with awkward names, two of them", Run: scnBusOrder(orderSpec{st: t.st, n: 2, batch: true, insts: 1, fails: 1, mixed: true, senders: senders}, pre), Quick: 0, Thorough: 0},
			&explore.Scenario{Name: "bus-order-" + t.n + "-outcomes", Doc: "three ordered events in one call, every handler outcome for the first four calls, another service and unrelated events", Run: scnBusOrder(orderSpec{st: t.st, n: 3, batch: true, insts: 1, other: true, mixed: true, fails: 4}, pre), Quick: 1, Thorough: 2},
			&explore.Scenario{Name: "bus-order-" + t.n + "-2inst", Doc: "two instances, outcomes of the first two calls", Run: scnBusOrder(orderSpec{st: t.st, n: 2, batch: true, insts: 2, fails: 2}, stall), Quick: 1, Thorough: 2},
			&explore.Scenario{Name: "bus-order-" + t.n + "-2inst-3ev", Doc: "two instances dispatch in turn, three events", Run: scnBusOrder(orderSpec{st: t.st, n: 3, gap: 20 * time.Millisecond, insts: 2, kicks: 2, fails: 1, twoProd: true}, stall), Quick: 1, Thorough: 2},
			&explore.Scenario{Name: "bus-order-" + t.n + "-conc", Doc: "three consumers in one instance, slow first event", Run: scnBusOrder(orderSpec{st: t.st, n: 3, batch: true, insts: 1, conc: 3, mixed: true, slow: 2500 * time.Millisecond, fails: 1}, pre), Quick: 2, Thorough: 3},
			&explore.Scenario{Name: "bus-order-" + t.n + "-conc2inst", Doc: "two instances with two consumers each", Run: scnBusOrder(orderSpec{st: t.st, n: 3, batch: true, insts: 2, conc: 2, kicks: 1, slow: 1500 * time.Millisecond}, stall), Quick: 1, Thorough: 2},
			&explore.Scenario{Name: "bus-order-" + t.n + "-expire", Doc: "the operator expires finally failed events later on", Run: scnBusOrder(orderSpec{st: t.st, n: 3, gap: 5 * time.Millisecond, insts: 1, limit: -1, fails: 3, expire: true}, pre), Quick: 2, Thorough: 3},
			&explore.Scenario{Name: "bus-order-" + t.n + "-ages", Doc: "events raised 20 h, 2 h and 30 min before they are dispatched", Run: scnBusOrder(orderSpec{st: t.st, n: 4, batch: true, insts: 1, limit: 0, fails: 4, ages: []time.Duration{20 * time.Hour, 2 * time.Hour, 30 * time.Minute, 0}}, pre), Quick: 0, Thorough: 1},
			&explore.Scenario{Name: "bus-order-" + t.n + "-attempts", Doc: "the first event fails up to 40 times under retry limits up to 31, two instances", Run: scnBusOrder(orderSpec{st: t.st, n: 3, batch: true, insts: 2, first: []int{1, 2, 3, 4, 5, 6, 8, 10, 11, 12, 17, 33, 40}, limits: []int{-1, 1, 3, 4, 9, 10, 31}}, world.Config{MaxSteps: 100000}), Quick: 0, Thorough: 0},
			&explore.Scenario{Name: "bus-order-" + t.n + "-gap", Doc: "events dispatched seconds apart while the first is being retried", Run: scnBusOrder(orderSpec{st: t.st, n: 3, gap: 1100 * time.Millisecond, insts: 2, limit: 1, fails: 3}, pre), Quick: 1, Thorough: 2},
		)
	}
	add(&explore.Property{
		ID: "C18", Title: "bus order", Scenarios: scs,
		Rule:        "ordered events of one sender (strict and lax) with every handler outcome of the first calls, competing instances and consumers; every interleaving up to the deviation bound",
		Assumptions: []string{"MySQL model (mc/memsql)", "all events of a sender are ordered and come from one producer at a time", "no more pending events than one scan takes"},
	})
}
