package checks

import (
	"context"
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"
	busmysql "github.com/bytedance/dddfirework/eventbus/mysql"

	"verif/mc/explore"
	"verif/mc/world"
)

// scnBusDays runs two instances of a service and one of another over days, with
// the default cleaning: calls minutes to a day apart, attempts that fail.
func scnBusDays(sts ...ddd.SendType) func(x *explore.X) {
	return func(x *explore.X) {
		world.Run(x, world.Config{MaxSteps: 400000}, func(w *world.World) {
			b := newBusSys(w)
			type plan struct {
				n   int
				gap time.Duration
			}
			p := []plan{{60, 47 * time.Minute}, {30, 150 * time.Minute}, {20, 5 * time.Hour}, {6, 25 * time.Hour}}[x.Pick("calls", 4)]
			st := sts[x.Pick("send type", len(sts))]
			mod := []int{1, 3, 4}[x.Pick("failing attempts", 3)] // of event i: i % mod
			conc := 1 + x.Pick("more consumers", 2)
			retention := 48 * time.Hour
			short := x.Pick("retention", 2) == 1
			if short {
				retention = 3 * time.Hour
			}
			opts := func(o *busmysql.Options) {
				o.RunInterval = 10 * time.Minute
				o.RetryInterval, o.RetryLimit = 15*time.Minute, 4
				o.ConsumeConcurrent = conc
				if short {
					o.RetentionTime = retention
				}
			}
			fails := map[string]int{}
			b.behave = func(svc, evt string, n int) error {
				if svc == "A" && n < fails[evt] {
					return errHandler
				}
				return nil
			}
			in := b.inst("P1", "A", opts)
			b.inst("P2", "A", opts)
			b.inst("Q1", "B", opts)
			var sends []*send
			for i := 0; i < p.n; i++ {
				n := fmt.Sprintf("d%03d", i)
				if fails[n] = i % mod; p.gap < time.Hour && fails[n] > 1 {
					fails[n] = 1 // what waits must not grow older than the look-back window
				}
				sends = append(sends, b.newSend(in, "s", st, n))
			}
			in.p.Go("client", func() {
				time.Sleep(1500 * time.Millisecond)
				for _, s := range sends {
					s.fire(b)
					time.Sleep(p.gap)
				}
			})
			steps, bad := 0, false
			w.Check = func() {
				if steps++; bad || steps%200 != 0 {
					return
				}
				n := 0
				for _, s := range sends {
					if s.done && s.err == nil && time.Since(s.events[0].CreatedAt) < retention {
						n++
					}
				}
				if r := len(w.DB.Rows(tblEvent)); r < n {
					bad = true
					w.Fail("cleaned-early", "%d events are younger than %s but only %d are stored", n, retention, r)
				}
			}
			h := time.Duration(p.n)*p.gap + retention + 4*time.Hour
			w.Loop(h, nil)
			b.verifyDispatch(sends, b.services())
			for _, svc := range b.services() {
				last := -1
				for i, s := range sends {
					n := s.names[0]
					if s.err != nil {
						x.Failf("dispatch", "Dispatch failed without any failure: %v", s.err)
					}
					all, ok := b.deliveries(svc, n)
					want := 1
					if svc == "A" {
						want += fails[n]
					}
					if ok != 1 {
						x.Failf("not-once", "%s handled %s successfully %d times (%d calls)", svc, n, ok, len(all))
						continue
					}
					if len(all) != want {
						x.Failf("calls", "%s was called %d times for %s, want %d", svc, len(all), n, want)
					}
					if st == ddd.SendTypeFIFO || st == ddd.SendTypeLaxFIFO {
						if all[0].seq < last {
							x.Failf("order", "%s started %s before event %d was finished", svc, n, i-1)
						}
						last = all[len(all)-1].endSeq
					}
				}
			}
			if m := b.overlap(); m != "" {
				x.Failf("overlap", "%s", m)
			}
			if r := len(w.DB.Rows(tblSvcEvt)); r > 0 {
				x.Failf("kept", "%d finished work items are never removed", r)
			} else if r := len(w.DB.Rows(tblEvent)); r > 0 {
				x.Failf("kept", "%d events every service has finished with are never removed", r)
			}
			for _, p := range w.Panics() {
				x.Failf("panic", "%s", p)
			}
			b.outcome("")
		})
	}
}

// scnTxMany leaves transactions undecided and lets the status check decide them,
// some at once, some after a long time.
func scnTxMany(x *explore.X) {
	world.Run(x, world.Config{MaxSteps: 200000}, func(w *world.World) {
		b := newBusSys(w)
		long := x.Pick("for hours", 2) == 1
		ns := []int{1, 7, 26, 130}
		if long {
			ns = ns[:3]
		}
		n := ns[x.Pick("transactions", len(ns))]
		size := 1 + x.Pick("events", 3)
		stuck := x.Pick("undecided", 4) // none, every other, all but the last, all but the first
		two := x.Pick("instances", 2) == 1
		poll, limit, until := time.Second, 5*time.Second, 90*time.Second
		if long {
			poll, limit, until = 10*time.Minute, 30*time.Minute, 19*time.Hour
		}
		opts := func(o *busmysql.Options) { o.RunInterval, o.TXCheckTimeout = poll, limit }
		in := b.inst("P1", "A", opts)
		if two {
			b.inst("P2", "A", opts)
		}
		b.inst("Q1", "B", opts)
		type trans struct {
			names  []string
			st     ddd.TXStatus
			from   time.Duration // decided from then on
			begun  time.Duration
			err    error
			checks int
		}
		by := map[string]*trans{}
		var l []*trans
		for i := 0; i < n; i++ {
			t := &trans{st: ddd.TXCommit}
			if i%3 == 1 {
				t.st = ddd.TXRollBack
			}
			if stuck == 1 && i%2 == 0 || stuck == 2 && i < n-1 || stuck == 3 && i > 0 {
				t.from = until
			}
			for j := 0; j < size; j++ {
				m := fmt.Sprintf("t%03d.%d", i, j)
				t.names = append(t.names, m)
				by[m] = t
			}
			l = append(l, t)
		}
		b.checker = func(_ *busInst, evt *ddd.DomainEvent) ddd.TXStatus {
			t := by[evtName(evt)]
			if t == nil {
				w.Fail("check", "the status check was asked with an unknown event")
				return ddd.TXUnknown
			}
			t.checks++
			if d := w.Since() - t.begun; d < limit-2*time.Millisecond {
				w.Fail("early-check", "the status of a transaction was asked for %s after it was begun, the time-out is %s", d, limit)
			}
			if w.Since() < t.from {
				return ddd.TXUnknown
			}
			return t.st
		}
		// others come later on
		var later []time.Duration
		for i, at := range []time.Duration{until / 5, until / 2, until - poll/2} {
			t := &trans{st: ddd.TXCommit, from: at, names: []string{fmt.Sprintf("u%d", i)}}
			by[t.names[0]] = t
			l = append(l, t)
			later = append(later, at)
		}
		in.p.Go("client", func() {
			time.Sleep(1500 * time.Millisecond)
			for i, t := range l {
				if i >= n {
					time.Sleep(later[i-n] - w.Since())
				}
				var evts []*ddd.DomainEvent
				for _, m := range t.names {
					evts = append(evts, b.mk(m, "s", ddd.SendTypeTransaction))
				}
				t.begun = w.Since()
				var ctx context.Context
				if ctx, t.err = in.bus.DispatchBegin(context.Background(), evts...); i >= n && t.err == nil {
					t.err = in.bus.Commit(ctx)
				}
			}
		})
		w.Loop(until+limit+8*poll, nil)
		for i, t := range l {
			if t.err != nil {
				x.Failf("begin", "DispatchBegin failed without any failure: %v", t.err)
			}
			due := limit + 1500*time.Millisecond
			if t.from > due {
				due = t.from
			}
			due += 4*poll + time.Second
			for _, svc := range b.services() {
				for _, m := range t.names {
					all, ok := b.deliveries(svc, m)
					switch {
					case t.st == ddd.TXRollBack && len(all) > 0:
						x.Failf("uncommitted-delivered", "%s was handed %s of a transaction that was rolled back", svc, m)
					case t.st == ddd.TXCommit && ok == 0:
						x.Failf("lost", "%s never handled %s of transaction %d of %d, which committed (%d checks)", svc, m, i, n, t.checks)
					case t.st == ddd.TXCommit && len(all) > 1:
						x.Failf("duplicate", "%s handled %s %d times", svc, m, len(all))
					case t.st == ddd.TXCommit:
						if at := all[0].start.Sub(w.Start()); at < t.from {
							x.Failf("undecided-delivered", "%s got %s after %s, its transaction was decided after %s", svc, m, at, t.from)
						} else if at > due {
							x.Failf("held-up", "%s got %s only after %s, its transaction was decided after %s", svc, m, at, t.from)
						}
					}
				}
			}
		}
		if r := len(w.DB.Rows(tblTx)); r > 0 {
			x.Failf("pending-left", "%d decided transactions are still stored", r)
		}
		for _, p := range w.Panics() {
			x.Failf("panic", "%s", p)
		}
		x.Outcome("%d transactions of %d events, undecided %d", n, size, stuck)
	})
}

// scnBusBlocked lets an ordered event fail for good and waits for most of a
// day: a strictly ordered one holds the others up until it leaves the window or
// is expired, a laxly ordered one does not.
func scnBusBlocked(st ddd.SendType) func(x *explore.X) {
	return func(x *explore.X) {
		world.Run(x, world.Config{MaxSteps: 100000}, func(w *world.World) {
			b := newBusSys(w)
			bad := "o" + fmt.Sprint(1+x.Pick("failing", 2))
			b.behave = func(svc, evt string, n int) error {
				if evt == bad && svc == "A" {
					return errHandler
				}
				return nil
			}
			poll := 5 * time.Minute
			opts := func(o *busmysql.Options) {
				o.RunInterval, o.RetryLimit, o.RetentionTime = poll, 1, 90*time.Minute
				o.RetryInterval = time.Minute
			}
			in := b.inst("P1", "A", opts)
			b.inst("Q1", "B", opts)
			gap := []time.Duration{0, 20 * time.Minute, 70 * time.Minute, 7 * time.Hour, 20 * time.Hour}[x.Pick("next call", 5)]
			expire := []time.Duration{0, 2 * time.Hour, 11 * time.Hour, 22 * time.Hour}[x.Pick("expired", 4)]
			names := []string{"o1", "o2", "o3", "o4"}
			var sends []*send
			for _, n := range names {
				sends = append(sends, b.newSend(in, "s", st, n))
			}
			in.p.Go("client", func() {
				time.Sleep(1500 * time.Millisecond)
				for i, s := range sends {
					s.fire(b)
					if i < 2 {
						time.Sleep(gap)
					}
				}
			})
			if expire > 0 {
				w.At(expire, "operator expires failed events", func() { b.expire("A") })
			}
			w.Loop(50*time.Hour, nil)
			for _, svc := range []string{"A", "B"} {
				free := time.Time{} // the next one may start from here on
				for _, n := range names {
					all, ok := b.deliveries(svc, n)
					made := b.sent[n].CreatedAt
					if made.After(free) {
						free = made
					}
					fail := svc == "A" && n == bad
					switch {
					case len(all) == 0 && free.Sub(made) > 23*time.Hour:
						// it left the window while it was held up
						if t := made.Add(24 * time.Hour); t.After(free) {
							free = t
						}
						continue
					case len(all) == 0:
						x.Failf("stuck", "%s never handled %s", svc, n)
						continue
					case all[0].start.Before(free):
						x.Failf("order", "%s handled %s %s before its predecessor was finished", svc, n, free.Sub(all[0].start))
					case all[0].start.Sub(free) > 3*poll:
						x.Failf("delayed", "%s handled %s only %s after its predecessor was finished", svc, n, all[0].start.Sub(free))
					case fail && (ok != 0 || len(all) != 3) || !fail && (ok != 1 || len(all) != 1):
						x.Failf("calls", "%s was called %d times for %s (%d successes)", svc, len(all), n, ok)
					}
					if free = all[len(all)-1].end; fail && st == ddd.SendTypeFIFO {
						over := made.Add(24 * time.Hour)
						if at := w.Start().Add(expire); expire > 0 && at.Before(over) && at.After(free) {
							over = at
						}
						free = over
					}
				}
			}
			for _, p := range w.Panics() {
				x.Failf("panic", "%s", p)
			}
			b.outcome(b.order("A"))
		})
	}
}

// scnTxCheck leaves n transactions undecided; the status check decides them
// at the same time while statements fail and the instance crashes.
func scnTxCheck(n, insts int, cfg world.Config) func(x *explore.X) {
	return func(x *explore.X) {
		world.Run(x, cfg, func(w *world.World) {
			b := newBusSys(w)
			by := map[string]ddd.TXStatus{}
			b.checker = func(_ *busInst, evt *ddd.DomainEvent) ddd.TXStatus { return by[evtName(evt)] }
			opts := func(o *busmysql.Options) { o.RetryLimit = 4 }
			in := b.inst("P1", "A", opts)
			if insts > 1 {
				b.inst("P2", "A", opts)
			}
			b.inst("Q1", "B", opts)
			w.Window(6*time.Second, 9500*time.Millisecond)
			names := []string{"t1", "t2", "t3"}[:n]
			undone := x.Pick("rolled back", n+1)
			for i, n := range names {
				if by[n] = ddd.TXCommit; i+1 == undone {
					by[n] = ddd.TXRollBack
				}
			}
			in.p.Go("client", func() {
				time.Sleep(1500 * time.Millisecond)
				for _, n := range names {
					if _, err := in.bus.DispatchBegin(context.Background(), b.mk(n, "s", ddd.SendTypeTransaction)); err != nil {
						w.Fail("begin", "DispatchBegin failed without any failure: %v", err)
					}
				}
			})
			w.Loop(30*time.Second, func() bool {
				return w.Tasks() == 0 && w.Since() > 12*time.Second && b.openServiceEvents() == 0 && len(w.DB.Rows(tblTx)) == 0
			})
			for _, svc := range b.services() {
				for _, n := range names {
					all, ok := b.deliveries(svc, n)
					switch {
					case by[n] == ddd.TXRollBack && len(all) > 0:
						x.Failf("uncommitted-delivered", "%s was handed %s, which was rolled back", svc, n)
					case by[n] == ddd.TXCommit && ok == 0:
						x.Failf("lost", "%s never handled %s, which was committed", svc, n)
					case ok > 1+w.Faults()+w.Crashes():
						x.Failf("duplicate", "%s handled %s successfully %d times", svc, n, ok)
					}
				}
			}
			evts := map[string]int{}
			for _, r := range w.DB.Rows(tblEvent) {
				evts[fmt.Sprint(r["event_id"])]++
			}
			for _, n := range names {
				if k := evts[b.sent[n].ID]; k > 1 {
					x.Failf("duplicate", "%s was dispatched %d times", n, k)
				}
			}
			if r := len(w.DB.Rows(tblTx)); r > 0 {
				x.Failf("pending-left", "%d decided transactions are still stored", r)
			}
			for _, p := range w.Panics() {
				x.Failf("panic", "%s", p)
			}
			b.outcome(fmt.Sprint(undone))
		})
	}
}
