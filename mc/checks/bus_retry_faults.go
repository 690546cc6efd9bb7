package checks

import (
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"
	busmysql "github.com/bytedance/dddfirework/eventbus/mysql"

	"verif/mc/explore"
	"verif/mc/world"
)

// follows tells whether the attempts all follow the policy when at most n of
// them were not recorded because a statement failed or the process died, and
// how many of them were recorded at least and at most.
func follows(all []*delivery, gaps []time.Duration, n int) (ok bool, least, most int) {
	var try func(k, lost, j int)
	// k: attempt, j: attempts recorded before it
	try = func(k, lost, j int) {
		if k == len(all) {
			if !ok || j < least {
				least = j
			}
			most = max(most, j)
			ok = true
			return
		}
		if lost < n || all[k].crashed { // this one was not recorded
			l := lost + 1
			if all[k].crashed {
				l = lost
			}
			try(k+1, l, j)
		}
		if all[k].crashed || j > len(gaps) {
			return
		}
		if k+1 < len(all) {
			if all[k].ok || j == len(gaps) {
				return // recorded as finished
			}
			if all[k+1].start.Sub(all[k].end) < gaps[j]-time.Millisecond {
				return
			}
		}
		try(k+1, lost, j+1)
	}
	try(0, 0, 0)
	return
}

// scnRetryFaults: retries while statements fail and instances crash.
func scnRetryFaults(pols []policy, insts int, cfg world.Config) func(x *explore.X) {
	return func(x *explore.X) {
		world.Run(x, cfg, func(w *world.World) {
			b := newBusSys(w)
			pol := pols[x.Pick("policy", len(pols))]
			good := x.Pick("first success", len(pol.gaps)+2) // attempts that fail first
			how := x.Pick("how", 2)
			run := 500 * time.Millisecond
			b.behave = func(svc, evt string, n int) error {
				if svc == "A" && evt == "e1" && n < good {
					if (n+how)%2 == 0 {
						return errHandler
					}
					return errPanic
				}
				return nil
			}
			opts := func(o *busmysql.Options) {
				o.RetryStrategy, o.CustomRetry = nil, nil
				o.RunInterval = run
				pol.set(o)
			}
			var first *busInst
			for i := 0; i < insts; i++ {
				in := b.inst(fmt.Sprintf("P%d", i+1), "A", opts)
				if first == nil {
					first = in
				}
			}
			b.inst("Q1", "B", opts)
			s := b.newSend(first, "s", ddd.SendTypeNormal, "e1", "e2")
			w.Window(1700*time.Millisecond, 9*time.Second)
			first.p.Go("client", func() {
				time.Sleep(1500 * time.Millisecond)
				s.fire(b)
			})
			h := 30 * time.Second
			for _, g := range pol.gaps {
				h += 2 * (g + run)
			}
			var idle time.Duration
			w.Loop(h, func() bool {
				if w.Tasks() > 0 || b.openServiceEvents() > 0 || w.Since() < 2*time.Second {
					idle = 0
					return false
				}
				if idle == 0 {
					idle = w.Since()
				}
				return w.Since() > idle+8*run
			})
			if s.err != nil {
				x.Failf("dispatch", "Dispatch failed without any failure: %v", s.err)
				return
			}
			bad := w.Faults() + w.Crashes()
			status := map[string]int64{}
			byID := map[string]string{}
			for n, e := range b.sent {
				byID[e.ID] = n
			}
			for _, r := range w.DB.Rows(tblSvcEvt) {
				for _, e := range w.DB.Rows(tblEvent) {
					if e["id"] == r["event_id"] {
						status[fmt.Sprint(r["service"])+"/"+byID[fmt.Sprint(e["event_id"])]] = r["status"].(int64)
					}
				}
			}
			for _, svc := range b.services() {
				for _, e := range []string{"e1", "e2"} {
					all, okN := b.deliveries(svc, e)
					st := status[svc+"/"+e]
					if svc == "B" || e == "e2" {
						if okN == 0 || st != int64(busmysql.ServiceEventStatusSuccess) {
							x.Failf("collateral", "%s handled the healthy %s %d times (%d ok, status %d)", svc, e, len(all), okN, st)
						}
						if len(all) > 1+bad {
							x.Failf("repeated", "%s was handed the healthy %s %d times with %d failures", svc, e, len(all), bad)
						}
						continue
					}
					ok, least, most := follows(all, pol.gaps, bad)
					var at []string
					for _, d := range all {
						at = append(at, fmt.Sprintf("%s (ok %v, crashed %v)", d.start.Sub(w.Start()), d.ok, d.crashed))
					}
					switch {
					case !ok:
						x.Failf("policy", "the attempts at %v do not follow the policy (%s), %d failures or crashes", at, pol.name, bad)
					case st == int64(busmysql.ServiceEventStatusSuccess):
						if okN == 0 {
							x.Failf("status", "%s has status success but never succeeded", e)
						}
					case st != int64(busmysql.ServiceEventStatusFailed):
						x.Failf("status", "%s is left with status %d after attempts at %v", e, st, at)
					case most < len(pol.gaps)+1:
						x.Failf("too-few", "%s has finally failed after attempts at %v, of which %d to %d count; policy (%s)", e, at, least, most, pol.name)
					}
				}
			}
			for _, p := range w.Panics() {
				x.Failf("panic", "%s", p)
			}
			b.outcome(fmt.Sprint(pol.name, good))
		})
	}
}

func init() {
	ms := time.Millisecond
	pols := []policy{
		intervalPolicy(1300*ms, 1),
		customPolicy(1200*ms, 2300*ms),
		strategyPolicy(&busmysql.LimitRetry{Limit: 2}, repeat(0, 3)),
	}
	extend("C19", &explore.Scenario{Name: "bus-retry-faults", Doc: "statements and commits fail and instances crash while an event is retried", Run: scnRetryFaults(pols, 1, world.Config{Faults: true, CommitFaults: true, Crash: true, MaxCrash: 1, MaxSteps: 30000}), Quick: 1, Thorough: 2})
	extend("C19", &explore.Scenario{Name: "bus-retry-faults-kinds", Doc: "the same with statements failing in every way", Run: scnRetryFaults(pols[1:2], 1, world.Config{Faults: true, CommitFaults: true, Kinds: world.Kinds, MaxSteps: 30000}), Quick: 1, Thorough: 2})
	extend("C19", &explore.Scenario{Name: "bus-retry-faults-2inst", Doc: "two instances", Run: scnRetryFaults(pols[:1], 2, world.Config{Faults: true, CommitFaults: true, Crash: true, MaxCrash: 1, MaxSteps: 30000}), Quick: 1, Thorough: 2})
}
