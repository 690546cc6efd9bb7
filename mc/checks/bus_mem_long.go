package checks

import (
	"context"
	"errors"
	"fmt"
	"testing/synctest"

	ddd "github.com/bytedance/dddfirework"
	"github.com/bytedance/dddfirework/eventbus/mem"

	"verif/mc/explore"
)

// scnBusMemLong passes thousands of events through one bus.
func scnBusMemLong(sizes, batches []int, total int) func(x *explore.X) {
	return func(x *explore.X) {
		size := sizes[x.Pick("capacity", len(sizes))]
		batch := batches[x.Pick("events per call", len(batches))]
		fails := []int{0, 1, 2, 7}[x.Pick("failing", 4)] // every n-th
		echo := x.Pick("handlers dispatch", 2) == 1 && size > 2*batch
		early := x.Pick("started", 2) == 1 // after the first call
		leak := memBubble(x, func() {
			bus := mem.NewEventBus(size)
			var got []*ddd.DomainEvent
			var want, echoed []*ddd.DomainEvent
			in := 0
			bus.RegisterEventHandler(func(ctx context.Context, ev *ddd.DomainEvent) error {
				if in++; in > 1 {
					x.Failf("overlap", "two handlers run at the same time")
				}
				defer func() { in-- }()
				got = append(got, ev)
				if echo && ev.Type == "long" && len(got)%5 == 0 {
					e := newEvt(fmt.Sprint("echo", len(got)), "s", ddd.SendTypeNormal)
					e.Type = "echo"
					echoed = append(echoed, e)
					if err := bus.Dispatch(ctx, e); err != nil {
						x.Failf("dispatch-error", "Dispatch failed: %v", err)
					}
				}
				if fails > 0 && len(got)%fails == 0 {
					return errors.New("handler failed")
				}
				return nil
			})
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if !early {
				bus.Start(ctx)
			}
			for n := 0; n < total; n += batch {
				var l []*ddd.DomainEvent
				for i := 0; i < batch; i++ {
					e := newEvt(fmt.Sprint("e", n+i), "s", ddd.SendTypeNormal)
					e.Type = "long"
					l = append(l, e)
				}
				want = append(want, l...)
				done := false
				go func() {
					if err := bus.Dispatch(context.Background(), l...); err != nil {
						x.Failf("dispatch-error", "Dispatch failed: %v", err)
					}
					done = true
				}()
				synctest.Wait()
				if early && n == 0 {
					bus.Start(ctx)
					synctest.Wait()
				}
				if !done {
					x.Failf("blocked", "Dispatch of the events %d to %d blocks although the handler is idle", n, n+batch-1)
					return
				}
			}
			var main, other []*ddd.DomainEvent
			for _, e := range got {
				if e.Type == "echo" {
					other = append(other, e)
				} else {
					main = append(main, e)
				}
			}
			check := func(what string, got, want []*ddd.DomainEvent) {
				for i := range want {
					if i >= len(got) {
						x.Failf("lost", "%d of %d %s were handled", len(got), len(want), what)
						return
					}
					if got[i] != want[i] {
						x.Failf("order", "number %d of the handled %s is %s instead of %s", i, what, got[i].ID, want[i].ID)
						return
					}
				}
				if len(got) > len(want) {
					x.Failf("repeated", "%d %s were handled, of %d dispatched", len(got), what, len(want))
				}
			}
			check("events", main, want)
			check("events the handler dispatched", other, echoed)
			cancel()
			synctest.Wait()
			x.Outcome("%d handled", len(got))
		})
		if leak && !x.Failed() {
			x.Failf("not-stopped", "the goroutine of the bus did not end after its context was cancelled")
		}
	}
}

func init() {
	extend("C23", &explore.Scenario{Name: "membus-long", Doc: "5000 events through one bus", Run: scnBusMemLong([]int{0, 1, 3, 16, 100, 1024, 8192}, []int{1, 2, 7, 100}, 5000)})
}
