package checks

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"

	ddd "github.com/bytedance/dddfirework"
	"github.com/bytedance/dddfirework/eventbus/mem"

	"verif/mc/explore"
)

// The in-memory bus: every order of dispatching, handling, starting and
// stopping.  Between two actions everything runs until it blocks.

// stopCtx ends a goroutine that keeps asking whether it has been cancelled.
type stopCtx struct {
	context.Context
	mu   sync.Mutex
	n    int
	spin bool
}

func (c *stopCtx) Done() <-chan struct{} {
	if c.Context.Err() != nil {
		c.mu.Lock()
		c.n++
		over := c.n > 20000
		c.spin = c.spin || over
		c.mu.Unlock()
		if over {
			runtime.Goexit()
		}
	}
	return c.Context.Done()
}

type mbCall struct {
	d          int
	evs        []*ddd.DomainEvent
	from, to   int // sequence numbers, to is 0 while it blocks
	err        error
	nested     bool
	afterClose bool
}

type mbTake struct {
	ev  *ddd.DomainEvent
	seq int
}

type memSys struct {
	x      *explore.X
	bus    *mem.MemoryEventBus
	seq    int
	calls  []*mbCall
	takes  []mbTake
	gate   chan string // what the handler in progress does
	in     int         // handlers in progress
	closed int         // seq of the cancellation
	busy   bool        // a handler was in progress then
	size   int
	gated  bool // the handler waits for the harness
	bad    bool
}

func (m *memSys) fail(sig, f string, a ...interface{}) {
	if !m.bad {
		m.x.Failf(sig, f, a...)
	}
	m.bad = true
}

func (m *memSys) tick() int { m.seq++; return m.seq }

func (m *memSys) dispatch(d, n int, nested bool) *mbCall {
	c := &mbCall{d: d, from: m.tick(), nested: nested, afterClose: m.closed > 0}
	for i := 0; i < n; i++ {
		c.evs = append(c.evs, newEvt(fmt.Sprintf("e%d.%d.%d", d, c.from, i), "s", ddd.SendTypeNormal))
	}
	m.calls = append(m.calls, c)
	return c
}

func (m *memSys) run(c *mbCall) {
	c.err = m.bus.Dispatch(context.Background(), c.evs...)
	c.to = m.tick()
}

type memKey struct{}

func (m *memSys) handle(ctx context.Context, ev *ddd.DomainEvent) error {
	if ctx.Value(memKey{}) != 1 {
		m.fail("context", "the handler did not get the context the bus was started with")
	}
	m.takes = append(m.takes, mbTake{ev, m.tick()})
	if m.in++; m.in > 1 {
		m.fail("overlap", "two handlers run at the same time")
	}
	m.gated = true
	what := <-m.gate
	m.gated = false
	defer func() { m.in-- }()
	switch what {
	case "error":
		return errors.New("handler failed")
	case "canceled":
		return context.Canceled
	case "nested":
		m.run(m.dispatch(9, 1, true))
	}
	return nil
}

// look checks a state in which everything that can run has run.
func (m *memSys) look(started bool) {
	synctest.Wait()
	returned, blocked, more := 0, 0, 0
	for _, c := range m.calls {
		if c.to > 0 {
			returned += len(c.evs)
			if c.err != nil {
				m.fail("dispatch-error", "Dispatch failed: %v", c.err)
			}
		} else {
			blocked++
			more += len(c.evs) - 1
		}
	}
	took := len(m.takes)
	if blocked > 0 && returned+more-took < m.size {
		m.fail("blocked", "Dispatch blocks although only %d of %d events are buffered", returned+more-took, m.size)
	}
	if started && m.closed == 0 && m.in == 0 && (blocked > 0 || took < returned) {
		m.fail("not-handled", "the handler is idle although %d of %d events were not handled and %d calls block", returned-took, returned, blocked)
	}
	if !started && took > 0 {
		m.fail("not-started", "an event was handled before the bus was started")
	}
	m.orderly()
}

// orderly checks what was handled so far.
func (m *memSys) orderly() {
	pos := map[*ddd.DomainEvent]int{}
	for i, t := range m.takes {
		if p, dup := pos[t.ev]; dup {
			m.fail("repeated", "the event handled as number %d was handled as number %d again", p, i)
		}
		pos[t.ev] = i
		if m.closed > 0 && t.seq > m.closed && !m.busy {
			m.fail("after-cancel", "an event was handled after the idle bus had been cancelled")
		}
	}
	known := map[*ddd.DomainEvent]bool{}
	for _, c := range m.calls {
		for i, e := range c.evs {
			known[e] = true
			p, in := pos[e]
			if !in {
				p = 1 << 30
			}
			for j := i + 1; j < len(c.evs); j++ {
				if q, in := pos[c.evs[j]]; in && q < p {
					m.fail("order", "events of one call were handled in another order")
				}
			}
			for _, o := range m.calls {
				if c.to == 0 || o.from < c.to {
					continue
				}
				for _, f := range o.evs {
					if q, in := pos[f]; in && q < p {
						m.fail("order", "an event was handled before one that was dispatched earlier")
					}
				}
			}
		}
	}
	for _, t := range m.takes {
		if !known[t.ev] {
			m.fail("unknown", "the handler got an event that was not dispatched")
		}
	}
}

// memBubble runs f in a bubble and tells whether goroutines stayed behind.
func memBubble(x *explore.X, f func()) (leak bool) {
	var div *explore.Diverged
	func() {
		defer func() {
			if r := recover(); r != nil {
				if strings.Contains(fmt.Sprint(r), "blocked goroutines remain") {
					leak = true
					return
				}
				panic(r)
			}
		}()
		synctest.Test(x.T, func(t *testing.T) {
			defer func() {
				if r := recover(); r != nil {
					if d, ok := r.(explore.Diverged); ok {
						div = &d
						return
					}
					panic(r)
				}
			}()
			f()
		})
	}()
	if div != nil {
		panic(*div)
	}
	return
}

type memSpec struct {
	dispatchers, calls int
	batch              bool // calls with two events
	nested             bool // handlers dispatch
	acts, more         int  // actions at most
	sizes              []int
	big                int // events of a call with many
}

func scnBusMem(sp memSpec) func(x *explore.X) {
	return func(x *explore.X) {
		m := &memSys{x: x, gate: make(chan string)}
		stuck := false
		var spin *stopCtx
		leak := memBubble(x, func() {
			m.gate = make(chan string)
			if m.size = x.Pick("capacity", max(3, len(sp.sizes))); sp.sizes != nil {
				m.size = sp.sizes[m.size]
			}
			m.bus = mem.NewEventBus(m.size)
			m.bus.RegisterEventHandler(m.handle)
			ctx, cancel := context.WithCancel(context.WithValue(context.Background(), memKey{}, 1))
			spin = &stopCtx{Context: ctx}
			started, again := false, false
			left := make([]int, sp.dispatchers)
			cur := make([]*mbCall, sp.dispatchers)
			for i := range left {
				left[i] = sp.calls
			}
			var log []string
			closed := false
			for n := 0; n < depthOf(x, sp.acts, sp.more) && !m.bad && !closed; n++ {
				var acts []string
				if m.gated {
					acts = append(acts, "done", "error", "canceled")
					if sp.nested {
						acts = append(acts, "nested")
					}
				}
				for i := range left {
					if left[i] > 0 && (cur[i] == nil || cur[i].to > 0) {
						acts = append(acts, fmt.Sprint("dispatch ", i))
						if sp.big > 0 {
							acts = append(acts, fmt.Sprint("dispatch3 ", i))
						}
						if sp.batch {
							acts = append(acts, fmt.Sprint("dispatch2 ", i))
						}
					}
				}
				if !started || !again {
					acts = append(acts, "start")
				}
				acts = append(acts, "cancel")
				a := acts[x.Pick("action", len(acts))]
				log = append(log, a)
				if x.Tracing {
					x.Tracef("%s", a)
				}
				switch {
				case strings.HasPrefix(a, "dispatch"):
					i := int(a[len(a)-1] - '0')
					k := 1
					switch a[8] {
					case '2':
						k = 2
					case '3':
						k = sp.big
					}
					left[i]--
					c := m.dispatch(i, k, false)
					cur[i] = c
					go m.run(c)
				case a == "start":
					if started {
						again = true
					}
					started = true
					m.bus.Start(spin)
				case a == "cancel":
					m.closed, m.busy = m.tick(), m.in > 0
					closed = true
					cancel()
				default:
					m.gate <- a
				}
				m.look(started)
				x.StepStr(fmt.Sprint(m.size, log))
			}
			if m.bad {
				cancel()
				return
			}
			if !started {
				started = true
				m.bus.Start(spin)
				if closed {
					m.busy = true // it may find both the cancellation and events
				}
				m.look(true)
			}
			// let everything be handled
			for m.gated && !m.bad {
				m.gate <- "done"
				m.look(started)
			}
			if !closed && !m.bad {
				total := 0
				for _, c := range m.calls {
					total += len(c.evs)
					if c.nested && c.to == 0 {
						stuck = true
					}
				}
				if len(m.takes) != total && !stuck {
					m.fail("lost", "%d of %d events were handled", len(m.takes), total)
				}
				m.closed, m.busy = m.tick(), false
				cancel()
				synctest.Wait()
			}
			// nothing happens any more
			m.busy = false
			m.closed = m.tick()
			if m.size > 0 && !stuck && !m.bad {
				full := false
				for _, c := range m.calls {
					full = full || c.to == 0
				}
				if !full {
					c := m.dispatch(8, 1, false)
					go m.run(c)
				}
			}
			m.look(true)
			for _, c := range m.calls {
				stuck = stuck || c.to == 0
			}
			x.Outcome("%d calls, %d handled, cancelled early %v", len(m.calls), len(m.takes), closed)
		})
		if spin != nil && spin.spin {
			m.fail("not-stopped", "the bus goes on after its context was cancelled")
		}
		if leak && !stuck && !m.bad {
			m.fail("not-stopped", "the goroutine of the bus did not end after its context was cancelled")
		}
	}
}

func init() {
	add(&explore.Property{
		ID: "C23", Title: "in-memory bus",
		Rule:        "every sequence of dispatching (one or two events per call), finishing handlers (success, error, dispatching another event), starting (twice) and cancelling, for capacities 0 to 2; between two actions everything runs until it blocks; and 5000 events through buses of seven sizes",
		Assumptions: []string{"while the consuming goroutine can receive an event and see the cancellation it may do either", "handlers do not panic", "goroutines run until they block between two actions"},
		Scenarios: []*explore.Scenario{
			{Name: "membus", Doc: "two dispatchers, two calls each", Run: scnBusMem(memSpec{dispatchers: 2, calls: 2, acts: 9, more: 2}), Thorough: 1},
			{Name: "membus-3", Doc: "three dispatchers", Run: scnBusMem(memSpec{dispatchers: 3, calls: 2, acts: 7, more: 2}), Thorough: 1},
			{Name: "membus-batch", Doc: "two dispatchers, calls of one or two events", Run: scnBusMem(memSpec{dispatchers: 2, calls: 2, batch: true, acts: 7, more: 2}), Thorough: 1},
			{Name: "membus-large", Doc: "large buffers and calls with many events", Run: scnBusMem(memSpec{dispatchers: 2, calls: 1, sizes: []int{1, 16, 64, 100, 1024}, big: 70, acts: 5, more: 2}), Thorough: 1},
			{Name: "membus-nested", Doc: "handlers dispatch", Run: scnBusMem(memSpec{dispatchers: 1, calls: 3, nested: true, acts: 8, more: 2}), Thorough: 1},
		},
	})
}
