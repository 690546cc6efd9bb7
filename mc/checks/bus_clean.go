package checks

import (
	"fmt"
	"sort"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	busmysql "github.com/bytedance/dddfirework/eventbus/mysql"

	"verif/mc/explore"
	"verif/mc/world"
)

// svcState is the state of one service's work item.
type svcState struct {
	name   string
	status busmysql.ServiceEventStatus
	retry  int
	absent bool
	msg    string
}

var svcStates = []svcState{
	{name: "done", status: busmysql.ServiceEventStatusSuccess},
	{name: "pending", status: busmysql.ServiceEventStatusInit},
	{name: "failed", status: busmysql.ServiceEventStatusFailed, retry: 3},
	{name: "gone", absent: true},
	{name: "retrying", status: busmysql.ServiceEventStatusInit, retry: 2},
	{name: "expired", status: busmysql.ServiceEventStatusExpired},
	{name: "preceding-failed", status: busmysql.ServiceEventStatusPrecedingFailed},
}

const cleanRetention = 40 * time.Second

// put stores an event with work items, as a dispatch and earlier handling
// would have left them.
func (b *busSys) put(p *world.Proc, name string, age time.Duration, lateRun bool, states map[string]svcState) int64 {
	return b.putEvt(p, newEvt(name, "s", ddd.SendTypeNormal), 0, age, lateRun, states)
}

func (b *busSys) putEvt(p *world.Proc, e *ddd.DomainEvent, trans int64, age time.Duration, lateRun bool, states map[string]svcState) int64 {
	name := evtName(e)
	e.CreatedAt = time.Now().Add(-age)
	c := *e
	b.sent[name] = &c
	var id int64
	b.w.Setup(func() {
		po := &busmysql.EventPO{EventID: e.ID, Sender: e.Sender, Event: e, TransID: trans, EventCreatedAt: e.CreatedAt}
		if err := p.DB.Create(po).Error; err != nil {
			panic(err)
		}
		id = po.ID
	})
	items := func() {
		var svcs []string
		for s := range states {
			svcs = append(svcs, s)
		}
		sort.Strings(svcs)
		for _, s := range svcs {
			st := states[s]
			if st.absent {
				continue
			}
			run := e.CreatedAt // handled at once, or only now
			if lateRun {
				run = time.Now()
			}
			spo := &busmysql.ServiceEventPO{Service: s, EventID: id, Status: st.status, RetryCount: st.retry, FailedMessage: st.msg, EventCreatedAt: e.CreatedAt, NextTime: time.Now().Add(10 * time.Hour), RunAt: run}
			if err := p.DB.Create(spo).Error; err != nil {
				panic(err)
			}
		}
	}
	if b.holdItems {
		b.items = append(b.items, items)
	} else {
		b.w.Setup(items)
	}
	return id
}

type cleanRow struct {
	age    time.Duration
	late   bool // handled long after it was raised
	states map[string]svcState
	send   ddd.SendType
	sender *string
	trans  int64
	id     int64
}

// cleanWorld runs one cleaning of every service in order and checks what is
// left after each.
func cleanWorld(x *explore.X, services []string, order []string, mk func() []*cleanRow) {
	world.Run(x, world.Config{MaxSteps: 20000}, func(w *world.World) {
		b := newBusSys(w)
		var rows []*cleanRow
		// instance k cleans once, at 10k s
		insts := map[string]*busInst{}
		for k, s := range order {
			name := fmt.Sprintf("P%d", k+1)
			k := k
			insts[name] = b.inst(name, s, func(o *busmysql.Options) {
				o.RunInterval = 10 * time.Hour
				o.RetentionTime = cleanRetention
				o.CleanCron = fmt.Sprintf("%d 0 0 * * *", 10*(k+1))
			})
		}
		first := insts["P1"]
		rows = mk()
		// the work items may be stored in another order than the events
		rev := len(rows) > 1 && len(rows) < 4 && rows[1].sender == nil && x.Pick("order of the work items", 2) == 1
		b.holdItems = rev
		for i, r := range rows {
			send, sender := ddd.SendTypeNormal, "s"
			if r.send != "" {
				send = r.send
			}
			if r.sender != nil {
				sender = *r.sender
			}
			r.id = b.putEvt(first.p, newEvt(fmt.Sprintf("e%d", i), sender, send), r.trans, r.age, r.late, r.states)
		}
		for i := len(b.items) - 1; i >= 0; i-- {
			w.Setup(b.items[i])
		}
		// reference state
		type st struct{ status int64 }
		svc := map[string]map[int64]svcState{}
		evs := map[int64]bool{}
		for _, s := range services {
			svc[s] = map[int64]svcState{}
		}
		created := map[int64]time.Time{}
		for _, r := range rows {
			evs[r.id] = true
			created[r.id] = time.Now().Add(-r.age)
			for s, v := range r.states {
				if !v.absent {
					svc[s][r.id] = v
				}
			}
		}
		compare := func(after string) {
			got := map[string]bool{}
			for _, r := range w.DB.Rows(tblSvcEvt) {
				got[fmt.Sprintf("item %v of %v (status %v)", r["event_id"], r["service"], r["status"])] = true
			}
			for _, r := range w.DB.Rows(tblEvent) {
				got[fmt.Sprintf("event %v", r["id"])] = true
			}
			want := map[string]bool{}
			for s, m := range svc {
				for id, v := range m {
					want[fmt.Sprintf("item %v of %v (status %v)", id, s, int64(v.status))] = true
				}
			}
			for id := range evs {
				want[fmt.Sprintf("event %v", id)] = true
			}
			var lost, kept []string
			for k := range want {
				if !got[k] {
					lost = append(lost, k)
				}
			}
			for k := range got {
				if !want[k] {
					kept = append(kept, k)
				}
			}
			sort.Strings(lost)
			sort.Strings(kept)
			if len(lost) > 0 {
				x.Failf("removed", "%s removed what must stay: %s", after, strings.Join(lost, ", "))
			}
			if len(kept) > 0 {
				x.Failf("kept", "%s left what must go: %s", after, strings.Join(kept, ", "))
			}
		}
		stopped := false
		for k, s := range order {
			s := s
			at := time.Duration(10*(k+1)) * time.Second
			k := k
			w.At(at+time.Second, "look at the tables", func() {
				if stopped {
					return
				}
				limit := w.Start().Add(at).Add(-cleanRetention)
				for id, v := range svc[s] {
					if v.status == busmysql.ServiceEventStatusSuccess && created[id].Before(limit) {
						delete(svc[s], id)
						used := false
						for _, m := range svc {
							if _, ok := m[id]; ok {
								used = true
							}
						}
						if !used {
							delete(evs, id)
						}
					}
				}
				compare(fmt.Sprintf("cleaning %d by %s", k+1, s))
				if x.Failed() {
					stopped = true
				}
			})
		}
		w.Loop(time.Duration(10*len(order)+5)*time.Second, func() bool { return w.Since() > time.Duration(10*len(order)+2)*time.Second })
		x.Outcome("items=%d events=%d", len(w.DB.Rows(tblSvcEvt)), len(w.DB.Rows(tblEvent)))
	})
}

func scnCleanMix(events, states, services int, ages []time.Duration) func(x *explore.X) {
	return func(x *explore.X) {
		svcs := []string{"A", "B", "C"}[:services]
		order := svcs
		switch x.Pick("order", 3) {
		case 1:
			order = append([]string{}, svcs...)
			for i := range order {
				order[i] = svcs[len(svcs)-1-i]
			}
		case 2:
			order = append(append([]string{}, svcs...), svcs[0])
		}
		cleanWorld(x, svcs, order, func() []*cleanRow {
			var rows []*cleanRow
			for i := 0; i < events; i++ {
				r := &cleanRow{states: map[string]svcState{}, age: ages[x.Pick("age", len(ages))]}
				r.late = events == 1 && services < 3 && x.Pick("handled late", 2) == 1
				for _, s := range svcs {
					r.states[s] = svcStates[x.Pick("state", states)]
				}
				rows = append(rows, r)
			}
			return rows
		})
	}
}

// scnCleanShapes: three events, the middle one of every send type, sender,
// transaction and history.
func scnCleanShapes(x *explore.X) {
	sends := []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO, ddd.SendTypeTransaction, ddd.SendTypeDelay, "other"}
	senders := []string{"s", "", "é 世", strings.Repeat("x", 255)}
	done := []svcState{
		svcStates[0],
		{name: "done-2nd", status: busmysql.ServiceEventStatusSuccess, retry: 1, msg: "first attempt failed"},
		{name: "done-8th", status: busmysql.ServiceEventStatusSuccess, retry: 7, msg: "panic: x"},
		{name: "done-100th", status: busmysql.ServiceEventStatusSuccess, retry: 99, msg: strings.Repeat("long ", 1000)},
		{name: "done-0-msg", status: busmysql.ServiceEventStatusSuccess, msg: "m"},
	}
	order := [][]string{{"A", "B"}, {"B", "A", "B"}}[x.Pick("order", 2)]
	send, sender := sends[x.Pick("send type", len(sends))], senders[x.Pick("sender", len(senders))]
	a, c := done[x.Pick("state of A", len(done))], append(done[:len(done):len(done)], svcStates[1:]...)
	b := c[x.Pick("state of B", len(c))]
	trans := int64(x.Pick("of a transaction", 2)) * 7
	cleanWorld(x, []string{"A", "B"}, order, func() []*cleanRow {
		var rows []*cleanRow
		for i := 0; i < 3; i++ {
			r := &cleanRow{age: time.Hour, states: map[string]svcState{"A": svcStates[0], "B": svcStates[0]}}
			if i == 1 {
				r.send, r.sender, r.trans = send, &sender, trans
				r.states["A"], r.states["B"] = a, b
			}
			rows = append(rows, r)
		}
		return rows
	})
}

// scnCleanMany: many finished events at once, every tenth of them not.
func scnCleanMany(ns []int) func(x *explore.X) {
	return func(x *explore.X) {
		n := ns[x.Pick("number of events", len(ns))]
		kept := x.Pick("every tenth is kept", 2) == 1
		cleanWorld(x, []string{"A", "B"}, []string{"A", "B"}, func() []*cleanRow {
			var rows []*cleanRow
			for i := 0; i < n; i++ {
				r := &cleanRow{age: time.Hour + time.Duration(n-i)*time.Second, states: map[string]svcState{"A": svcStates[0], "B": svcStates[0]}}
				if kept && i%10 == 3 {
					r.states["B"] = svcStates[1]
				}
				rows = append(rows, r)
			}
			return rows
		})
	}
}

// scnCleanBatch: n finished events, one of them different at every position.
func scnCleanBatch(ns []int) func(x *explore.X) {
	return func(x *explore.X) {
		n := ns[x.Pick("number of events", len(ns))]
		odd := x.Pick("odd one", n+1) - 1
		kind := 0
		if odd >= 0 {
			kind = x.Pick("kind of the odd one", 4)
		}
		cleanWorld(x, []string{"A", "B"}, []string{"A", "B", "A"}, func() []*cleanRow {
			var rows []*cleanRow
			for i := 0; i < n; i++ {
				r := &cleanRow{age: time.Hour, states: map[string]svcState{"A": svcStates[0], "B": svcStates[0]}}
				if i == odd {
					switch kind {
					case 0:
						r.states["A"] = svcStates[1]
					case 1:
						r.states["B"] = svcStates[2]
					case 2:
						r.age = 5 * time.Second
					case 3:
						r.states["B"] = svcStates[3]
					}
				}
				rows = append(rows, r)
			}
			return rows
		})
	}
}

// cleanLive: cleaning concurrently with dispatching and handling.
type cleanLive struct {
	services  []string // instances
	events    [][]string
	fails     map[string]int // "svc/evt" -> failing attempts
	retention time.Duration
	conc      int
	from, to  time.Duration
	gone      bool // without deviations that break things everything is removed in the end
	horizon   time.Duration
	perRun    int
	eager     bool // failed attempts are due again at once
}

func scnCleanLive(sp cleanLive, cfg world.Config) func(x *explore.X) {
	return func(x *explore.X) {
		world.Run(x, cfg, func(w *world.World) {
			b := newBusSys(w)
			b.behave = func(svc, evt string, n int) error {
				if n < sp.fails[svc+"/"+evt] {
					return errHandler
				}
				return nil
			}
			opts := func(o *busmysql.Options) {
				o.RetryLimit = 8
				o.RetentionTime = sp.retention
				o.CleanCron = "* * * * * *"
				if sp.conc > 0 {
					o.ConsumeConcurrent = sp.conc
				}
				if sp.perRun > 0 {
					o.LimitPerRun = sp.perRun
				}
				if sp.eager {
					o.RetryStrategy = &busmysql.LimitRetry{Limit: 12}
				}
			}
			for k, s := range sp.services {
				b.inst(fmt.Sprintf("P%d", k+1), s, opts)
			}
			p := b.insts[0]
			var sends []*send
			for _, names := range sp.events {
				sends = append(sends, b.newSend(p, "s", ddd.SendTypeNormal, names...))
			}
			w.Window(sp.from, sp.to)
			p.p.Go("client", func() {
				time.Sleep(1400 * time.Millisecond)
				for _, s := range sends {
					s.fire(b)
					time.Sleep(500 * time.Millisecond)
				}
			})
			h := sp.horizon
			if h == 0 {
				h = 16 * time.Second
			}
			w.Loop(h, func() bool {
				return w.Tasks() == 0 && w.Since() > sp.to && b.openServiceEvents() == 0 && len(w.DB.Rows(tblSvcEvt)) == 0 && len(w.DB.Rows(tblEvent)) == 0
			})
			b.verifyDispatch(sends, b.services())
			if w.Faults() == 0 && w.Crashes() == 0 {
				for _, s := range sends {
					if s.err != nil {
						x.Failf("dispatch", "Dispatch failed without any failure: %v", s.err)
					}
					for _, svc := range b.services() {
						for _, n := range s.names {
							if _, ok := b.deliveries(svc, n); ok > 1 {
								x.Failf("duplicate", "%s handled %s successfully %d times", svc, n, ok)
							}
						}
					}
				}
				if r := len(w.DB.Rows(tblSvcEvt)); r > 0 {
					x.Failf("kept", "%d finished work items are never removed", r)
				} else if r := len(w.DB.Rows(tblEvent)); r > 0 {
					x.Failf("kept", "%d events every service has finished with are never removed", r)
				}
			}
			for _, p := range w.Panics() {
				x.Failf("panic", "%s", p)
			}
			b.outcome(fmt.Sprintf("left=%d/%d", len(w.DB.Rows(tblSvcEvt)), len(w.DB.Rows(tblEvent))))
		})
	}
}

func init() {
	ms := time.Millisecond
	pre := world.Config{Preempt: true, MaxSteps: 30000}
	stall := world.Config{Preempt: true, Holds: []time.Duration{1300 * ms}, MaxSteps: 30000}
	full := world.Config{Faults: true, CommitFaults: true, Crash: true, MaxCrash: 1, MaxSteps: 30000}
	ev := func(n ...string) [][]string { return [][]string{n} }
	ages := []time.Duration{time.Hour, 15 * time.Second}
	add(&explore.Property{
		ID: "C21", Title: "bus cleaning",
		Rule:        "every mix of work item states and ages for the stated numbers of events and services and every order of cleaning, uniform batches with one odd item at each position, and cleaning concurrently with dispatching and handling under every interleaving, stall, failure and crash up to the deviation bound",
		Assumptions: []string{"MySQL model (mc/memsql)", "removal is only demanded of runs without failures and crashes"},
		Scenarios: []*explore.Scenario{
			{Name: "bus-clean-mix-1ev-3svc", Doc: "one event, three services, seven states, two ages", Run: scnCleanMix(1, 7, 3, ages)},
			{Name: "bus-clean-mix-2ev-2svc", Doc: "two events, two services, five states, two ages", Run: scnCleanMix(2, 5, 2, ages)},
			{Name: "bus-clean-mix-3ev-2svc", Doc: "three events, two services, three states, one age", Run: scnCleanMix(3, 3, 2, ages[:1])},
			{Name: "bus-clean-age", Doc: "one event at ages around the retention time", Run: scnCleanMix(1, 2, 1, []time.Duration{29*time.Second + 900*ms, 30*time.Second - 2*ms, 30*time.Second + 2*ms, 31 * time.Second, 20*time.Second + 2*ms, 20*time.Second - 2*ms, 24 * time.Hour, 40*time.Second + ms})},
			{Name: "bus-clean-batch", Doc: "1..31 finished events with one odd one at every position", Run: scnCleanBatch([]int{1, 9, 10, 11, 19, 20, 21, 25, 31})},
			{Name: "bus-clean-many", Doc: "up to 2100 finished events at once", Run: scnCleanMany([]int{60, 101, 230, 520, 1030, 2100})},
			{Name: "bus-clean-shapes", Doc: "every send type, sender, transaction and history of handling", Run: scnCleanShapes},
			{Name: "bus-clean-live", Doc: "two instances of A, three events, no retention; the second event is retried while the others are cleaned", Run: scnCleanLive(cleanLive{services: []string{"A", "A"}, events: ev("e1", "e2", "e3"), fails: map[string]int{"A/e1": 1, "A/e2": 2, "A/e3": 2}, from: 1300 * ms, to: 4200 * ms}, stall), Quick: 2, Thorough: 2},
			{Name: "bus-clean-live-eager", Doc: "as before, failed attempts are due again at once", Run: scnCleanLive(cleanLive{services: []string{"A", "A"}, events: ev("e1", "e2", "e3"), fails: map[string]int{"A/e1": 1, "A/e2": 3, "A/e3": 4}, from: 1300 * ms, to: 6 * time.Second, eager: true}, stall), Quick: 1, Thorough: 2},
			{Name: "bus-clean-days", Doc: "calls minutes to a day apart over up to a week, failing attempts, retention of 3 h and the default", Run: scnBusDays(ddd.SendTypeNormal, ddd.SendTypeLaxFIFO)},
			{Name: "bus-clean-live-pre", Doc: "statement interleavings of two instances of A and one of B", Run: scnCleanLive(cleanLive{services: []string{"A", "A", "B"}, events: [][]string{{"e1"}, {"e2", "e3"}}, fails: map[string]int{"A/e1": 1}, from: 1300 * ms, to: 5 * time.Second}, pre), Quick: 1, Thorough: 2},
			{Name: "bus-clean-live-faults", Doc: "statement and commit failures and crashes", Run: scnCleanLive(cleanLive{services: []string{"A", "B"}, events: [][]string{{"e1", "e2"}, {"e3"}}, fails: map[string]int{"B/e1": 2}, from: 1300 * ms, to: 5 * time.Second}, full), Quick: 1, Thorough: 2},
			{Name: "bus-clean-live-kinds", Doc: "statements failing in every way", Run: scnCleanLive(cleanLive{services: []string{"A", "B"}, events: [][]string{{"e1", "e2"}}, fails: map[string]int{"B/e1": 2}, from: 1300 * ms, to: 4 * time.Second}, world.Config{Faults: true, CommitFaults: true, Kinds: world.Kinds, MaxSteps: 30000}), Quick: 1, Thorough: 2},
		},
	})
}
