package checks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	busmysql "github.com/bytedance/dddfirework/eventbus/mysql"
	gosql "github.com/go-sql-driver/mysql"

	"verif/mc/explore"
	"verif/mc/memsql"
	"verif/mc/world"
)

const (
	tblEvent   = "ddd_domain_event"
	tblService = "ddd_eventbus_service"
	tblSvcEvt  = "ddd_domain_service_event"
	tblTx      = "ddd_event_transaction"
)

type bizEvent struct {
	Name string
	From string
	Pad  string `json:",omitempty"`
}

const bizType = ddd.EventType("biz")

// the type follows from the name, so that neighbours differ sometimes: o1, then
// o2 and o3, then o4
func (b *bizEvent) GetType() ddd.EventType {
	if n := len(b.Name); n > 0 && b.Name[n-1]/2%2 == 1 {
		return bizType + ".other"
	}
	return bizType
}
func (b *bizEvent) GetSender() string { return b.From }

func newEvt(name, sender string, st ddd.SendType) *ddd.DomainEvent {
	return ddd.NewDomainEvent(&bizEvent{Name: name, From: sender}, ddd.WithSendType(st))
}

func evtName(e *ddd.DomainEvent) string {
	b := &bizEvent{}
	if err := json.Unmarshal(e.Payload, b); err != nil {
		return "?" + err.Error()
	}
	return b.Name
}

// delivery is one call of a service's handler.
type delivery struct {
	svc, inst, evt string
	start, end     time.Time
	seq, endSeq    int
	ok             bool
	done           bool
	crashed        bool
	inc            int
}

type busInst struct {
	p    *world.Proc
	svc  string
	bus  *busmysql.EventBus
	opts func(o *busmysql.Options)
}

type busSys struct {
	items     []func() // stores the work items of events
	holdItems bool

	w     *world.World
	x     *explore.X
	mu    sync.Mutex
	insts []*busInst
	log   []*delivery
	seq   int
	// behaviour of a handler call: nil error = success
	behave  func(svc, evt string, attempt int) error
	points  int // scheduling points per handler call (1 or 2)
	checker func(inst *busInst, evt *ddd.DomainEvent) ddd.TXStatus
	start   bool
	sent    map[string]*ddd.DomainEvent
	slow    func(svc, evt string, attempt int) time.Duration
	onBoot  func(i *busInst)         // after the bus was made, before it starts
	track   bool                     // note handler calls for events whose success is stored
	again   []string                 // these
	waits   map[string]time.Duration // instance -> time from the making of the bus to its start
}

func newBusSys(w *world.World) *busSys {
	b := &busSys{w: w, x: w.X, points: 2, start: true, sent: map[string]*ddd.DomainEvent{}}
	w.AddModels(&busmysql.EventPO{}, &busmysql.ServicePO{}, &busmysql.ServiceEventPO{}, &busmysql.Transaction{})
	return b
}

func (b *busSys) inst(name, svc string, opts func(o *busmysql.Options)) *busInst {
	i := &busInst{p: b.w.NewProc(name), svc: svc, opts: opts}
	b.insts = append(b.insts, i)
	b.w.Setup(func() { b.boot(i) })
	i.p.OnCrash = func() {
		b.mu.Lock()
		defer b.mu.Unlock()
		for _, d := range b.log {
			if d.inst == name && !d.done {
				d.crashed, d.done = true, true
				b.seq++
				d.endSeq, d.end = b.seq, time.Now()
			}
		}
	}
	i.p.OnRestart = func(p *world.Proc) { p.Go("boot", func() { b.boot(i) }) }
	return i
}

func (b *busSys) boot(i *busInst) {
	i.bus = busmysql.NewEventBus(i.svc, i.p.DB, func(o *busmysql.Options) {
		o.Logger = discard
		o.RunInterval = time.Second
		o.RetryInterval = time.Second
		o.RetryLimit = 1
		o.TXCheckTimeout = 5 * time.Second
		if i.opts != nil {
			i.opts(o)
		}
	})
	i.bus.RegisterEventHandler(func(ctx context.Context, evt *ddd.DomainEvent) error { return b.handle(i, evt) })
	i.bus.RegisterEventTXChecker(func(evt *ddd.DomainEvent) ddd.TXStatus {
		if b.checker == nil {
			return ddd.TXRollBack
		}
		return b.checker(i, evt)
	})
	if b.onBoot != nil {
		b.onBoot(i)
	}
	switch {
	case b.start && b.waits[i.p.Name] > 0 && i.p.Inc == 0:
		i.p.Go("start", func() { time.Sleep(b.waits[i.p.Name]); i.bus.Start(context.Background()) })
	case b.start:
		i.bus.Start(context.Background())
	}
}

// later makes an instance of another service some time after the start.
func (b *busSys) later(name, svc string, at time.Duration, opts func(o *busmysql.Options)) {
	i := &busInst{p: b.w.NewProc(name), svc: svc, opts: opts}
	b.insts = append(b.insts, i)
	i.p.OnRestart = func(p *world.Proc) { p.Go("boot", func() { b.boot(i) }) }
	i.p.Go("boot", func() { time.Sleep(at); b.boot(i) })
}

// registered lists the services that are in the database.
func (b *busSys) registered() (l []string) {
	for _, r := range b.w.DB.Rows(tblService) {
		l = append(l, fmt.Sprint(r["name"]))
	}
	sort.Strings(l)
	return
}

func (b *busSys) handle(i *busInst, evt *ddd.DomainEvent) error {
	name := evtName(evt)
	i.p.Point("handler " + i.svc + "/" + name + " begins")
	b.mu.Lock()
	b.seq++
	d := &delivery{svc: i.svc, inst: i.p.Name, evt: name, start: time.Now(), seq: b.seq, inc: i.p.Inc}
	n := 0
	for _, o := range b.log {
		if o.svc == i.svc && o.evt == name {
			n++
		}
	}
	b.log = append(b.log, d)
	want := b.sent[name]
	b.mu.Unlock()
	if b.track && b.stored(i.svc, want) {
		b.again = append(b.again, fmt.Sprintf("%s was handed %s again (instance %s) after its success was stored", i.svc, name, i.p.Name))
	}
	if diff := evtDiff(want, evt); diff != "" {
		b.w.Fail("content", "%s handled %s with different content: %s", i.svc, name, diff)
	}
	if b.slow != nil {
		if t := b.slow(i.svc, name, n); t > 0 {
			time.Sleep(t)
		}
	}
	if b.points > 1 {
		i.p.Point("handler " + i.svc + "/" + name + " ends")
	}
	var err error
	if b.behave != nil {
		err = b.behave(i.svc, name, n)
	}
	b.mu.Lock()
	b.seq++
	d.end, d.endSeq, d.ok, d.done = time.Now(), b.seq, err == nil, true
	b.mu.Unlock()
	if err == errPanic {
		d.ok = false
		panic("handler panic " + name)
	}
	if f, ok := err.(panicBy); ok {
		d.ok = false
		f()
	}
	return err
}

// panicBy makes a handler panic in its own way.
type panicBy func()

func (panicBy) Error() string { return "panic requested" }

var errPanic = fmt.Errorf("panic requested")
var errHandler = fmt.Errorf("handler failed")

func (b *busSys) deliveries(svc, evt string) (all []*delivery, okN int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, d := range b.log {
		if d.svc == svc && d.evt == evt {
			all = append(all, d)
			if d.ok {
				okN++
			}
		}
	}
	return
}

// kick calls the post-save hook the engine would call.
func (b *busSys) kick(i *busInst) {
	o := &ddd.Options{}
	for _, opt := range i.bus.Options() {
		opt.ApplyToOptions(o)
	}
	for _, h := range o.PostSaveHooks {
		h(context.Background(), &ddd.Result{})
	}
}

func (b *busSys) openServiceEvents() int {
	n := 0
	for _, r := range b.w.DB.Rows(tblSvcEvt) {
		if r["status"] == int64(0) {
			n++
		}
	}
	return n
}

// stored tells whether the service's success with the event is in the database.
func (b *busSys) stored(svc string, evt *ddd.DomainEvent) bool {
	for _, e := range b.w.DB.Rows(tblEvent) {
		if evt == nil || !strings.Contains(fmt.Sprint(e["event"]), evt.ID) {
			continue
		}
		for _, r := range b.w.DB.Rows(tblSvcEvt) {
			if r["event_id"] == e["id"] && r["service"] == svc && r["status"] == int64(10) {
				return true
			}
		}
	}
	return false
}

// expire marks the finally failed events (of a service) expired, as an operator
// does, and returns service+ID of each.
func (b *busSys) expire(svc string) (l []string) {
	for _, r := range b.w.DB.Rows(tblSvcEvt) {
		if r["status"] != int64(21) || svc != "" && r["service"] != svc {
			continue
		}
		for _, e := range b.w.DB.Rows(tblEvent) {
			if e["id"] != r["event_id"] {
				continue
			}
			for _, s := range b.sent {
				if strings.Contains(fmt.Sprint(e["event"]), s.ID) {
					l = append(l, fmt.Sprint(r["service"])+s.ID)
				}
			}
		}
		r["status"] = int64(31)
		rid := r["id"]
		b.w.DB.DeleteWhere(tblSvcEvt, func(m map[string]memsql.Value) bool { return m["id"] == rid })
		b.w.DB.Put(tblSvcEvt, r)
	}
	sort.Strings(l)
	return
}

func (b *busSys) order(svc string) string {
	b.mu.Lock()
	defer b.mu.Unlock()
	var s []string
	for _, d := range b.log {
		if d.svc == svc {
			t := d.evt
			if !d.ok {
				t += "!"
			}
			s = append(s, t)
		}
	}
	return svc + ":" + strings.Join(s, ",")
}

func (b *busSys) services() []string {
	m := map[string]bool{}
	for _, i := range b.insts {
		m[i.svc] = true
	}
	var l []string
	for s := range m {
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}

func (b *busSys) outcome(extra string) {
	var s []string
	for _, svc := range b.services() {
		s = append(s, b.order(svc))
	}
	b.x.Outcome("%s %s", strings.Join(s, " "), extra)
}

// evtDiff compares what was dispatched with what arrived.
func evtDiff(want, got *ddd.DomainEvent) string {
	if want == nil {
		return "never dispatched"
	}
	switch {
	case want.ID != got.ID:
		return fmt.Sprintf("ID %s, want %s", got.ID, want.ID)
	case want.Type != got.Type:
		return fmt.Sprintf("Type %s, want %s", got.Type, want.Type)
	case want.SendType != got.SendType:
		return fmt.Sprintf("SendType %s, want %s", got.SendType, want.SendType)
	case want.Sender != got.Sender:
		return fmt.Sprintf("Sender %s, want %s", got.Sender, want.Sender)
	case string(want.Payload) != string(got.Payload):
		return fmt.Sprintf("Payload %s, want %s", got.Payload, want.Payload)
	case !want.CreatedAt.Equal(got.CreatedAt):
		return fmt.Sprintf("CreatedAt %s, want %s", got.CreatedAt, want.CreatedAt)
	}
	return ""
}

// mk makes an event known to the content check.
func (b *busSys) mk(name, sender string, st ddd.SendType) *ddd.DomainEvent {
	return b.mkAged(name, sender, st, 0)
}

func (b *busSys) mkAged(name, sender string, st ddd.SendType, age time.Duration) *ddd.DomainEvent {
	e := newEvt(name, sender, st)
	e.CreatedAt = e.CreatedAt.Add(-age)
	c := *e
	b.mu.Lock()
	b.sent[name] = &c
	b.mu.Unlock()
	return e
}

// newSend prepares a Dispatch call.
func (b *busSys) newSend(i *busInst, sender string, st ddd.SendType, names ...string) *send {
	s := &send{names: names, inst: i, sender: sender, st: st}
	return s
}

// fire makes the events now and dispatches them.
func (s *send) fire(b *busSys) error {
	for i, n := range s.names {
		var age time.Duration // raised earlier, by a command that took longer to get here
		if s.ages != nil {
			age = s.ages[i]
		}
		st := s.st
		if s.sts != nil {
			st = s.sts[i]
		}
		e := b.mkAged(n, s.sender, st, age)
		s.events = append(s.events, e)
	}
	for i, id := range s.ids {
		s.events[i].ID = id
		b.mu.Lock()
		b.sent[s.names[i]].ID = id
		b.mu.Unlock()
	}
	s.svcs = b.registered()
	if s.tx {
		var ctx context.Context
		if ctx, s.err = s.inst.bus.DispatchBegin(context.Background(), s.events...); s.err == nil {
			s.err = s.inst.bus.Commit(ctx)
		}
	} else {
		s.err = s.inst.bus.Dispatch(context.Background(), s.events...)
	}
	s.done = true
	return s.err
}

// overlap reports handler calls of one event in one service that overlap.
func (b *busSys) overlap() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	for i, d := range b.log {
		for _, e := range b.log[:i] {
			if d.svc == e.svc && d.evt == e.evt && (!e.done || e.endSeq > d.seq) && !e.crashed {
				return fmt.Sprintf("%s was handed %s (instance %s) while %s was still handling it", d.svc, d.evt, d.inst, e.inst)
			}
		}
	}
	return ""
}

// send is one Dispatch call and what became of it.
type send struct {
	names  []string
	ages   []time.Duration
	ids    []string // IDs of the events, if not their own
	events []*ddd.DomainEvent
	err    error
	done   bool
	inst   *busInst
	sender string
	st     ddd.SendType
	svcs   []string       // the services registered when the call began
	sts    []ddd.SendType // one for each event, instead of st
	tx     bool           // in a transaction, committed right away
}

// knownInjected tells whether err is an injected failure.
func knownInjected(err error) bool {
	for _, k := range world.Kinds {
		if err == k {
			return true
		}
	}
	return false
}

// verifyAtLeastOnce is the C16 oracle for a call.
func (b *busSys) verifyDispatch(sends []*send, svcs []string) {
	for _, s := range sends {
		total, got := 0, 0
		var miss []string
		audience := svcs
		if audience == nil {
			audience = s.svcs
		}
		for _, svc := range audience {
			for _, n := range s.names {
				total++
				if _, ok := b.deliveries(svc, n); ok > 0 {
					got++
				} else {
					miss = append(miss, svc+"/"+n)
				}
			}
		}
		switch {
		case s.done && s.err == nil && got != total:
			b.x.Failf("lost-event", "Dispatch(%v) succeeded but never handled: %v", s.names, miss)
		case got != 0 && got != total:
			b.x.Failf("partial-dispatch", "Dispatch(%v) (returned=%v err=%v) reached only part of its audience; never handled: %v", s.names, s.done, s.err, miss)
		case s.done && s.err != nil && got > 0 && knownInjected(s.err) && !errors.Is(s.err, gosql.ErrInvalidConn):
			b.x.Failf("failed-dispatch-delivered", "Dispatch(%v) returned %v (before any effect) but the events were delivered", s.names, s.err)
		}
	}
}
