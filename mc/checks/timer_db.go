package checks

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	timersql "github.com/bytedance/dddfirework/d_timer/sql"

	"verif/mc/explore"
	"verif/mc/world"
)

// The database timer: instances of services that poll one job table, and
// clients that register and cancel timers.

// tmCron is a schedule with its own idea of the next time.
type tmCron struct {
	expr string
	next func(t time.Time) time.Time
}

func everyNth(n int) func(t time.Time) time.Time {
	d := time.Duration(n) * time.Second
	return func(t time.Time) time.Time { return t.Truncate(d).Add(d) }
}

var (
	cron2     = tmCron{"*/2 * * * * *", everyNth(2)}
	cron3     = tmCron{"*/3 * * * * *", everyNth(3)}
	cronEvery = tmCron{"@every 3s", func(t time.Time) time.Time { return t.Truncate(time.Second).Add(3 * time.Second) }}
	cronMin   = tmCron{"0 * * * * *", everyNth(60)}
	cronList  = tmCron{"5,9,10 * * * * *", func(t time.Time) time.Time {
		for {
			t = t.Truncate(time.Second).Add(time.Second)
			if s := t.Second(); s == 5 || s == 9 || s == 10 {
				return t
			}
		}
	}}
)

type tmReg struct {
	svc, key, payload string
	cron              *tmCron
	at                time.Time // one-shot: when it is due
	r0, r1            time.Time
	err               error
	done              bool
	seq0, seq1        int
	invalid           bool
}

type tmCancel struct {
	key      string
	err      error
	c0, c1   time.Time
	done     bool
	seq, end int
}

type tmCall struct {
	inst, svc, key, cron, payload string
	start, end                    time.Time
	seq, endSeq                   int
	done, crashed, failed         bool
}

type tmInst struct {
	p   *world.Proc
	svc string
	off time.Duration
	tm  *timersql.DBTimer
}

type tmSys struct {
	up      time.Duration // nothing polls before
	w       *world.World
	x       *explore.X
	mu      sync.Mutex
	seq     int
	insts   []*tmInst
	regs    []*tmReg
	cancels []*tmCancel
	calls   []*tmCall
	slow    map[string]time.Duration // key -> time a callback takes
	fails   map[string]bool
	err     error
	slack   time.Duration
	every   time.Duration // between polls
	bad     bool
}

var errTimer = errors.New("callback failed")

func newTmSys(w *world.World) *tmSys {
	s := &tmSys{w: w, x: w.X, slow: map[string]time.Duration{}, fails: map[string]bool{}, every: time.Second}
	w.AddModels(&timersql.TimerJob{})
	return s
}

func (s *tmSys) fail(sig, f string, a ...interface{}) {
	if !s.bad {
		s.w.Fail(sig, f, a...)
	}
	s.bad = true
}

func (s *tmSys) inst(name, svc string, off time.Duration) *tmInst {
	i := &tmInst{p: s.w.NewProc(name), svc: svc}
	s.insts = append(s.insts, i)
	s.make(i)
	if off == 0 {
		i.tm.Start(context.Background())
		i.tm.Start(context.Background()) // starting again has no effect
	} else {
		i.p.Go("boot", func() { time.Sleep(off); i.tm.Start(context.Background()) })
	}
	i.p.OnCrash = func() {
		s.mu.Lock()
		defer s.mu.Unlock()
		for _, c := range s.calls {
			if c.inst == name && !c.done {
				s.seq++
				c.done, c.crashed, c.end, c.endSeq = true, true, time.Now(), s.seq
			}
		}
	}
	i.p.OnRestart = func(p *world.Proc) { s.make(i); i.tm.Start(context.Background()) }
	return i
}

func (s *tmSys) make(i *tmInst) {
	i.tm = timersql.NewDBTimer(i.svc, i.p.DB, func(o *timersql.Options) { o.Logger = discard; o.RunInterval = s.every })
	i.tm.RegisterTimerHandler(func(ctx context.Context, key, cron string, data []byte) error {
		return s.callback(i, key, cron, string(data))
	})
}

func (s *tmSys) callback(i *tmInst, key, cron, payload string) error {
	i.p.Point("callback of " + key + " begins")
	s.mu.Lock()
	s.seq++
	c := &tmCall{inst: i.p.Name, svc: i.svc, key: key, cron: cron, payload: payload, start: time.Now(), seq: s.seq}
	s.calls = append(s.calls, c)
	slow, fails := s.slow[key], s.fails[key]
	s.mu.Unlock()
	if slow > 0 {
		time.Sleep(slow)
	}
	i.p.Point("callback of " + key + " ends")
	s.mu.Lock()
	s.seq++
	c.done, c.failed, c.end, c.endSeq = true, fails, time.Now(), s.seq
	s.mu.Unlock()
	if fails {
		if s.err != nil {
			return s.err
		}
		return errTimer
	}
	return nil
}

// tmOp is a step of a client.
type tmOp struct {
	at      time.Duration
	op      string // cron, once, cancel
	key     string
	cron    *tmCron
	due     time.Duration // once: from now
	invalid bool
}

func (s *tmSys) client(i *tmInst, name string, ops []tmOp) {
	i.p.Go(name, func() {
		for n, o := range ops {
			if d := s.w.Start().Add(o.at).Sub(time.Now()); d > 0 {
				time.Sleep(d)
			}
			s.mu.Lock()
			s.seq++
			now := time.Now()
			if o.op == "cancel" {
				c := &tmCancel{key: o.key, c0: now, seq: s.seq}
				s.cancels = append(s.cancels, c)
				s.mu.Unlock()
				err := i.tm.Cancel(o.key)
				s.mu.Lock()
				s.seq++
				c.err, c.c1, c.done, c.end = err, time.Now(), true, s.seq
				s.mu.Unlock()
				continue
			}
			r := &tmReg{svc: i.svc, key: o.key, payload: fmt.Sprintf("%s %s %d", name, o.key, n), cron: o.cron, at: now.Add(o.due), r0: now, seq0: s.seq, invalid: o.invalid}
			s.regs = append(s.regs, r)
			s.mu.Unlock()
			var err error
			if o.op == "cron" {
				err = i.tm.RunCron(o.key, o.cron.expr, []byte(r.payload))
			} else {
				err = i.tm.RunOnce(o.key, r.at, []byte(r.payload))
			}
			s.mu.Lock()
			s.seq++
			r.err, r.r1, r.done, r.seq1 = err, time.Now(), true, s.seq
			s.mu.Unlock()
		}
	})
}

// check judges the finished execution; disturbed is how many crashes and
// failed statements there were.
func (s *tmSys) check() {
	w := s.w
	now := time.Now()
	since := func(t time.Time) time.Duration { return t.Sub(w.Start()) }
	disturbed := w.Faults() + w.Crashes()
	for _, p := range w.Panics() {
		s.fail("panic", "%s", p)
	}
	keys := map[string]bool{}
	for _, r := range s.regs {
		keys[r.key] = true
		if r.done && disturbed == 0 && r.err != nil && !r.invalid {
			s.fail("registration", "registering %s failed: %v", r.key, r.err)
		}
		if r.done && r.invalid && r.err == nil {
			s.fail("accepted", "registering %s at %s was accepted", r.key, since(r.at))
		}
	}
	for _, c := range s.cancels {
		if c.done && disturbed == 0 && c.err != nil {
			s.fail("cancel-error", "cancelling %s failed: %v", c.key, c.err)
		}
	}
	var kl []string
	for k := range keys {
		kl = append(kl, k)
	}
	sort.Strings(kl)
	byPayload := map[string]*tmReg{}
	for _, r := range s.regs {
		byPayload[r.payload] = r
	}
	// which registrations can be in force: not invalid, not refused, and no
	// other one for the key that was surely in force when it began
	gone := func(o *tmReg, seq int) bool { // o may have been cancelled before seq
		for _, c := range s.cancels {
			if c.key == o.key && c.seq < seq && (!c.done || c.end > o.seq0) {
				return true
			}
		}
		return false
	}
	stands := func(r *tmReg) bool {
		if r.invalid {
			return false
		}
		for _, o := range s.regs {
			if o != r && o.key == r.key && o.done && o.err == nil && !o.invalid && o.seq1 < r.seq0 && !gone(o, r.seq1) {
				return false
			}
		}
		return true
	}
	for _, c := range s.calls {
		r := byPayload[c.payload]
		switch {
		case r == nil || r.key != c.key:
			s.fail("payload", "a callback of %s was given the payload %q", c.key, c.payload)
			return
		case r.svc != c.svc:
			s.fail("service", "the timer %s of %s was run by %s", c.key, r.svc, c.svc)
		case c.seq < r.seq0:
			s.fail("payload", "a callback came before the registration")
		case r.cron == nil && c.cron != "" || r.cron != nil && c.cron != r.cron.expr:
			s.fail("cron", "a callback of %s was given the schedule %q", c.key, c.cron)
		case !stands(r):
			s.fail("replaced", "registering %s again took effect, a callback was given %q", c.key, c.payload)
		}
		for _, k := range s.cancels {
			if k.key == c.key && k.done && k.err == nil && r.done && r.seq1 < k.seq && c.seq > k.end {
				s.fail("after-cancel", "%s ran at %s although it was cancelled at %s", c.key, since(c.start), since(k.c1))
			}
		}
	}
	for _, k := range kl {
		for i, c := range s.calls {
			for _, o := range s.calls[i+1:] {
				if c.key == k && o.key == k && o.seq < c.endSeq && !c.crashed {
					s.fail("overlap", "%s runs twice at the same time", k)
				}
			}
		}
		used := ""
		for _, c := range s.calls {
			if c.key == k {
				if used != "" && used != c.payload && !s.cancelled(k, 0) {
					s.fail("replaced", "%s ran with the payloads %q and %q", k, used, c.payload)
				}
				used = c.payload
			}
		}
	}
	// what may have been in force when r was registered
	other := func(r, o *tmReg) bool {
		if o == r || o.key != r.key || !stands(o) || o.seq0 > r.seq1 {
			return false
		}
		for _, c := range s.cancels {
			if c.key == r.key && c.done && c.err == nil && o.done && o.seq1 < c.seq && c.end < r.seq0 {
				return false
			}
		}
		return true
	}
	ran := func(r *tmReg) (l []*tmCall) {
		for _, c := range s.calls {
			if c.payload == r.payload {
				l = append(l, c)
			}
		}
		return
	}
	for _, r := range s.regs {
		if s.bad {
			return
		}
		if !stands(r) {
			continue
		}
		s.checkReg(r, ran(r), disturbed, now, func() bool {
			for _, o := range s.regs {
				if other(r, o) && len(ran(o)) > 0 {
					return true
				}
			}
			return false
		})
	}
	var l []string
	for _, c := range s.calls {
		l = append(l, fmt.Sprintf("%s %s %s %s", c.inst, c.key, c.payload, since(c.start).Round(time.Millisecond)))
	}
	s.x.StepStr(strings.Join(l, "; "))
	s.x.Outcome("%d calls", len(s.calls))
}

// checkReg judges the calls of one registration; instead tells whether another
// one may have been in force in its place.
func (s *tmSys) checkReg(r *tmReg, calls []*tmCall, disturbed int, now time.Time, instead func() bool) {
	since := func(t time.Time) time.Duration { return t.Sub(s.w.Start()) }
	k := r.key
	// the first time it is due is between these
	from, to := r.at, r.at
	if r.cron != nil {
		from, to = r.cron.next(r.r0), r.cron.next(r.r1)
		if !r.done {
			to = r.cron.next(now)
		}
	} else if r.done && r.r1.After(to) {
		to = r.r1
	}
	if up := s.w.Start().Add(s.up); up.After(to) {
		to = up
	}
	// surely registered and not cancelled
	sure := r.done && r.err == nil && !s.cancelled(k, r.seq0)
	if len(calls) == 0 {
		if sure && now.Sub(to) > s.slack && !instead() {
			s.fail("missed", "%s was due at %s and did not run until %s", k, since(to), since(now))
		}
		return
	}
	sure = sure || r.done && !s.cancelled(k, r.seq0)
	first, last := calls[0], calls[len(calls)-1]
	if sure && first.start.Sub(to) > s.slack {
		s.fail("late", "%s was due at %s and ran at %s", k, since(to), since(first.start))
	}
	if r.cron == nil {
		// the stored time is rounded to a second
		if first.start.Before(from.Add(-500 * time.Millisecond)) {
			s.fail("early", "%s was due at %s and ran at %s", k, since(from), since(first.start))
		}
		if len(calls) > 1+disturbed {
			s.fail("repeated", "the one-shot timer %s ran %d times", k, len(calls))
		}
		if sure && last.crashed && now.Sub(last.end) > s.slack {
			s.fail("lost", "%s crashed at %s and never ran again", k, since(last.end))
		}
		return
	}
	if first.start.Before(from) {
		s.fail("early", "%s was due at %s and ran at %s", k, since(from), since(first.start))
	}
	extra := 0
	after := func(p *tmCall) time.Time {
		if p.crashed {
			return p.end
		}
		return r.cron.next(p.end)
	}
	for i, c := range calls[1:] {
		p := calls[i]
		if n := r.cron.next(p.start); c.start.Before(n) {
			if extra++; extra > disturbed {
				s.fail("repeated", "%s ran at %s and again at %s, before the next time %s", k, since(p.start), since(c.start), since(n))
			}
		}
		if sure && c.start.Sub(after(p)) > s.slack {
			s.fail("late", "%s was due at %s and ran at %s", k, since(after(p)), since(c.start))
		}
	}
	if sure && last.done && now.Sub(after(last)) > s.slack {
		s.fail("missed", "%s was due at %s and did not run until %s", k, since(after(last)), since(now))
	}
}

// cancelled tells whether the key may have been cancelled after seq.
func (s *tmSys) cancelled(key string, seq int) bool {
	for _, c := range s.cancels {
		if c.key == key && (!c.done || c.end > seq) {
			return true
		}
	}
	return false
}

// tmSpec is a C22 system.
type tmSpec struct {
	svcs    []string // service of every instance
	offs    []time.Duration
	clients func(x *explore.X) [][]tmOp // client n belongs to instance n modulo the instances
	slow    map[string]time.Duration
	fails   map[string]bool
	err     error // what they fail with
	from    time.Duration
	to      time.Duration
	horizon time.Duration
	slack   time.Duration
	every   time.Duration   // between polls, one second if zero
	downs   []time.Duration // timers are registered, but polling starts only later
}

func scnTimer(sp tmSpec, cfg world.Config) func(x *explore.X) {
	return func(x *explore.X) {
		world.Run(x, cfg, func(w *world.World) {
			s := newTmSys(w)
			for k, v := range sp.slow {
				s.slow[k] = v
			}
			for k, v := range sp.fails {
				s.fails[k] = v
			}
			s.err = sp.err
			if sp.every > 0 {
				s.every = sp.every
			}
			if len(sp.downs) > 0 {
				s.up = sp.downs[x.Pick("down for", len(sp.downs))]
			}
			progs := sp.clients(x)
			for i, svc := range sp.svcs {
				off := time.Duration(0)
				if i < len(sp.offs) {
					off = sp.offs[i]
				}
				if s.up > 0 {
					off += s.up
				}
				s.inst(fmt.Sprintf("P%d", i+1), svc, off)
			}
			for n, ops := range progs {
				s.client(s.insts[n%len(s.insts)], fmt.Sprintf("c%d", n+1), ops)
			}
			w.Window(sp.from, sp.to)
			w.Loop(sp.horizon+s.up, nil)
			// a poll later, its own stalls, and the recovery from what was injected
			s.slack = s.every + 100*time.Millisecond + sp.slack
			s.slack += w.Held() + time.Duration(w.Faults()+2*w.Crashes())*time.Second
			s.check()
		})
	}
}

func tmOps(l ...tmOp) func(x *explore.X) [][]tmOp {
	return func(x *explore.X) [][]tmOp { return [][]tmOp{l} }
}

func init() {
	sec, ms := time.Second, time.Millisecond
	pre := world.Config{Preempt: true, Holds: []time.Duration{1300 * ms, 2600 * ms}, MaxSteps: 20000}
	preOnly := world.Config{Preempt: true, MaxSteps: 20000}
	faults := world.Config{Preempt: true, Faults: true, CommitFaults: true, MaxSteps: 20000}
	crash := world.Config{Preempt: true, Crash: true, RestartAfter: 700 * ms, MaxSteps: 20000}
	AA := []string{"A", "A"}
	onceMix := func(x *explore.X) [][]tmOp {
		d := []time.Duration{2 * sec, 2400 * ms, 2500 * ms, 3600 * ms}[x.Pick("due", 4)]
		return [][]tmOp{{{at: 500 * ms, op: "once", key: "k", due: d}, {op: "once", key: "l", due: d + 100*ms}}}
	}
	crons := func(at time.Duration) []tmOp {
		return []tmOp{{at: at, op: "cron", key: "k", cron: &cron2}, {op: "cron", key: "l", cron: &cron3}}
	}
	kinds := []tmOp{{op: "cron", key: "k", cron: &cron2}, {op: "once", key: "k", due: 2 * sec}, {op: "cron", key: "k", cron: &cron3}}
	kind := func(x *explore.X, at time.Duration) tmOp {
		o := kinds[x.Pick("timer", len(kinds))]
		o.at = at
		return o
	}
	same := func(n int) func(x *explore.X) [][]tmOp {
		return func(x *explore.X) (l [][]tmOp) {
			for i := 0; i < n; i++ {
				l = append(l, []tmOp{kind(x, 500*ms)})
			}
			return l
		}
	}
	again := func(x *explore.X) [][]tmOp {
		a := kind(x, 300*ms)
		at := []time.Duration{700 * ms, 3300 * ms, 2 * sec}[x.Pick("again at", 3)]
		return [][]tmOp{{a}, {kind(x, at), kind(x, at+ms)}}
	}
	cancel := func(x *explore.X) [][]tmOp {
		a := kind(x, 300*ms)
		at := []time.Duration{700 * ms, 2 * sec, 2300 * ms, 3200 * ms}[x.Pick("cancelled at", 4)]
		l := []tmOp{{at: at, op: "cancel", key: "k"}}
		switch x.Pick("then", 3) {
		case 1:
			l = append(l, kind(x, at+ms))
		case 2:
			l = append(l, tmOp{op: "cancel", key: "k"}, tmOp{op: "cancel", key: "none"})
		}
		return [][]tmOp{{a}, l, {{at: 400 * ms, op: "cron", key: "l", cron: &cron3}}}
	}
	inputs := func(x *explore.X) [][]tmOp {
		cs := []tmCron{cron2, cron3, cronEvery, cronMin, cronList, {expr: "* * * *"}, {expr: "61 * * * * *"}, {expr: "x"}, {expr: "@sometimes"}, {expr: "* * * * * * *"}}
		at := []time.Duration{100 * ms, sec, 1900 * ms, 59500 * ms}[x.Pick("at", 4)]
		var l []tmOp
		for _, k := range []string{"k", "l"} {
			c := x.Pick("timer", len(cs)+6)
			if c < len(cs) {
				l = append(l, tmOp{at: at, op: "cron", key: k, cron: &cs[c], invalid: cs[c].next == nil})
			} else {
				d := []time.Duration{-ms, -time.Hour, 0, 700 * ms, 61 * sec, 90 * sec}[c-len(cs)]
				l = append(l, tmOp{at: at, op: "once", key: k, due: d, invalid: d < 0})
			}
		}
		if l[0].invalid {
			l = append(l, tmOp{op: "once", key: "k", due: 1500 * ms})
		}
		return [][]tmOp{l}
	}
	slow := map[string]time.Duration{"k": 1700 * ms}
	crowd := func(x *explore.X) [][]tmOp {
		n := []int{7, 31, 60, 110}[x.Pick("timers", 4)]
		var l []tmOp
		for i := 0; i < n; i++ {
			o := tmOp{at: 300 * ms, op: "once", key: fmt.Sprintf("t%03d", (i*37)%n), due: 2500 * ms}
			if i%10 == 3 {
				o.op, o.cron = "cron", &cron3
			}
			l = append(l, o)
		}
		return [][]tmOp{l}
	}
	overdue := func(x *explore.X) [][]tmOp {
		var l []tmOp
		n := []int{1, 2, 5, 12}[x.Pick("one-shot timers", 4)]
		for i := 0; i < n; i++ {
			l = append(l, tmOp{at: 100 * ms, op: "once", key: fmt.Sprint("o", i), due: time.Duration(i%3*i+1) * sec})
		}
		if x.Pick("schedule", 2) == 1 {
			l = append(l, tmOp{at: 100 * ms, op: "cron", key: "k", cron: &cron2})
		}
		return [][]tmOp{l}
	}
	month := tmCron{"0 0 0 1 * *", func(t time.Time) time.Time {
		return time.Date(t.Year(), t.Month()+1, 1, 0, 0, 0, 0, t.Location())
	}}
	noon := tmCron{"0 0 12 * * *", func(t time.Time) time.Time {
		n := time.Date(t.Year(), t.Month(), t.Day(), 12, 0, 0, 0, t.Location())
		if !n.After(t) {
			n = n.AddDate(0, 0, 1)
		}
		return n
	}}
	week := tmCron{"0 30 8 * * 1", func(t time.Time) time.Time {
		n := time.Date(t.Year(), t.Month(), t.Day(), 8, 30, 0, 0, t.Location())
		for !n.After(t) || n.Weekday() != time.Monday {
			n = n.AddDate(0, 0, 1)
		}
		return n
	}}
	hourly := tmCron{"@hourly", func(t time.Time) time.Time {
		return time.Date(t.Year(), t.Month(), t.Day(), t.Hour()+1, 0, 0, 0, t.Location())
	}}
	day := 24 * time.Hour
	days := func(x *explore.X) [][]tmOp {
		at := []time.Duration{sec, 11*time.Hour + 59*time.Minute + 58*sec, 30 * day}[x.Pick("registered after", 3)]
		l := []tmOp{{at: at, op: "cron", key: "month", cron: &month}, {op: "cron", key: "noon", cron: &noon}, {op: "cron", key: "week", cron: &week}}
		for _, d := range []time.Duration{time.Minute, time.Hour, 26 * time.Hour, 35 * day} {
			l = append(l, tmOp{op: "once", key: "in " + d.String(), due: d})
		}
		return [][]tmOp{l}
	}
	add(&explore.Property{
		ID: "C22", Title: "database timers",
		Rule:        "one to three instances of one or two services poll for due timers while clients register, repeat and cancel them; every interleaving, stall, failing statement and crash within the deviation bound; schedules and times, valid and invalid",
		Assumptions: []string{"MySQL model (mc/memsql)", "equal clocks", "callbacks do not cancel their own timer and do not panic"},
		Scenarios: []*explore.Scenario{
			{Name: "timer-once", Doc: "two one-shot timers, two instances", Run: scnTimer(tmSpec{svcs: AA, clients: onceMix, horizon: 9 * sec, to: 8 * sec}, pre), Quick: 2, Thorough: 3},
			{Name: "timer-cron", Doc: "two schedules, two instances", Run: scnTimer(tmSpec{svcs: AA, clients: tmOps(crons(300 * ms)...), horizon: 10 * sec, to: 7 * sec}, pre), Quick: 2, Thorough: 3},
			{Name: "timer-offset", Doc: "instances that poll at different times, slow callbacks", Run: scnTimer(tmSpec{svcs: AA, offs: []time.Duration{0, 400 * ms}, slow: slow, slack: 1700 * ms, clients: tmOps(crons(300 * ms)...), horizon: 12 * sec, to: 8 * sec}, pre), Quick: 2, Thorough: 3},
			{Name: "timer-slow", Doc: "slow and failing callbacks, one instance", Run: scnTimer(tmSpec{svcs: []string{"A"}, slow: slow, slack: 1700 * ms, fails: map[string]bool{"k": true, "o": true}, clients: tmOps(append(crons(300*ms), tmOp{op: "once", key: "o", due: 2 * sec})...), horizon: 12 * sec, to: 8 * sec}, pre), Quick: 2, Thorough: 3},
			{Name: "timer-register", Doc: "two instances register one key at the same time", Run: scnTimer(tmSpec{svcs: AA, clients: same(2), horizon: 8 * sec, to: 4 * sec}, preOnly), Quick: 2, Thorough: 4},
			{Name: "timer-register3", Doc: "three instances register one key at the same time", Run: scnTimer(tmSpec{svcs: []string{"A", "A", "A"}, clients: same(3), horizon: 8 * sec, to: sec}, preOnly), Quick: 2, Thorough: 4},
			{Name: "timer-again", Doc: "a key registered again before, while and after it fires", Run: scnTimer(tmSpec{svcs: AA, clients: again, horizon: 9 * sec, to: 5 * sec}, preOnly), Quick: 2, Thorough: 3},
			{Name: "timer-cancel", Doc: "a key cancelled before, while and after it fires, and registered again", Run: scnTimer(tmSpec{svcs: AA, clients: cancel, horizon: 8 * sec, to: 5 * sec}, preOnly), Quick: 2, Thorough: 3},
			{Name: "timer-cancel-stall", Doc: "cancelling with stalled statements", Run: scnTimer(tmSpec{svcs: AA, clients: cancel, slow: map[string]time.Duration{"k": 300 * ms}, horizon: 11 * sec, from: 1900 * ms, to: 5 * sec}, pre), Quick: 1, Thorough: 2},
			{Name: "timer-services", Doc: "two services, three instances", Run: scnTimer(tmSpec{svcs: []string{"A", "B", "A"}, clients: func(x *explore.X) [][]tmOp {
				return [][]tmOp{{{at: 300 * ms, op: "cron", key: "k", cron: &cron2}}, {{at: 300 * ms, op: "cron", key: "l", cron: &cron2}, {op: "once", key: "o", due: 2 * sec}}, {{at: 2 * sec, op: "once", key: "p", due: 2 * sec}}}
			}, horizon: 8 * sec, to: 6 * sec}, preOnly), Quick: 2, Thorough: 3},
			{Name: "timer-faults", Doc: "statements and commits fail, two instances", Run: scnTimer(tmSpec{svcs: AA, clients: func(x *explore.X) [][]tmOp {
				return [][]tmOp{{kind(x, 300*ms), {op: "once", key: "l", due: 2 * sec}}}
			}, horizon: 9 * sec, to: 6 * sec}, faults), Quick: 2, Thorough: 3},
			{Name: "timer-faults-cancel", Doc: "statements and commits fail, one instance, cancelled and repeated timers", Run: scnTimer(tmSpec{svcs: []string{"A"}, clients: cancel, horizon: 9 * sec, to: 6 * sec}, faults), Quick: 2, Thorough: 2},
			{Name: "timer-kinds", Doc: "statements and commits fail in every way, one instance", Run: scnTimer(tmSpec{svcs: []string{"A"}, clients: cancel, horizon: 9 * sec, to: 6 * sec}, world.Config{Faults: true, CommitFaults: true, Kinds: world.Kinds, MaxSteps: 20000}), Quick: 1, Thorough: 2},
			{Name: "timer-crash", Doc: "crashes, two instances", Run: scnTimer(tmSpec{svcs: AA, clients: func(x *explore.X) [][]tmOp {
				return [][]tmOp{{}, {kind(x, 300*ms), {op: "once", key: "l", due: 2 * sec}}}
			}, horizon: 10 * sec, to: 7 * sec}, crash), Quick: 2, Thorough: 3},
			{Name: "timer-crash1", Doc: "two crashes of the only instance, slow callbacks", Run: scnTimer(tmSpec{svcs: []string{"A"}, slow: map[string]time.Duration{"k": 700 * ms}, slack: 700 * ms, clients: func(x *explore.X) [][]tmOp {
				return [][]tmOp{{kind(x, 300*ms), {op: "once", key: "l", due: 2 * sec}}}
			}, horizon: 12 * sec, to: 8 * sec}, world.Config{Preempt: true, Crash: true, MaxCrash: 2, RestartAfter: 700 * ms, MaxSteps: 20000}), Quick: 2, Thorough: 3},
			{Name: "timer-many", Doc: "up to 110 timers due at the same time, one or two instances", Run: func(x *explore.X) {
				scnTimer(tmSpec{svcs: AA[:1+x.Pick("other instances", 2)], clients: crowd, horizon: 9 * sec}, world.Config{MaxSteps: 50000})(x)
			}},
			{Name: "timer-long", Doc: "schedules over 20 minutes, one or two instances", Run: func(x *explore.X) {
				scnTimer(tmSpec{svcs: AA[:1+x.Pick("other instances", 2)], clients: tmOps(append(crons(300*ms), tmOp{op: "cron", key: "m", cron: &cronMin}, tmOp{op: "once", key: "o", due: 15 * time.Minute})...), horizon: 20 * time.Minute}, world.Config{MaxSteps: 100000})(x)
			}},
			{Name: "timer-days", Doc: "schedules over 70 days, polls every ten minutes", Run: func(x *explore.X) {
				scnTimer(tmSpec{svcs: AA[:1+x.Pick("other instances", 2)], every: 10 * time.Minute, clients: days, horizon: 70 * day}, world.Config{MaxSteps: 200000})(x)
			}},
			{Name: "timer-zone", Doc: "schedules over 70 days and over three, the local time is not UTC", Run: zoned(func(x *explore.X) {
				if x.Pick("days", 2) == 1 {
					scnTimer(tmSpec{svcs: AA[:1], every: 10 * time.Minute, clients: days, horizon: 70 * day}, world.Config{MaxSteps: 200000})(x)
				} else {
					scnTimer(tmSpec{svcs: AA, every: time.Minute, clients: tmOps(tmOp{at: 40 * sec, op: "cron", key: "h", cron: &hourly}, tmOp{op: "cron", key: "n", cron: &noon}, tmOp{op: "once", key: "o", due: 47*time.Hour + 59*time.Minute}), horizon: 72 * time.Hour}, world.Config{MaxSteps: 100000})(x)
				}
			})},
			{Name: "timer-errors", Doc: "callbacks fail with well-known errors", Run: func(x *explore.X) {
				e := knownErrs[x.Pick("error", len(knownErrs))]
				if x.Pick("wrapped", 2) == 1 {
					e = fmt.Errorf("callback: %w", e)
				}
				bad := [][]string{{"k"}, {"o"}, {"k", "l", "o", "p"}}[x.Pick("fails", 3)]
				f := map[string]bool{}
				for _, k := range bad {
					f[k] = true
				}
				scnTimer(tmSpec{svcs: AA[:1+x.Pick("other instances", 2)], fails: f, err: e, clients: tmOps(append(crons(300*ms), tmOp{op: "once", key: "o", due: 2500 * ms}, tmOp{op: "once", key: "p", due: 2500 * ms})...), horizon: 10 * sec, to: 7 * sec}, preOnly)(x)
			}, Thorough: 1},
			{Name: "timer-hours", Doc: "schedules over three days, polls every minute", Run: scnTimer(tmSpec{svcs: []string{"A"}, every: time.Minute, clients: tmOps(tmOp{at: 40 * sec, op: "cron", key: "h", cron: &hourly}, tmOp{op: "once", key: "o", due: 47*time.Hour + 59*time.Minute}), horizon: 72 * time.Hour}, world.Config{MaxSteps: 100000})},
			{Name: "timer-down", Doc: "nothing polls for seconds to days while timers become due", Run: func(x *explore.X) {
				scnTimer(tmSpec{svcs: AA[:1+x.Pick("other instances", 2)], downs: []time.Duration{4 * sec, 7 * time.Minute, 61 * time.Minute, 13 * time.Hour, 50 * time.Hour, 9 * day}, clients: overdue, horizon: 20 * sec}, preOnly)(x)
			}, Thorough: 1},
			{Name: "timer-outage", Doc: "the only instance crashes and is away for 45 minutes", Run: scnTimer(tmSpec{svcs: []string{"A"}, slack: 45 * time.Minute, clients: overdue, horizon: 45*time.Minute + 20*sec, to: 9 * sec}, world.Config{Crash: true, RestartAfter: 45 * time.Minute, MaxSteps: 40000}), Quick: 1, Thorough: 1},
			{Name: "timer-inputs", Doc: "schedules and times, valid and invalid", Run: scnTimer(tmSpec{svcs: []string{"A"}, clients: inputs, horizon: 185 * sec}, preOnly)},
		},
	})
}
