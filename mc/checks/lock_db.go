package checks

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	lockdb "github.com/bytedance/dddfirework/lock/db"

	"verif/mc/explore"
	"verif/mc/world"
)

const tblLock = "resource_lock"

// lkOp is a step of a client.
type lkOp struct {
	op  string // lock, unlock, sleep, run, restale
	key string
	d   time.Duration
	end string // run: "", "panic", "cancel" (parent context cancelled after d), "deadline" (it expires after d)
	arg int    // unlock: index of the lock result (from the end, 0 = last)
}

type lkHold struct {
	c         *lkClient
	key, id   string
	kl        interface{}
	from      time.Time // lease runs from here at least
	until     time.Time // lease lasts until here at least
	unlocking bool
	gone      bool // its row was removed or taken over
	goneAt    time.Time
	running   bool
	jobCtx    context.Context
	ended     bool
}

type lkClient struct {
	s     *lkSys
	p     *world.Proc
	lock  *lockdb.DBLock
	holds []*lkHold
	prog  []lkOp
	res   []string
}

type lkRow struct {
	id string
	at time.Time
}

type lkSys struct {
	w       *world.World
	x       *explore.X
	ttl     time.Duration
	renew   time.Duration
	slack   time.Duration // longest stalls the scheduler can cause
	mu      sync.Mutex
	clients []*lkClient
	rows    map[string]lkRow
	ver     map[string]int
	byID    map[string]*lkHold
	bad     bool
	retry   bool
	unlocks map[string]int // unlock calls in progress per lock id
	names   map[string]string
}

func (s *lkSys) fail(sig, f string, a ...interface{}) {
	if !s.bad {
		s.w.Fail(sig, f, a...)
	}
	s.bad = true
}

func (s *lkSys) name(id string) string {
	if h := s.byID[id]; h != nil {
		return h.c.p.Name
	}
	return "another client"
}

// track compares the lock table with what it was a step ago.
func (s *lkSys) track() {
	s.mu.Lock()
	defer s.mu.Unlock()
	now := time.Now()
	rows := map[string]lkRow{}
	for _, r := range s.w.DB.Rows(tblLock) {
		at, _ := r["updated_at"].(time.Time)
		k := fmt.Sprint(r["resource"])
		if _, dup := rows[k]; dup {
			s.fail("two-rows", "key %s has two lock rows", k)
		}
		rows[k] = lkRow{fmt.Sprint(r["locker_id"]), at}
	}
	keys := map[string]bool{}
	for k := range rows {
		keys[k] = true
	}
	for k := range s.rows {
		keys[k] = true
	}
	var kl []string
	for k := range keys {
		kl = append(kl, k)
	}
	sort.Strings(kl)
	for _, k := range kl {
		o, oin := s.rows[k]
		n, nin := rows[k]
		if oin == nin && o == n {
			continue
		}
		s.ver[k]++
		oh := s.byID[o.id]
		switch {
		case oin && !nin:
			if s.unlocks[o.id] == 0 {
				s.fail("foreign-release", "the lock of %s on %s was removed although it was not unlocking", s.name(o.id), k)
			}
		case oin && nin && o.id != n.id:
			if end := o.at.Add(s.ttl); now.Before(end.Add(-2 * time.Millisecond)) {
				s.fail("early-takeover", "the lock of %s on %s was taken over %s before its lease ended", s.name(o.id), k, end.Sub(now))
			}
		case oin && nin:
			if oh != nil {
				oh.until = n.at.Add(s.ttl)
				if oh.ended && !oh.running {
					// a renewal in flight when the job ended; harmless before the release
				}
			}
			if d := now.Sub(n.at); d > s.slack+2*time.Millisecond || d < -2*time.Millisecond {
				s.fail("renew-time", "the lease of %s on %s was renewed with the time %s ago", s.name(o.id), k, d)
			}
		}
		if oin && (!nin || n.id != o.id) && oh != nil {
			oh.gone, oh.goneAt = true, now
		}
	}
	s.rows = rows
	// running jobs
	for _, c := range s.clients {
		for _, h := range c.holds {
			if !h.running || h.jobCtx.Err() != nil || c.p.Dead {
				continue
			}
			limit := s.renew + s.slack + 60*time.Millisecond
			if h.gone {
				if d := now.Sub(h.goneAt); d > limit {
					s.fail("job-not-stopped", "the job of %s still runs uncancelled %s after its lock was lost", c.p.Name, d)
				}
			} else if r, ok := rows[h.key]; ok && r.id == h.id {
				if d := now.Sub(r.at); d > limit {
					s.fail("not-renewed", "the job of %s runs uncancelled but its lease was last renewed %s ago", c.p.Name, d)
				}
			}
		}
	}
}

func (c *lkClient) onLocked(key string, start time.Time, kl interface{}) *lkHold {
	s := c.s
	now := time.Now()
	rl, ok := kl.(*lockdb.ResourceLock)
	if !ok || rl == nil {
		s.fail("result", "Lock(%s) succeeded with result %T", key, kl)
		return &lkHold{c: c, key: key, kl: kl}
	}
	h := &lkHold{c: c, key: key, id: rl.LockerID, kl: kl, from: start, until: start.Add(s.ttl)}
	for _, o := range s.clients {
		for _, e := range o.holds {
			if e.key != key || e.unlocking || e.ended || e.id == h.id {
				continue
			}
			if now.Before(e.until.Add(-2 * time.Millisecond)) {
				s.fail("two-holders", "%s acquired %s while %s holds it for another %s", c.p.Name, key, o.p.Name, e.until.Sub(now))
			}
		}
	}
	s.byID[h.id] = h
	c.holds = append(c.holds, h)
	if r, ok := s.rows[key]; ok && r.id == h.id {
		if r.at.Before(start.Add(-2*time.Millisecond)) || r.at.After(now.Add(2*time.Millisecond)) {
			s.fail("lease-time", "%s acquired %s with a lease from %s, the call lasted from %s to %s", c.p.Name, key, r.at.Sub(s.w.Start()), start.Sub(s.w.Start()), now.Sub(s.w.Start()))
		}
		h.until = r.at.Add(s.ttl)
	} else if !ok || r.id != h.id {
		// stalled between taking effect and returning for so long that it was lost again
		if !ok && now.Sub(start) < s.ttl {
			s.fail("no-row", "%s acquired %s but the lock is not stored", c.p.Name, key)
		}
		h.gone, h.goneAt = true, now
	}
	return h
}

func (c *lkClient) doLock(key string, run func() (interface{}, error)) *lkHold {
	s := c.s
	start := time.Now()
	s.mu.Lock()
	v0, faults := s.ver[key], s.w.Faults()
	row, had := s.rows[key]
	s.mu.Unlock()
	kl, err := run()
	now := time.Now()
	s.track()
	s.mu.Lock()
	defer s.mu.Unlock()
	calm := s.w.Faults() == faults
	if err == nil {
		c.res = append(c.res, "L")
		if had && s.ver[key] == v0 {
			s.fail("no-effect", "%s acquired %s although its row is unchanged", c.p.Name, key)
		}
		return c.onLocked(key, start, kl)
	}
	if errors.Is(err, ddd.ErrEntityLocked) {
		c.res = append(c.res, "l")
		if d := now.Sub(start); s.retry && calm && d < 300*time.Millisecond {
			s.fail("gave-up", "%s: Lock(%s) with retries gave up after %s", c.p.Name, key, d)
		} else if !s.retry && s.slack == 0 && d > 50*time.Millisecond {
			s.fail("blocked", "%s: Lock(%s) without retries was refused only after %s", c.p.Name, key, d)
		}
	} else {
		c.res = append(c.res, "E")
		if calm {
			s.fail("error", "%s: Lock(%s) failed without any failure: %v", c.p.Name, key, err)
		}
	}
	if s.ver[key] == v0 && calm {
		if !had {
			s.fail("free-refused", "%s could not acquire the free key %s: %v", c.p.Name, key, err)
		} else if !start.Before(row.at.Add(s.ttl).Add(2 * time.Millisecond)) {
			s.fail("expired-refused", "%s could not acquire %s although its lease ended %s before: %v", c.p.Name, key, now.Sub(row.at.Add(s.ttl)), err)
		}
	}
	return nil
}

func (c *lkClient) unlock(h *lkHold) {
	s := c.s
	if h == nil {
		return
	}
	s.mu.Lock()
	h.unlocking = true
	s.unlocks[h.id]++
	wasGone, faults := h.gone, s.w.Faults()
	s.mu.Unlock()
	err := c.lock.UnLock(context.Background(), h.kl)
	s.track()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.unlocks[h.id]--
	calm := s.w.Faults() == faults
	if err == nil {
		c.res = append(c.res, "U")
		if wasGone {
			s.fail("stale-unlock", "%s: unlocking %s succeeded although its lock had been lost before", c.p.Name, h.key)
		} else if !h.gone {
			s.fail("unlock-no-effect", "%s: unlocking %s succeeded but the lock is still stored", c.p.Name, h.key)
		}
	} else {
		c.res = append(c.res, "u")
		if r, ok := s.rows[h.key]; calm && ok && r.id == h.id {
			s.fail("unlock-failed", "%s: unlocking its own %s failed: %v", c.p.Name, h.key, err)
		}
	}
}

func (c *lkClient) job(o lkOp) {
	s := c.s
	ctx, cancel := context.Background(), func() {}
	if o.end == "cancel" {
		ctx, cancel = context.WithCancel(ctx)
	}
	wait, over := o.d, func() bool { return false }
	if o.end == "deadline" {
		ctx, cancel = context.WithTimeout(ctx, o.d)
		wait, over = o.d+time.Hour, func() bool { return ctx.Err() != nil }
	}
	defer cancel()
	ran := false
	var h *lkHold
	start := time.Now()
	s.mu.Lock()
	v0, faults := s.ver[o.key], s.w.Faults()
	row, had := s.rows[o.key]
	s.mu.Unlock()
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if o.end != "panic" || !strings.Contains(fmt.Sprint(r), "job panic") {
					panic(r)
				}
			}
		}()
		err = c.lock.Run(ctx, o.key, func(jctx context.Context) {
			ran = true
			s.track()
			s.mu.Lock()
			// the key lock is not visible to the job: it is the stored one
			if r, ok := s.rows[o.key]; ok {
				h = c.onLocked(o.key, start, &lockdb.ResourceLock{Resource: o.key, LockerID: r.id})
				h.running, h.jobCtx = true, jctx
			}
			s.mu.Unlock()
			defer func() {
				s.track()
				s.mu.Lock()
				if h != nil {
					h.running, h.unlocking, h.ended = false, true, true
					s.unlocks[h.id]++
				}
				s.mu.Unlock()
			}()
			t := time.NewTimer(wait)
			defer t.Stop()
			select {
			case <-t.C:
				c.res = append(c.res, "J")
			case <-jctx.Done():
				c.res = append(c.res, "C")
				s.track()
				s.mu.Lock()
				if h != nil && !h.gone && s.w.Faults() == faults && s.w.Held() == 0 && !c.p.Dead && !over() {
					s.fail("job-stopped", "the job of %s was cancelled %s after its start although its lock is held and renewed", c.p.Name, time.Since(start))
				}
				s.mu.Unlock()
			}
			switch o.end {
			case "panic":
				panic("job panic")
			case "cancel":
				cancel()
				select {
				case <-jctx.Done():
				case <-time.After(time.Second):
					s.mu.Lock()
					s.fail("parent-cancel", "the job's context ignores the caller's cancellation")
					s.mu.Unlock()
				}
			}
		})
	}()
	s.track()
	s.mu.Lock()
	defer s.mu.Unlock()
	calm := s.w.Faults() == faults
	if !ran {
		c.res = append(c.res, "r")
		if err == nil {
			s.fail("run-skipped", "Run(%s) returned no error but did not run the job", o.key)
		}
		if calm && s.ver[o.key] == v0 && !over() {
			if !had || !start.Before(row.at.Add(s.ttl).Add(2*time.Millisecond)) {
				s.fail("free-refused", "Run(%s) could not acquire a free lock: %v", o.key, err)
			}
		}
		return
	}
	if err != nil {
		c.res = append(c.res, "e")
	}
	if h == nil {
		return
	}
	s.unlocks[h.id]--
	if r, ok := s.rows[o.key]; ok && r.id == h.id && calm {
		s.fail("not-released", "%s: Run(%s) ended (%s) without releasing the lock", c.p.Name, o.key, o.end)
	}
}

func (c *lkClient) do() {
	var locks []*lkHold
	for _, o := range c.prog {
		o := o
		switch o.op {
		case "sleep":
			time.Sleep(o.d)
		case "lock":
			locks = append(locks, c.doLock(o.key, func() (interface{}, error) { return c.lock.Lock(context.Background(), o.key) }))
		case "unlock":
			if n := len(locks) - 1 - o.arg; n >= 0 {
				c.unlock(locks[n])
			}
		case "run":
			c.job(o)
		}
	}
}

type lkSpec struct {
	progs   [][][]lkOp                         // alternatives per client
	ttls    []time.Duration                    // leases to enumerate instead of 2 s
	of      func(ttl time.Duration) [][][]lkOp // programs for a lease
	plain   bool                               // no options: retries, renewal every second
	retry   bool
	leak    bool // nothing may remain in the background
	horizon time.Duration
	to      time.Duration
}

func scnLockDB(sp lkSpec, cfg world.Config) func(x *explore.X) {
	return func(x *explore.X) {
		world.Run(x, cfg, func(w *world.World) {
			w.AddModels(&lockdb.ResourceLock{})
			s := &lkSys{w: w, x: x, ttl: 2 * time.Second, renew: 500 * time.Millisecond, rows: map[string]lkRow{}, ver: map[string]int{}, byID: map[string]*lkHold{}, unlocks: map[string]int{}, retry: sp.retry}
			sp := sp
			if sp.plain {
				s.retry, s.renew = true, time.Second
			}
			if sp.ttls != nil {
				s.ttl = sp.ttls[x.Pick("lease", len(sp.ttls))]
				s.renew = s.ttl / 4
				sp.progs = sp.of(s.ttl)
			}
			for _, h := range cfg.Holds {
				s.slack += h
			}
			s.slack *= time.Duration(max(1, x.Budget()))
			for i, alts := range sp.progs {
				c := &lkClient{s: s, p: w.NewProc(fmt.Sprintf("C%d", i+1)), prog: alts[x.Pick("program", len(alts))]}
				c.p.OnRestart = func(*world.Proc) {}
				c.lock = lockdb.NewDBLock(c.p.DB, s.ttl, func(o *lockdb.Options) {
					o.Logger = discard
					if sp.plain {
						return
					}
					o.Retry = sp.retry
					o.RenewInterval = s.renew
				})
				s.clients = append(s.clients, c)
			}
			w.Check = s.track
			to := sp.to
			if to == 0 {
				to = 8 * time.Second
			}
			w.Window(0, to)
			for _, c := range s.clients {
				c := c
				c.p.Go("client", c.do)
			}
			h := sp.horizon
			if h == 0 {
				h = 20 * time.Second
			}
			w.Loop(h, func() bool { return w.Tasks() == 0 })
			if w.Tasks() > 0 && w.Crashes() == 0 {
				x.Failf("stuck", "a client never finished")
			}
			if sp.leak && !s.bad && w.Crashes() == 0 && w.Tasks() == 0 {
				// let renewals end, then nothing of the package may be left
				w.Loop(w.Since()+3*s.renew+s.slack, nil)
				if st := leftGoroutines("/lock/db."); st != "" {
					x.Failf("goroutine-left", "a goroutine of the lock remains after all calls returned: %s", st)
				}
			}
			for _, p := range w.Panics() {
				x.Failf("panic", "%s", p)
			}
			var out []string
			for _, c := range s.clients {
				out = append(out, strings.Join(c.res, ""))
			}
			x.Outcome("%s", strings.Join(out, " "))
		})
	}
}

// scnLockInterval: a lock whose jobs would lose their lease between two renewals
// must not be made.
func scnLockInterval(x *explore.X) {
	world.Run(x, world.Config{}, func(w *world.World) {
		w.AddModels(&lockdb.ResourceLock{})
		w.Setup(func() {
			ms := []time.Duration{1, 400, 999, 1000, 1001, 2500, 60000}
			ttl := ms[x.Pick("lease", len(ms))] * time.Millisecond
			renew := ms[x.Pick("interval", len(ms)+1)%len(ms)] * time.Millisecond
			set := x.Pick("option", 2) == 0
			if !set {
				renew = time.Second
			}
			refused := func() (r bool) {
				defer func() { r = recover() != nil }()
				lockdb.NewDBLock(w.NewProc("C").DB, ttl, func(o *lockdb.Options) {
					o.Logger = discard
					if set {
						o.RenewInterval = renew
					}
				})
				return
			}()
			x.StepStr(fmt.Sprint(ttl, renew, refused))
			if ttl < renew && !refused {
				x.Failf("accepted", "a lease of %s with renewals every %s is accepted", ttl, renew)
			}
			if ttl > renew && refused {
				x.Failf("refused", "a lease of %s with renewals every %s is refused", ttl, renew)
			}
			x.Outcome("%s %s %v", ttl, renew, refused)
		})
	})
}

// leftGoroutines returns a goroutine (of this execution) inside a package.
func leftGoroutines(pkg string) string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		i := strings.Index(g, pkg)
		if i < 0 || strings.Contains(g, "leftGoroutines") {
			continue
		}
		j := strings.IndexByte(g[i:], '\n')
		if j < 0 {
			j = len(g) - i
		}
		return g[i : i+j]
	}
	return ""
}

func init() {
	ms := time.Millisecond
	s := func(d time.Duration) lkOp { return lkOp{op: "sleep", d: d} }
	l := func(k string) lkOp { return lkOp{op: "lock", key: k} }
	u := lkOp{op: "unlock"}
	job := func(k string, d time.Duration, end string) lkOp { return lkOp{op: "run", key: k, d: d, end: end} }
	pre := world.Config{Preempt: true, Holds: []time.Duration{700 * ms, 2300 * ms}}
	faults := world.Config{Preempt: true, Faults: true, CommitFaults: true, Crash: true, MaxCrash: 1, Holds: []time.Duration{2300 * ms}}
	preOnly := world.Config{Preempt: true}
	kinds := world.Config{Faults: true, CommitFaults: true, Kinds: world.Kinds}
	// keys that are alike for a careless comparison
	alike := []string{"k", "k%", "k_", "k1", "%", "_", "k\\", "k'", "", "ключ"}
	pair := func() (p, q [][]lkOp) {
		for _, k := range alike {
			p = append(p, []lkOp{l(k), s(600 * ms), u, l(k), u})
			q = append(q, []lkOp{s(100 * ms), l(k), s(200 * ms), u}, []lkOp{s(100 * ms), job(k, 700*ms, "")})
		}
		return
	}
	p1, p2 := pair()
	rounds := func(n int, d time.Duration, keys ...string) (r []lkOp) {
		for i := 0; i < n; i++ {
			r = append(r, l(keys[i%len(keys)]), s(d), u)
		}
		return
	}
	var jobs []lkOp
	for i := 0; i < 70; i++ {
		jobs = append(jobs, job("k", time.Duration(i%4)*300*ms, []string{"", "cancel", "panic", "deadline"}[i%4]))
	}
	// two contenders arriving at and around each other's expiry
	arrive := func(k string) (r [][]lkOp) {
		for _, d := range []time.Duration{0, 500 * ms, 1999 * ms, 2001 * ms, 2600 * ms} {
			r = append(r, []lkOp{s(d), l(k), s(300 * ms), u})
		}
		return
	}
	hold := func(k string) (r [][]lkOp) {
		for _, d := range []time.Duration{0, 600 * ms, 2500 * ms} {
			r = append(r, []lkOp{l(k), s(d), u, l(k), u})
		}
		return
	}
	ttls := []time.Duration{500 * ms, 999 * ms, time.Second, 1500 * ms, 2750 * ms, 61 * time.Second, time.Hour + 1500*ms}
	around := func(ttl time.Duration) [][][]lkOp {
		var q [][]lkOp
		for _, d := range []time.Duration{ttl / 2, ttl * 3 / 4, ttl - 3*ms, ttl + 3*ms, ttl + 700*ms} {
			q = append(q, []lkOp{s(d), l("k"), s(300 * ms), u})
		}
		return [][][]lkOp{{{l("k"), s(2*ttl + time.Second), u}, {job("k", ttl+1300*ms, "")}, {l("k"), s(ttl - 100*ms), u}}, q}
	}
	long := func(ttl time.Duration) [][][]lkOp {
		var jobs, q [][]lkOp
		for _, n := range []time.Duration{3, 9, 17, 40} {
			for _, end := range []string{"", "panic", "cancel", "deadline"} {
				jobs = append(jobs, []lkOp{job("k", n*ttl+ttl/7, end)})
			}
			q = append(q, []lkOp{s(n*ttl - ttl/3), l("k"), s(ttl / 5), u, s(ttl / 2), l("k"), u})
		}
		return [][][]lkOp{jobs, q}
	}
	add(&explore.Property{
		ID: "C14", Title: "database lock exclusion",
		Rule:        "two or three clients with every combination of the stated arrival and holding times; every statement interleaving, stall (0.7 s and 2.3 s with a lease of 2 s), statement failure, commit failure, lost acknowledgement and crash up to the deviation bound; the lock table is compared after every step",
		Assumptions: []string{"MySQL model (mc/memsql)", "clients have the same time", "gorm's TranslateError is on (as the code's duplicate-key handling requires)"},
		Scenarios: []*explore.Scenario{
			{Name: "lock-db-2", Doc: "two clients, one key", Run: scnLockDB(lkSpec{progs: [][][]lkOp{hold("k"), arrive("k")}}, pre), Quick: 3, Thorough: 4},
			{Name: "lock-db-2-faults", Doc: "two clients with failures and crashes", Run: scnLockDB(lkSpec{progs: [][][]lkOp{hold("k"), arrive("k")}}, faults), Quick: 3, Thorough: 4},
			{Name: "lock-db-3", Doc: "three clients at the same moment after an expiry", Run: scnLockDB(lkSpec{progs: [][][]lkOp{{{l("k"), s(5 * time.Second), u}}, {{s(2100 * ms), l("k"), s(300 * ms), u}}, {{s(2100 * ms), l("k"), u}}}}, preOnly), Quick: 5, Thorough: 7},
			{Name: "lock-db-3-fresh", Doc: "three clients at the same moment on a free key", Run: scnLockDB(lkSpec{progs: [][][]lkOp{{{l("k"), s(100 * ms), u}}, {{l("k"), s(100 * ms), u, l("k"), u}}, {{l("k"), u}}}}, preOnly), Quick: 4, Thorough: 6},
			{Name: "lock-db-2keys", Doc: "different keys do not affect each other", Run: scnLockDB(lkSpec{progs: [][][]lkOp{{{l("k"), l("j"), s(100 * ms), u, lkOp{op: "unlock", arg: 1}}}, {{l("j"), l("k"), u, lkOp{op: "unlock", arg: 1}}, {l("m"), s(200 * ms), u}}}}, pre), Quick: 3, Thorough: 4},
			{Name: "lock-db-lease", Doc: "leases of 0.5 s to an hour, contenders before and after the expiry", Run: scnLockDB(lkSpec{ttls: ttls, of: around, horizon: 3 * time.Hour, to: 3 * time.Hour}, preOnly), Quick: 3, Thorough: 5},
			{Name: "lock-db-rounds", Doc: "up to 250 acquisitions by each of two clients", Run: scnLockDB(lkSpec{horizon: 10 * time.Minute, to: 10 * time.Minute, progs: [][][]lkOp{{rounds(250, 3*ms, "k"), rounds(250, 20*ms, "k", "l", "m")}, {rounds(250, 3*ms, "l"), rounds(250, 7*ms, "l", "k"), rounds(60, 1900*ms, "k")}}}, world.Config{MaxSteps: 100000})},
			{Name: "lock-db-keys", Doc: "every pair of keys that are alike", Run: scnLockDB(lkSpec{leak: true, progs: [][][]lkOp{p1, p2}}, preOnly), Thorough: 1},
			{Name: "lock-db-kinds", Doc: "failures of every kind", Run: scnLockDB(lkSpec{progs: [][][]lkOp{hold("k"), arrive("k")}}, kinds), Quick: 1, Thorough: 2},
			{Name: "lock-db-retry", Doc: "with the retry option", Run: scnLockDB(lkSpec{retry: true, progs: [][][]lkOp{hold("k"), arrive("k")}}, world.Config{Preempt: true, Holds: []time.Duration{2300 * ms}}), Quick: 3, Thorough: 4},
			{Name: "lock-db-plain", Doc: "default options: retries, renewal every second", Run: scnLockDB(lkSpec{plain: true, progs: [][][]lkOp{append(hold("k"), []lkOp{job("k", 4500*ms, "")}), arrive("k")}}, preOnly), Quick: 2, Thorough: 4},
			{Name: "lock-db-renewed", Doc: "contenders against a renewing job whose renewals are delayed", Run: scnLockDB(lkSpec{progs: [][][]lkOp{{{job("k", 5*time.Second, "")}}, {{s(2450 * ms), l("k"), s(400 * ms), u}, {s(2650 * ms), l("k"), u}, {s(2800 * ms), l("k"), u, l("k"), u}}}}, world.Config{Preempt: true, Holds: []time.Duration{2300 * ms}}), Quick: 3, Thorough: 4},
		},
	})
	add(&explore.Property{
		ID: "C15", Title: "database lock ownership and jobs",
		Rule:        "clients whose leases expire before, during and after unlocking and jobs of several lengths and endings; every interleaving, stall, statement failure, lost acknowledgement and crash up to the deviation bound; the lock table is compared after every step",
		Assumptions: []string{"MySQL model (mc/memsql)", "clients have the same time", "gorm's TranslateError is on"},
		Scenarios: []*explore.Scenario{
			{Name: "lock-owner-stale", Doc: "unlock before, at and after the expiry while another client acquires", Run: scnLockDB(lkSpec{leak: true, progs: [][][]lkOp{{{l("k"), s(1900 * ms), u}, {l("k"), s(2100 * ms), u}, {l("k"), s(2300 * ms), u, u}, {l("k"), u, u}}, {{s(2050 * ms), l("k"), s(500 * ms), u}, {s(1500 * ms), l("k"), s(600 * ms), l("k"), s(100 * ms), u}}}}, pre), Quick: 3, Thorough: 4},
			{Name: "lock-owner-stale-faults", Doc: "as before with failures and crashes", Run: scnLockDB(lkSpec{leak: true, progs: [][][]lkOp{{{l("k"), s(2100 * ms), u}, {l("k"), u, u, l("k"), u}}, {{s(2050 * ms), l("k"), s(500 * ms), u}}}}, faults), Quick: 3, Thorough: 4},
			{Name: "lock-job", Doc: "jobs shorter and longer than the lease, all endings, a contender", Run: scnLockDB(lkSpec{leak: true, progs: [][][]lkOp{{{job("k", 300*ms, "")}, {job("k", 3200*ms, "")}, {job("k", 1200*ms, "panic")}, {job("k", 1200*ms, "cancel")}, {job("k", 300*ms, ""), job("k", 700*ms, "")}}, {{s(1300 * ms), l("k"), s(300 * ms), u}, {s(100 * ms), job("k", 800*ms, "")}, {s(3300 * ms), job("k", 800*ms, "")}}}}, pre), Quick: 3, Thorough: 4},
			{Name: "lock-job-long", Doc: "jobs of 3 to 40 leases, leases of 2 s to an hour, all endings, contenders", Run: scnLockDB(lkSpec{leak: true, ttls: []time.Duration{2 * time.Second, 61 * time.Second, time.Hour}, of: long, horizon: 50 * time.Hour, to: 50 * time.Hour}, world.Config{Preempt: true, MaxSteps: 50000}), Quick: 1, Thorough: 2},
			{Name: "lock-job-rounds", Doc: "70 jobs one after the other, a contender", Run: scnLockDB(lkSpec{leak: true, horizon: 10 * time.Minute, to: 10 * time.Minute, progs: [][][]lkOp{{jobs}, {rounds(60, 1*ms, "j"), rounds(60, 100*ms, "k"), jobs}}}, world.Config{MaxSteps: 100000})},
			{Name: "lock-job-stall", Doc: "renewals stall beyond the lease", Run: scnLockDB(lkSpec{leak: true, progs: [][][]lkOp{{{job("k", 5200*ms, "")}}, {{s(2450 * ms), l("k"), s(300 * ms), u}, {s(2700 * ms), job("k", 1700*ms, "")}}}}, pre), Quick: 3, Thorough: 4},
			{Name: "lock-job-interval", Doc: "a lease must not be shorter than the renewal interval", Run: scnLockInterval},
			{Name: "lock-job-kinds", Doc: "renewals, acquisitions and releases fail in every way", Run: scnLockDB(lkSpec{leak: true, progs: [][][]lkOp{{{job("k", 3200*ms, "")}, {job("k", 700*ms, "panic")}, {l("k"), s(2100 * ms), u}}, {{s(1800 * ms), l("k"), s(300 * ms), u}}}}, kinds), Quick: 1, Thorough: 2},
			{Name: "lock-job-faults", Doc: "renewals fail", Run: scnLockDB(lkSpec{leak: true, progs: [][][]lkOp{{{job("k", 3200*ms, "")}, {job("k", 1200*ms, "panic")}}, {{s(1800 * ms), l("k"), s(300 * ms), u}}}}, faults), Quick: 3, Thorough: 4},
		},
	})
}
