package checks

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	ddd "github.com/bytedance/dddfirework"

	"verif/mc/explore"
)

// ---- representative programs, used where every call may fail

type eprog struct {
	name string
	load []string // loaded deep first
	get  []string // loaded with Repository.Get (not in form cmd)
	do   func(ctx context.Context, c *erun) error
}

var progs = []eprog{
	{"nothing", nil, nil, func(ctx context.Context, c *erun) error { return nil }},
	{"read", []string{"r1"}, []string{"r2"}, func(ctx context.Context, c *erun) error { return nil }},
	{"create", nil, nil, func(ctx context.Context, c *erun) error {
		c.add(c.newRoot("n1", "", c.newKid("nk", "", c.newSub("ns", ""))))
		return nil
	}},
	{"change", []string{"r1"}, []string{"r2"}, func(ctx context.Context, c *erun) error {
		r1, r2 := c.root("r1"), c.root("r2")
		c.mark(r1)
		c.mark(r1.Kids[0])
		detach(r1.Kids[1], r1)
		k := r1.Kids[1]
		detach(k, r1)
		attach(k, r2)
		attach(c.newKid("x", "", c.newSub("xs", "")), r1)
		return nil
	}},
	{"saves", []string{"r1"}, []string{"r2"}, func(ctx context.Context, c *erun) error {
		r1, r2 := c.root("r1"), c.root("r2")
		c.mark(r1)
		c.add(c.newRoot("n1", "", c.newKid("nk", "")))
		if err := c.save(ctx); err != nil {
			return err
		}
		if err := c.h.user("main", c.name); err != nil {
			return err
		}
		k := r1.Kids[0]
		detach(k, r1)
		attach(k, c.root("n1"))
		c.remove(r2)
		if err := c.save(ctx); err != nil {
			return err
		}
		if err := c.h.user("main", c.name); err != nil {
			return err
		}
		c.mark(c.obj["nk"])
		return nil
	}},
	{"delete", []string{"r1"}, nil, func(ctx context.Context, c *erun) error {
		c.remove(c.root("r1"))
		if c.repo != nil {
			c.remove(c.unloaded(true))
		}
		return nil
	}},
	{"mixed", []string{"r1", "r2"}, nil, func(ctx context.Context, c *erun) error {
		r1, r2 := c.root("r1"), c.root("r2")
		c.mark(r2)
		r1.Solo = c.newSolo("so")
		delete(r1.Tags, "t1")
		attach(c.newTag("tg"), r1)
		r1.Kids[0].Subs = r1.Kids[0].Subs[1:]
		c.add(c.newRoot("n2", "own2"))
		c.add(c.newRoot("n1", ""))
		return nil
	}},
}

// program sets up a run of a representative program.
func (c *erun) program(p eprog) {
	load := func(ctx context.Context, c *erun) error {
		if c.build != nil {
			for _, id := range append(append([]string{}, p.load...), p.get...) {
				if err := c.buildDeep(ctx, id); err != nil {
					return err
				}
			}
			return nil
		}
		if len(p.load) > 0 {
			if err := c.custom(ctx, p.load...); err != nil {
				return err
			}
		}
		for _, id := range p.get {
			if err := c.get(ctx, id); err != nil {
				return err
			}
		}
		return nil
	}
	cmd := c.form == "cmd" || c.form == "cmd-old"
	if cmd {
		c.load = load
	}
	c.body = func(ctx context.Context, c *erun) error {
		if !cmd {
			if err := c.h.user("main", c.name); err != nil {
				return err
			}
			if err := load(ctx, c); err != nil {
				return err
			}
		}
		if err := c.h.user("main", c.name); err != nil {
			return err
		}
		if err := p.do(ctx, c); err != nil {
			return err
		}
		return c.h.user("main", c.name)
	}
}

// harmless failures do not make a command fail.
func harmless(f *injected) bool {
	if f.kind == "panic" {
		return false
	}
	for _, p := range []string{"txcommit", "txrollback", "unlock", "rollback"} {
		if strings.HasPrefix(f.at, p) {
			return true
		}
	}
	return false
}

// cause is the first failure that has to make the run fail.
func (c *erun) cause() *injected {
	for _, f := range c.h.inj {
		if !harmless(f) {
			return f
		}
	}
	return nil
}

// carries reports whether an error tells about the failure.
func carries(err error, f *injected) bool {
	if err == nil {
		return false
	}
	if errors.Is(err, f) || strings.Contains(err.Error(), f.Error()) {
		return true
	}
	if f.raw && (errors.Is(err, f.as) || strings.Contains(err.Error(), f.as.Error())) {
		return true
	}
	return false
}

// outcome checks what every run has to satisfy with and without failures:
// success iff committed, storage all or nothing, cause reported, panics passed on.
func (c *erun) outcome(before *store) {
	h := c.h
	if h.bad {
		return
	}
	f := c.cause()
	ok := c.pan == nil && c.res != nil && c.res.Error == nil && !c.res.Break
	var mine []*etx
	for _, k := range h.calls[c.start:] {
		if k.what == "begin" && k.run == c && k.tx != nil {
			mine = append(mine, k.tx)
		}
	}
	if h.cfg.noTx {
		if len(mine) > 0 {
			h.fail("tx-unwanted", "a transaction was started although transactions are off")
		}
	} else {
		if len(mine) > 1 {
			h.fail("tx-count", "%d transactions were started by one command", len(mine))
			return
		}
		committed := len(mine) == 1 && mine[0].committed
		post := c.pan != nil && (h.panickedIn("post") || h.panickedIn("unlock"))
		if ok != committed && !post {
			h.fail("success-iff-commit", "the command reported success=%v (error %v, break %v, panic %v), its transaction committed=%v", ok, c.resErr(), c.res != nil && c.res.Break, c.pan, committed)
			return
		}
		for _, t := range mine {
			if t.commits > 1 || t.rollbacks > 1 || t.commits+t.rollbacks == 0 || (t.commits == 1 && t.rollbacks == 1 && t.committed) {
				h.fail("tx-end", "the transaction got %d commits and %d rollbacks", t.commits, t.rollbacks)
				return
			}
		}
		if !committed {
			if d := diffRows(h.st.rows, before.rows); d != "" || len(h.st.evts) != len(before.evts) {
				h.fail("not-rolled-back", "the command did not commit but storage changed: %s", d)
				return
			}
		}
	}
	if f != nil {
		if ok {
			h.fail("failure-hidden", "the command reported success although: %s (%s)", f.Error(), f.kind)
			return
		}
		// a failure may be reported later than it happened (Repository.Remove),
		// then another one can come first
		var sig, msg string
		for _, g := range h.inj {
			if harmless(g) {
				continue
			}
			s, m := c.reported(g)
			if s == "" {
				sig = ""
				break
			}
			if sig == "" {
				sig, msg = s, m
			}
		}
		if sig != "" {
			h.fail(sig, "%s", msg)
		}
	} else if c.pan != nil {
		h.fail("panic", "the command panicked: %v", c.pan)
	}
}

// reported checks that the run's result is the one a failure has to lead to.
func (c *erun) reported(f *injected) (sig, msg string) {
	switch {
	case f.kind == "panic":
		if c.pan != interface{}(f.err()) {
			return "panic-lost", fmt.Sprintf("a panic at %s did not reach the caller (panic %v, error %v)", f.at, c.pan, c.resErr())
		}
	case c.pan != nil:
		return "panic", fmt.Sprintf("the command panicked: %v", c.pan)
	case f.kind == "break":
		if !(c.res.Break && c.res.Error == nil) {
			return "break-result", fmt.Sprintf("a requested break gave error %v, break %v", c.res.Error, c.res.Break)
		}
	case f.kind == "locked":
		if !errors.Is(c.res.Error, ddd.ErrEntityLocked) {
			return "locked-error", fmt.Sprintf("the key is locked elsewhere, but the error is not recognisable as such: %v", c.res.Error)
		}
	case f.as == ddd.ErrBreak && c.res.Break && c.res.Error == nil:
	case !carries(c.res.Error, f):
		return "cause-lost", fmt.Sprintf("the error %v does not report the cause: %v", c.res.Error, f)
	}
	return "", ""
}

func (c *erun) resErr() error {
	if c.res == nil {
		return nil
	}
	return c.res.Error
}

// panickedIn reports whether the last user call before the panic was of a kind.
func (h *eh) panickedIn(what string) bool {
	for _, f := range h.inj {
		if f.kind == "panic" && strings.HasPrefix(f.at, what) {
			return true
		}
	}
	return false
}

func repeats(keys []string) bool {
	seen := map[string]bool{}
	for _, k := range keys {
		if seen[k] {
			return true
		}
		seen[k] = true
	}
	return false
}

// stored checks storage after a successful run.
func (c *erun) stored() {
	h := c.h
	if h.bad {
		return
	}
	c.r.saved(c.final, h.st)
	if d := diffRows(h.st.rows, c.r.rows); d != "" {
		h.fail("storage", "storage after the successful command: %s", d)
	}
}

func (c *erun) ok() bool { return c.pan == nil && c.res.Error == nil && !c.res.Break }

// ---- hooks

// checkHooks compares the hooks that ran with those due (successful runs).
func (c *erun) checkHooks() {
	h := c.h
	if h.bad {
		return
	}
	want := map[string]int{}
	for _, k := range c.r.hooks {
		want[k]++
	}
	got := map[string]int{}
	wrote, after := false, false
	for _, k := range h.calls[c.start:] {
		if k.run != c {
			continue
		}
		switch k.what {
		case "saved":
			wrote, after = false, false
		case "exec":
			if strings.HasPrefix(k.arg, "insert Event") {
				continue
			}
			wrote = true
			if after {
				h.fail("hook-early", "an after-hook ran before the write %s", k.arg)
			}
		case "hook":
			got[k.arg]++
			if strings.HasPrefix(k.arg, "Before") {
				if wrote {
					h.fail("hook-late", "%s ran after a write of the same save", k.arg)
				}
				if after {
					h.fail("hook-late", "%s ran after an after-hook", k.arg)
				}
			} else {
				after = true
			}
		}
	}
	var l []string
	for k, n := range want {
		if got[k] != n {
			l = append(l, fmt.Sprintf("%s ran %d times instead of %d", k, got[k], n))
		}
	}
	for k, n := range got {
		if want[k] == 0 && !(c.r.maybe[k] && n == 1) {
			l = append(l, fmt.Sprintf("%s ran %d times, but no such change was made", k, n))
		}
	}
	if len(l) > 0 {
		sort.Strings(l)
		h.fail("hooks", "%s", strings.Join(l, ", "))
	}
}

// ---- events

// sent lists what was handed to the bus, per path.
func (c *erun) sent() (plain, tx []*ddd.DomainEvent) {
	for _, k := range c.h.calls[c.start:] {
		if k.run != c {
			continue
		}
		switch k.what {
		case "dispatch":
			plain = append(plain, k.evts...)
		case "txbegin":
			tx = append(tx, k.evts...)
		}
	}
	return
}

func evList(l []*ddd.DomainEvent) string {
	var s []string
	for _, e := range l {
		s = append(s, decodeEvt(e))
	}
	return strings.Join(s, " ")
}

// checkSent compares the handed over events with those raised.
func (c *erun) checkSent(from int, owner map[string]ddd.IEntity) {
	h := c.h
	if h.bad {
		return
	}
	var wp, wt, all []*ddd.DomainEvent
	opt := map[string]bool{}
	for _, e := range h.raised[from:] {
		o := owner[e.ID]
		if o != nil && !c.r.part[o] {
			opt[e.ID] = true
		}
		all = append(all, e)
		if h.cfg.bus == "tx" && !h.cfg.noTx && e.SendType == ddd.SendTypeTransaction {
			wt = append(wt, e)
		} else {
			wp = append(wp, e)
		}
	}
	cmp := func(what string, got, want []*ddd.DomainEvent) {
		i := 0
		for _, g := range got {
			for i < len(want) && want[i].ID != g.ID && opt[want[i].ID] {
				i++
			}
			if i >= len(want) || want[i].ID != g.ID {
				h.fail("events", "%s: got [%s], raised [%s]", what, evList(got), evList(want))
				return
			}
			if w := h.asRaised[g.ID]; w != nil && (w.Type != g.Type || string(w.Payload) != string(g.Payload) || w.Sender != g.Sender || w.SendType != g.SendType || !w.CreatedAt.Equal(g.CreatedAt)) {
				h.fail("event-content", "%s: event %s has changed", what, decodeEvt(g))
			}
			i++
		}
		for ; i < len(want); i++ {
			if !opt[want[i].ID] {
				h.fail("events", "%s: got [%s], raised [%s]", what, evList(got), evList(want))
				return
			}
		}
	}
	p, t := c.sent()
	if h.cfg.bus != "" {
		cmp("plain events", p, wp)
		cmp("transactional events", t, wt)
	}
	if h.cfg.persist {
		cmp("event store", h.st.evts, all)
	}
	// when
	disp := false
	for _, k := range h.calls[c.start:] {
		if k.run != c {
			continue
		}
		switch k.what {
		case "dispatch", "txbegin":
			disp = true
			if k.tx != nil && k.tx.ended && false {
				h.fail("event-late", "events were handed over after the transaction")
			}
		case "exec":
			if disp {
				h.fail("event-early", "events were handed over before the storage operation %s", k.arg)
			}
		case "commit", "rollback":
			if disp {
				disp = false
			}
		}
	}
	if !h.cfg.noTx {
		done := false
		for _, k := range h.calls[c.start:] {
			if k.run != c {
				continue
			}
			if k.what == "commit" {
				done = true
			}
			if done && (k.what == "dispatch" || k.what == "txbegin") {
				h.fail("event-late", "events were handed over after the commit")
			}
		}
	}
}

// bubble runs f on a virtual clock.
func bubble(x *explore.X, f func()) {
	var div *explore.Diverged
	synctest.Test(x.T, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				if d, ok := r.(explore.Diverged); ok {
					div = &d
					return
				}
				panic(r)
			}
		}()
		f()
	})
	if div != nil {
		panic(*div)
	}
}

// ---- scenarios

var eforms = []string{"fn", "main", "cmd", "stage", "mainfunc", "cmd-old"}

type faultSpec struct {
	cfg   ecfg
	forms []string
	keys  [][]string
	progs []string
	evs   string // events raised: "", "all", "pick"
	check func(c *erun, before *store)
	cfgs  func(x *explore.X, c *ecfg)
}

func pickProg(x *explore.X, names []string) eprog {
	var l []eprog
	for _, p := range progs {
		if names == nil {
			l = append(l, p)
		}
		for _, n := range names {
			if n == p.name {
				l = append(l, p)
			}
		}
	}
	return l[x.Pick("program", len(l))]
}

func scnFault(sp faultSpec) func(x *explore.X) {
	return func(x *explore.X) {
		cfg := sp.cfg
		if sp.cfgs != nil {
			sp.cfgs(x, &cfg)
		}
		h := newEH(x, cfg)
		h.seed()
		e := h.engine()
		forms := sp.forms
		if forms == nil {
			forms = eforms
		}
		c := &erun{h: h, r: newRef(h), form: forms[x.Pick("form", len(forms))], obj: map[string]ddd.IEntity{}}
		if len(sp.keys) > 0 && c.form != "fn" && c.form != "mainfunc" {
			c.keys = append([]string{}, sp.keys[x.Pick("lock keys", len(sp.keys))]...)
		}
		c.program(pickProg(x, sp.progs))
		owner := map[string]ddd.IEntity{}
		if sp.evs != "" {
			body := c.body
			c.body = func(ctx context.Context, c *erun) error {
				if err := body(ctx, c); err != nil {
					return err
				}
				n := 0
				for _, l := range []string{"r1", "k1", "n1", "nk", "x"} {
					ent := c.obj[l]
					if ent == nil || n >= 3 {
						continue
					}
					if _, ok := ent.(*Memo); ok {
						continue
					}
					k := 1
					if sp.evs == "pick" {
						k = x.Pick("event of "+l, 3)
					} else {
						k = 1 + n%2
					}
					n++
					if k > 0 {
						st := ddd.SendTypeNormal
						if k == 2 {
							st = ddd.SendTypeTransaction
						}
						ev := h.raise(ent, fmt.Sprintf("e%d-%s", n, l), ddd.WithSendType(st))
						owner[ev.ID] = ent
					}
				}
				return nil
			}
		}
		before := h.st.clone()
		ctx := context.Background()
		if cfg.cancel {
			e := &endable{Context: ctx, done: make(chan struct{}), why: context.Canceled}
			if x.Pick("deadline", 2) == 1 {
				e.why = context.DeadlineExceeded
			}
			h.cfg.picky = x.Pick("picky", 2) == 1
			ctx, h.ctx, h.cancel = e, e, e.end
		}
		c.exec(ctx, e)
		c.outcome(before)
		if !h.bad && len(h.inj) == 0 && ctx.Err() == nil && !c.ok() && !repeats(c.keys) {
			h.fail("refused", "nothing failed, but the command reported error %v, break %v", c.resErr(), c.res != nil && c.res.Break)
		}
		if !h.bad && c.ok() && !cfg.dry {
			c.stored()
			c.checkSent(0, owner)
		}
		if sp.check != nil && !h.bad {
			sp.check(c, before)
		}
		h.x.StepStr(h.st.String())
		if c.res != nil {
			x.Outcome("err %v break %v", c.res.Error != nil, c.res.Break)
		} else {
			x.Outcome("panic")
		}
	}
}

type evSpec struct {
	cfg     ecfg
	prelude []string
	depth   int
	extra   int
	opts    menuOpts
	form    string
	check   func(c *erun)
	chatty  bool // every loaded entity raises an event at once, every new one at the end
}

// scnFree runs free programs and checks storage, hooks and events.
func scnFree(sp evSpec) func(x *explore.X) {
	return func(x *explore.X) {
		bubble(x, func() {
			cfg := sp.cfg
			if cfg.bus == "pick" {
				cfg.bus = []string{"plain", "tx"}[x.Pick("bus", 2)]
			}
			tick := time.Duration(0)
			if sp.opts.events && x.Pick("clock", 2) == 1 {
				tick = time.Millisecond
			}
			h := newEH(x, cfg)
			h.seed()
			e := h.engine()
			c := &erun{h: h, r: newRef(h), form: sp.form, obj: map[string]ddd.IEntity{}}
			h.tick = tick
			c.body = func(ctx context.Context, c *erun) error {
				if err := c.prelude(ctx, sp.prelude); err != nil {
					return err
				}
				loud := map[string]bool{}
				raise := func() {
					for _, n := range []string{"s1", "r2", "k1", "r1", "k2", "k4", "s2", "n1", "nk", "ns", "x@r1", "xs@r1", "x@r2", "y@k1"} {
						if e := c.obj[n]; e != nil && !loud[n] {
							loud[n] = true
							h.raise(e, fmt.Sprintf("e%d-%s", len(h.raised)+1, n))
						}
					}
				}
				if sp.chatty {
					raise()
				}
				err := c.free(ctx, depthOf(x, sp.depth, sp.extra), sp.opts)
				if sp.chatty {
					raise()
				}
				return err
			}
			before := h.st.clone()
			c.exec(context.Background(), e)
			c.outcome(before)
			if !h.bad && len(h.inj) == 0 && (c.err != nil || c.res.Error != nil) && c.wantsError() == "" {
				h.fail("unexpected-error", "the command failed: %v", c.res.Error)
			}
			if !h.bad && c.ok() {
				if cfg.dry {
					c.r.dryRun(c.final)
				} else {
					c.stored()
					c.checkSent(0, h.owner)
				}
				c.checkHooks()
			}
			if sp.check != nil && !h.bad {
				sp.check(c)
			}
			x.StepStr(h.st.String())
			x.Outcome("%d/%d", len(h.raised), len(c.r.hooks))
		})
	}
}

// quiet checks that a dry run left no trace.
func (c *erun) quiet(before *store) {
	h := c.h
	for _, k := range h.calls[c.start:] {
		switch k.what {
		case "exec", "dispatch", "txbegin", "txcommit", "txrollback":
			h.fail("dry-trace", "a dry run called %s %s", k.what, k.arg)
		}
	}
	if d := diffRows(h.st.rows, before.rows); d != "" || len(h.st.evts) != len(before.evts) {
		h.fail("dry-trace", "a dry run changed storage: %s", d)
	}
}

// deletes checks that every entity was deleted at most once and only if stored.
func (c *erun) deletes(before *store) {
	h := c.h
	stored := map[string]bool{}
	for k := range before.rows {
		stored[k] = true
	}
	for _, k := range h.calls[c.start:] {
		if k.what != "exec" || k.err != nil {
			continue
		}
		f := strings.Fields(k.arg)
		for _, id := range f[2:] {
			key := f[1] + "/" + id
			switch f[0] {
			case "insert":
				stored[key] = true
			case "delete":
				if !stored[key] {
					h.fail("deleted-twice", "%s was deleted although it was not stored (any more)", key)
				}
				delete(stored, key)
			}
		}
		if f[0] == "delete" && len(f) == 2 {
			h.fail("deleted-nothing", "a delete of an entity without ID")
		}
	}
}
