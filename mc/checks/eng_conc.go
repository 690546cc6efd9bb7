package checks

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	exmysql "github.com/bytedance/dddfirework/executor/mysql"
	lockdb "github.com/bytedance/dddfirework/lock/db"
	lockredis "github.com/bytedance/dddfirework/lock/redis"

	"verif/mc/explore"
	"verif/mc/memsql"
	"verif/mc/world"
)

// This file runs several commands on one engine: one after the other, inside
// one another and concurrently.  Every backend call and callback is a
// scheduling point, and every backend exists in two instances so that a call
// to the wrong one is seen.

type cevt struct{ N string }

func (e *cevt) GetType() ddd.EventType { return "conc" }
func (e *cevt) GetSender() string      { return "conc" }

// cent is the only entity type: Up is its parent's ID in storage.
type cent struct {
	ddd.BaseEntity
	V    int
	Kids []*cent
}

type cpo struct {
	ID, Up string
	V      int
	Evt    string
}

func (p *cpo) GetID() string { return p.ID }

// crow is a stored entity or event.
type crow struct {
	up string
	v  int
}

// crec is one recorded call.
type crec struct {
	run  *crun
	what string
	inst string
	arg  string
	err  error
}

// crun is one command run.
type crun struct {
	s      *csys
	name   string
	form   string // fn, main, cmd, stage
	opt    string
	end    string // "", error, break, panic
	keys   []string
	given  []string // keys as handed to the engine
	opts   []ddd.Option
	nested *crun  // run inside this one
	where  string // main, post
	body   func(ctx context.Context, repo *ddd.Repository) error
	res    *ddd.Result
	pan    interface{}
	done   bool
	posts  []string
	cmdPS  bool
	held   map[string]int
	open   bool
	runs   int
	resStr string
}

type csys struct {
	x     *explore.X
	w     *world.World
	p     *world.Proc
	mu    sync.Mutex
	recs  []crec
	rows  map[string]map[string]crow // executor instance -> rows
	runs  []*crun
	bad   bool
	style string // lock style: free, block, try
	owner map[string]*crun
	wait  map[string]chan struct{}
	eng   *ddd.Engine
	nhook int
	ids   int
	excl  bool // commands sharing a key must not overlap
	hist  []string
}

type crunKey struct{}

func (s *csys) fail(sig, f string, a ...interface{}) {
	if !s.bad {
		s.w.Fail(sig, f, a...)
	}
	s.bad = true
}

// call is a scheduling point followed by a recorded call.
func (s *csys) call(ctx context.Context, what, inst, arg string) *crun {
	r, _ := ctx.Value(crunKey{}).(*crun)
	n := "?"
	if r != nil {
		n = r.name
	}
	s.p.Point(n + " " + what + " " + arg)
	s.mu.Lock()
	defer s.mu.Unlock()
	if r == nil {
		s.fail("no-context", "%s was called without the run's context", what)
		return nil
	}
	s.recs = append(s.recs, crec{run: r, what: what, inst: inst, arg: arg})
	if r.done {
		s.fail("after-return", "%s of run %s after the run returned", what, r.name)
	}
	if s.excl {
		switch what {
		case "begin", "main", "query", "exec", "commit":
			for _, o := range s.runs {
				if o != r && o.open {
					for _, k := range o.keys {
						for _, m := range r.keys {
							if k == m {
								s.fail("overlap", "%s of command %s while command %s, which uses the same key %s, is in progress", what, r.name, o.name, k)
							}
						}
					}
				}
			}
		}
		if what == "begin" || what == "main" {
			r.open = true
		}
	}
	return r
}

// ---- backends

type cexec struct {
	s    *csys
	name string
}

type ctx struct {
	r     *crun
	e     *cexec
	view  map[string]crow
	w     []func(m map[string]crow)
	ended bool
}

type ctxKey struct{ e *cexec }

func cloneRows(m map[string]crow) map[string]crow {
	n := make(map[string]crow, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (e *cexec) Begin(c context.Context) (context.Context, error) {
	r := e.s.call(c, "begin", e.name, "")
	e.s.mu.Lock()
	defer e.s.mu.Unlock()
	return context.WithValue(c, ctxKey{e}, &ctx{r: r, e: e, view: cloneRows(e.s.rows[e.name])}), nil
}

func (e *cexec) end(c context.Context, what string) error {
	r := e.s.call(c, what, e.name, "")
	e.s.mu.Lock()
	defer e.s.mu.Unlock()
	t, _ := c.Value(ctxKey{e}).(*ctx)
	if t == nil || t.ended {
		e.s.fail("tx-end", "%s of run %s without an open transaction", what, r.name)
		return errors.New("no transaction")
	}
	if t.r != r {
		e.s.fail("tx-foreign", "run %s ended the transaction of run %s", r.name, t.r.name)
	}
	t.ended = true
	r.open = false
	if what == "commit" {
		for _, f := range t.w {
			f(e.s.rows[e.name])
		}
	}
	return nil
}

func (e *cexec) Commit(c context.Context) error   { return e.end(c, "commit") }
func (e *cexec) RollBack(c context.Context) error { return e.end(c, "rollback") }

func (e *cexec) Entity2Model(ent, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	c, ok := ent.(*cent)
	if !ok {
		return nil, ddd.ErrEntityNotRegister
	}
	p := &cpo{ID: c.GetID(), V: c.V}
	if u, ok := parent.(*cent); ok && u != nil {
		p.Up = u.GetID()
	}
	return p, nil
}

func (e *cexec) Model2Entity(m ddd.IModel, ent ddd.IEntity) error {
	p := m.(*cpo)
	ent.SetID(p.ID)
	ent.(*cent).V = p.V
	return nil
}

func (e *cexec) Exec(c context.Context, a *ddd.Action) error {
	var l []string
	for _, m := range a.Models {
		l = append(l, m.GetID())
	}
	what := "exec"
	arg := fmt.Sprint(a.Op, l)
	if a.Op == ddd.OpQuery {
		what, arg = "query", ""
	}
	e.s.call(c, what, e.name, arg)
	e.s.mu.Lock()
	defer e.s.mu.Unlock()
	t, _ := c.Value(ctxKey{e}).(*ctx)
	view := e.s.rows[e.name]
	if t != nil {
		view = t.view
	}
	if a.Op == ddd.OpQuery {
		q := a.Query.(*cpo)
		var ids []string
		for id := range view {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		out := a.QueryResult.(*[]*cpo)
		for _, id := range ids {
			r := view[id]
			if (q.ID == "" || q.ID == id) && (q.Up == "" || q.Up == r.up) {
				*out = append(*out, &cpo{ID: id, Up: r.up, V: r.v})
			}
		}
		return nil
	}
	for _, m := range a.Models {
		p := m.(*cpo)
		f := func(rows map[string]crow) {
			if a.Op == ddd.OpDelete {
				delete(rows, p.ID)
			} else {
				rows[p.ID] = crow{p.Up, p.V}
			}
		}
		f(view)
		if t != nil {
			t.w = append(t.w, f)
		}
	}
	return nil
}

type clock struct {
	s    *csys
	name string
}

func (l *clock) Lock(c context.Context, key string) (interface{}, error) {
	r := l.s.call(c, "lock", l.name, key)
	s := l.s
	s.mu.Lock()
	for s.owner[key] != nil {
		if s.style == "try" {
			s.mu.Unlock()
			return nil, ddd.ErrEntityLocked
		}
		if s.style == "free" {
			s.fail("lock-shared", "run %s and run %s hold the lock %s", r.name, s.owner[key].name, key)
			break
		}
		ch := s.wait[key]
		if ch == nil {
			ch = make(chan struct{})
			s.wait[key] = ch
		}
		s.mu.Unlock()
		<-ch
		s.p.Point(r.name + " retry " + key)
		s.mu.Lock()
	}
	s.owner[key] = r
	r.held[key]++
	s.mu.Unlock()
	return [2]interface{}{key, r}, nil
}

func (l *clock) UnLock(c context.Context, v interface{}) error {
	r := l.s.call(c, "unlock", l.name, "")
	s := l.s
	s.mu.Lock()
	defer s.mu.Unlock()
	kv, ok := v.([2]interface{})
	if !ok || kv[1] != interface{}(r) || s.owner[kv[0].(string)] != r {
		s.fail("unlock-foreign", "run %s released %v, which it does not hold", r.name, v)
		return nil
	}
	key := kv[0].(string)
	if r.opt == "notx" {
		r.open = false // nothing else ends it
	}
	if r.open {
		s.fail("unlock-early", "run %s released %s before its transaction ended", r.name, key)
	}
	s.owner[key] = nil
	r.held[key]--
	if ch := s.wait[key]; ch != nil {
		close(ch)
		delete(s.wait, key)
	}
	return nil
}

type cbus struct {
	s    *csys
	name string
}

func (b *cbus) RegisterEventHandler(ddd.DomainEventHandler) {}
func (b *cbus) Dispatch(c context.Context, evts ...*ddd.DomainEvent) error {
	var l []string
	for _, e := range evts {
		l = append(l, string(e.Payload))
	}
	b.s.call(c, "dispatch", b.name, strings.Join(l, " "))
	return nil
}

type cids struct {
	s    *csys
	name string
}

func (i *cids) NewID() (string, error) {
	i.s.mu.Lock()
	defer i.s.mu.Unlock()
	i.s.ids++
	return fmt.Sprintf("%s%d", i.name, i.s.ids), nil
}

func (s *csys) persist(name string) ddd.EventPersist {
	return func(e *ddd.DomainEvent) (ddd.IModel, error) {
		return &cpo{ID: "evt:" + name + ":" + string(e.Payload)}, nil
	}
}

// post is a post-save callback called name.
func (s *csys) post(name string) ddd.PostSaveFunc {
	return func(c context.Context, res *ddd.Result) {
		r := s.call(c, "post", name, "")
		if r == nil {
			return
		}
		s.mu.Lock()
		r.posts = append(r.posts, name)
		if res == nil || res.Error != nil {
			s.fail("post-result", "the callback %s got the result %+v", name, res)
		}
		if name == "cmd-"+r.name || !strings.HasPrefix(name, "cmd-") {
			// the result has to be this run's own
			if o, ok := resultName(res); ok && o != r.name {
				s.fail("post-foreign-result", "the callback %s of run %s got the result of run %s", name, r.name, o)
			}
		}
		if r.open {
			s.fail("post-early", "the callback %s of run %s ran before the transaction ended", name, r.name)
		}
		for k, n := range r.held {
			if n > 0 {
				s.fail("post-locked", "the callback %s of run %s ran while the lock %s was held", name, r.name, k)
			}
		}
		s.mu.Unlock()
		if n := r.nested; n != nil && r.where == "post" && n.runs == 0 && name == "engine0" {
			n.start(context.Background())
		}
	}
}

// resultName finds whose result it is by the actions in it.
func resultName(res *ddd.Result) (string, bool) {
	if res == nil {
		return "", false
	}
	for _, a := range res.Actions {
		for _, m := range a.Models {
			if p := m.(*cpo); strings.HasPrefix(p.ID, "own-") {
				return strings.TrimPrefix(p.ID, "own-"), true
			}
		}
	}
	return "", false
}

// ---- commands

type cmain struct{ r *crun }

func (c *cmain) Init(ctx context.Context) ([]string, error) {
	c.r.s.call(ctx, "init", "", "")
	return c.r.given, nil
}
func (c *cmain) Main(ctx context.Context, repo *ddd.Repository) error { return c.r.main(ctx, repo) }
func (c *cmain) PostSave(ctx context.Context, res *ddd.Result) {
	c.r.s.post("cmd-"+c.r.name)(ctx, res)
}

type ccmd struct {
	ddd.Command
	r *crun
}

func (c *ccmd) Init(ctx context.Context) ([]string, error) {
	c.r.s.call(ctx, "init", "", "")
	return c.r.given, nil
}

func (c *ccmd) Build(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
	e := c.r.old()
	if err := b.Build(ctx, e, &e.Kids); err != nil {
		return nil, err
	}
	return []ddd.IEntity{e}, nil
}

func (c *ccmd) Act(ctx context.Context, rc ddd.RootContainer, roots ...ddd.IEntity) error {
	c.Output("output " + c.r.name)
	return c.r.act(ctx, roots[0].(*cent), func(e *cent) { rc.Remove(e) }, func(e *cent) { rc.Add(e) })
}

func (c *ccmd) PostSave(ctx context.Context, res *ddd.Result) {
	c.r.s.post("cmd-"+c.r.name)(ctx, res)
}

func (r *crun) old() *cent {
	e := &cent{}
	e.SetID("old-" + r.name)
	return e
}

func (r *crun) main(ctx context.Context, repo *ddd.Repository) error {
	if r.body != nil {
		r.s.call(ctx, "main", "", "")
		return r.body(ctx, repo)
	}
	e := r.old()
	if err := repo.Get(ctx, e, &e.Kids); err != nil {
		return err
	}
	return r.act(ctx, e, func(e *cent) { repo.Remove(e) }, func(e *cent) { repo.Add(e) })
}

// act removes the run's old root (which has a child), creates a new one and
// raises an event.
func (r *crun) act(ctx context.Context, e *cent, remove, add func(*cent)) error {
	r.s.call(ctx, "main", "", "")
	if r.nested != nil && r.where == "main" {
		r.nested.start(context.Background())
	}
	remove(e)
	n := &cent{V: 1}
	n.SetID("own-" + r.name)
	n.Kids = []*cent{{V: 2}}
	n.AddEvent(&cevt{r.name})
	add(n)
	r.s.call(ctx, "main", "", "end")
	if r.nested != nil && r.where == "end" {
		r.nested.start(context.Background())
	}
	switch r.end {
	case "error":
		return errors.New("failing " + r.name)
	case "break":
		return ddd.ErrBreak
	case "panic":
		panic("panicking " + r.name)
	}
	return nil
}

// start runs the command.
func (r *crun) start(ctx context.Context) {
	r.runs++
	ctx = context.WithValue(ctx, crunKey{}, r)
	func() {
		defer func() { r.pan = recover() }()
		switch r.form {
		case "fn":
			r.res = r.s.eng.Run(ctx, r.main, r.opts...)
		case "main":
			r.cmdPS = true
			r.res = r.s.eng.Run(ctx, &cmain{r}, r.opts...)
		case "cmd":
			r.cmdPS = true
			r.res = r.s.eng.RunCommand(ctx, &ccmd{r: r}, r.opts...)
		case "stage":
			r.res = r.s.eng.NewStage().WithOption(r.opts...).Lock(r.given...).Main(r.main).Save(ctx)
		}
	}()
	r.s.mu.Lock()
	r.done = true
	r.open = false
	r.resStr = resultStr(r.res)
	r.s.mu.Unlock()
}

// resultStr is everything a result says.
func resultStr(res *ddd.Result) string {
	if res == nil {
		return ""
	}
	b := &strings.Builder{}
	fmt.Fprint(b, res.Error, res.Break, res.Output)
	for _, a := range res.Actions {
		fmt.Fprint(b, " ", a.Op)
		for _, m := range a.Models {
			fmt.Fprint(b, " ", m.GetID())
		}
	}
	return b.String()
}

// ---- option menu

var cOpts = []string{"none", "hook", "hooks2", "dry", "notx", "recursive", "exec", "lock", "bus", "ids", "persist"}

func (r *crun) options() {
	s := r.s
	switch r.opt {
	case "hook":
		r.opts = []ddd.Option{ddd.WithPostSave(s.post("opt-" + r.name))}
	case "hooks2":
		r.opts = []ddd.Option{ddd.WithPostSave(s.post("opt-" + r.name)), ddd.WithPostSave(s.post("opt2-" + r.name))}
	case "dry":
		r.opts = []ddd.Option{ddd.WithDryRun}
	case "notx":
		r.opts = []ddd.Option{ddd.WithoutTransaction}
	case "recursive":
		r.opts = []ddd.Option{ddd.WithRecursiveDelete}
	case "exec":
		r.opts = []ddd.Option{ddd.WithExecutor(&cexec{s, "other"})}
	case "lock":
		r.opts = []ddd.Option{ddd.WithLock(&clock{s, "other"})}
	case "bus":
		r.opts = []ddd.Option{ddd.WithEventBus(&cbus{s, "other"})}
	case "ids":
		r.opts = []ddd.Option{ddd.WithIDGenerator(&cids{s, "other"})}
	case "persist":
		r.opts = []ddd.Option{ddd.WithEventPersist(s.persist("other"))}
	}
}

// verify compares what a run did with what its own options ask for.
func (r *crun) verify(rows map[string]map[string]crow) {
	s := r.s
	if r.runs != 1 {
		s.fail("harness", "run %s was started %d times", r.name, r.runs)
		return
	}
	inst := func(o string) string {
		if r.opt == o {
			return "other"
		}
		return "std"
	}
	ok := r.end == ""
	switch {
	case r.end == "panic":
		if r.pan != "panicking "+r.name {
			s.fail("result", "run %s had to panic with its own panic but gave %v, %+v", r.name, r.pan, r.res)
			return
		}
	case r.pan != nil:
		s.fail("panic", "run %s panicked: %v", r.name, r.pan)
		return
	case r.end == "error":
		if r.res.Error == nil || !strings.Contains(r.res.Error.Error(), "failing "+r.name) {
			s.fail("result", "run %s had to fail with its own error but gave %v", r.name, r.res.Error)
		}
	case r.end == "break":
		if r.res.Error != nil || !r.res.Break {
			s.fail("result", "run %s had to break but gave %v", r.name, r.res.Error)
		}
	default:
		if r.res.Error != nil || r.res.Break {
			s.fail("result", "run %s had to succeed but gave %v, break %v", r.name, r.res.Error, r.res.Break)
			return
		}
	}
	if g := resultStr(r.res); g != r.resStr {
		s.fail("result-changed", "the result of run %s was %q when it returned and is %q after other runs", r.name, r.resStr, g)
	}
	if r.body == nil && ok {
		out := interface{}(nil)
		if r.form == "cmd" {
			out = "output " + r.name
		}
		if r.res.Output != out {
			s.fail("foreign-output", "the result of run %s (%s) has the output %v", r.name, r.form, r.res.Output)
		}
		if o, has := resultName(r.res); has && o != r.name || has != (r.opt != "dry") {
			s.fail("foreign-actions", "the result of run %s (option %s) lists the actions of %q", r.name, r.opt, o)
		}
	}
	begun, disp, locks := 0, 0, 0
	for _, c := range s.recs {
		if c.run != r {
			continue
		}
		want := ""
		switch c.what {
		case "begin", "commit", "rollback", "exec", "query":
			want = inst("exec")
		case "lock", "unlock":
			want = inst("lock")
		case "dispatch":
			want = inst("bus")
		}
		if c.inst != want && c.what != "post" {
			s.fail("wrong-backend", "%s of run %s (option %s) went to the %s backend", c.what, r.name, r.opt, c.inst)
		}
		switch c.what {
		case "begin":
			begun++
		case "lock":
			locks++
		case "exec":
			if r.opt == "dry" {
				s.fail("dry-write", "the dry run %s wrote %s", r.name, c.arg)
			}
		case "dispatch":
			disp++
			if c.arg != fmt.Sprintf(`{"N":"%s"}`, r.name) {
				s.fail("foreign-events", "run %s dispatched %s", r.name, c.arg)
			}
		}
	}
	if (begun == 1) != (r.opt != "notx") {
		s.fail("tx-option", "run %s (option %s) began %d transactions", r.name, r.opt, begun)
	}
	if w := map[bool]int{true: 1, false: 0}[ok && r.opt != "dry"]; disp != w {
		s.fail("events", "run %s (option %s) dispatched %d times instead of %d", r.name, r.opt, disp, w)
	}
	if locks != len(r.keys) {
		s.fail("locks", "run %s acquired %d locks instead of %d", r.name, locks, len(r.keys))
	}
	if !reflect.DeepEqual(r.given, r.keys) {
		s.fail("keys-modified", "the lock keys %v given by the caller were changed to %v", r.keys, r.given)
	}
	// storage
	saved := ok && r.opt != "dry"
	for _, e := range []string{"std", "other"} {
		m := s.rows[e]
		mine := e == inst("exec")
		_, own := m["own-"+r.name]
		_, old := m["old-"+r.name]
		_, kid := m["oldkid-"+r.name]
		evt := 0
		evn := ""
		nk := ""
		for id, c := range m {
			if strings.HasPrefix(id, "evt:") && strings.HasSuffix(id, fmt.Sprintf(`{"N":"%s"}`, r.name)) {
				evt++
				evn = strings.Split(id, ":")[1]
			}
			if c.up == "own-"+r.name {
				nk = id
			}
		}
		if own != (mine && saved) {
			s.fail("stored", "run %s (option %s, %s): its new entity is stored=%v in %s", r.name, r.opt, r.end, own, e)
		}
		if old != !(mine && saved) {
			s.fail("stored", "run %s (option %s, %s): the entity it removes is stored=%v in %s", r.name, r.opt, r.end, old, e)
		}
		if kid != !(mine && saved && r.opt == "recursive") {
			s.fail("recursive-option", "run %s (option %s, %s): the child of the entity it removes is stored=%v in %s", r.name, r.opt, r.end, kid, e)
		}
		if mine && saved {
			if !strings.HasPrefix(nk, inst("ids")) {
				s.fail("ids-option", "run %s (option %s): the child got the ID %q", r.name, r.opt, nk)
			}
			if evt != 1 || evn != inst("persist") {
				s.fail("persist-option", "run %s (option %s): %d events stored by %q", r.name, r.opt, evt, evn)
			}
		} else if evt != 0 {
			s.fail("persist-option", "run %s (option %s, %s): %d events stored in %s", r.name, r.opt, r.end, evt, e)
		}
	}
	// callbacks
	want := map[string]int{}
	if ok {
		for i := 0; i < s.nhook; i++ {
			want[fmt.Sprintf("engine%d", i)]++
		}
		if r.opt == "hook" || r.opt == "hooks2" {
			want["opt-"+r.name]++
		}
		if r.opt == "hooks2" {
			want["opt2-"+r.name]++
		}
		if r.cmdPS {
			want["cmd-"+r.name]++
		}
	}
	if r.end != "break" {
		got := map[string]int{}
		for _, p := range r.posts {
			got[p]++
		}
		if !reflect.DeepEqual(got, want) {
			s.fail("callbacks", "run %s (option %s, %s) got the callbacks %v instead of %v", r.name, r.opt, r.end, r.posts, want)
		}
	} else {
		for _, p := range r.posts {
			if !strings.HasPrefix(p, "engine") && !strings.HasSuffix(p, "-"+r.name) {
				s.fail("callbacks", "run %s got the callback %s of another run", r.name, p)
			}
		}
	}
}

type concSpec struct {
	mode   []string // seq, main, end, post, conc
	hooks  []int
	optsA  []string
	optsB  []string
	forms  []string
	formsB []string
	ends   []string
	three  bool
}

func newCsys(x *explore.X, w *world.World) *csys {
	s := &csys{x: x, w: w, p: w.NewProc("P"), rows: map[string]map[string]crow{"std": {}, "other": {}}, style: "free", owner: map[string]*crun{}, wait: map[string]chan struct{}{}}
	return s
}

func (s *csys) run(name, form, opt string, keys ...string) *crun {
	r := &crun{s: s, name: name, form: form, opt: opt, keys: keys, held: map[string]int{}}
	r.given = append([]string{}, keys...)
	if form == "fn" {
		r.keys, r.given = nil, nil
	}
	r.options()
	s.runs = append(s.runs, r)
	for _, e := range []string{"std", "other"} {
		s.rows[e]["old-"+name] = crow{"", 5}
		s.rows[e]["oldkid-"+name] = crow{"old-" + name, 6}
	}
	return r
}

func scnConc(sp concSpec) func(x *explore.X) {
	pick := func(x *explore.X, l []string) string { return l[x.Pick("pick", len(l))] }
	return func(x *explore.X) {
		world.Run(x, world.Config{Preempt: true}, func(w *world.World) {
			s := newCsys(x, w)
			s.nhook = sp.hooks[x.Pick("hooks", len(sp.hooks))]
			opts := []ddd.Option{ddd.WithLogger(discard), ddd.WithIDGenerator(&cids{s, "std"}), ddd.WithEventBus(&cbus{s, "std"}), ddd.WithEventPersist(s.persist("std"))}
			for i := 0; i < s.nhook; i++ {
				opts = append(opts, ddd.WithPostSave(s.post(fmt.Sprintf("engine%d", i))))
			}
			s.eng = ddd.NewEngine(&clock{s, "std"}, &cexec{s, "std"}, opts...)
			mode := pick(x, sp.mode)
			fb := sp.formsB
			if fb == nil {
				fb = sp.forms
			}
			a := s.run("A", pick(x, sp.forms), pick(x, sp.optsA), "kA2", "kA1")
			b := s.run("B", pick(x, fb), pick(x, sp.optsB), "kB3", "kB1", "kB2")
			if len(sp.ends) > 0 {
				switch e := sp.ends[x.Pick("end", len(sp.ends))]; {
				case strings.HasPrefix(e, "A"):
					a.end = e[1:]
				case strings.HasPrefix(e, "B"):
					b.end = e[1:]
				}
			}
			if mode == "post" && (s.nhook == 0 || a.end != "") || b.end == "panic" && mode != "conc" && mode != "seq" {
				return // the nested run would not be started, or ends the outer one
			}
			if a.opt == "notx" && a.end != "" || b.opt == "notx" && b.end != "" {
				return
			}
			c := s.run("C", "main", "none", "kC2", "kC1")
			var third *crun
			if sp.three {
				third = s.run("D", "main", "hook", "kD2", "kD1")
			}
			switch mode {
			case "seq":
				s.p.Go("runs", func() {
					a.start(context.Background())
					b.start(context.Background())
				})
			case "conc":
				s.p.Go("A", func() { a.start(context.Background()) })
				s.p.Go("B", func() { b.start(context.Background()) })
				if third != nil {
					s.p.Go("D", func() { third.start(context.Background()) })
				}
			default:
				a.nested, a.where = b, mode
				s.p.Go("A", func() { a.start(context.Background()) })
			}
			w.Loop(10*time.Second, func() bool { return w.Tasks() == 0 })
			// a later run with no options of its own
			s.p.Go("C", func() { c.start(context.Background()) })
			w.Loop(20*time.Second, func() bool { return w.Tasks() == 0 })
			if w.Tasks() > 0 {
				x.Failf("stuck", "a command never finished")
				return
			}
			for _, p := range w.Panics() {
				x.Failf("panic", "%s", p)
			}
			for _, r := range s.runs {
				if !s.bad {
					r.verify(s.rows)
				}
			}
			x.Outcome("%s %s %s/%s %s/%s", mode, a.form, a.opt, a.end, b.opt, b.end)
		})
	}
}

// ---- C03

// scnShare: commands with overlapping keys increment one counter per key.
func scnShare(sets func(x *explore.X) [][]string, style []string, ends []string, opts ...string) func(x *explore.X) {
	return func(x *explore.X) {
		world.Run(x, world.Config{Preempt: true}, func(w *world.World) {
			s := newCsys(x, w)
			s.style = style[x.Pick("lock", len(style))]
			s.excl = true
			s.eng = ddd.NewEngine(&clock{s, "std"}, &cexec{s, "std"}, ddd.WithLogger(discard), ddd.WithEventBus(&cbus{s, "std"}))
			l := sets(x)
			who := -1
			end := ""
			if len(ends) > 0 {
				end = ends[x.Pick("end", len(ends))]
				if end != "" {
					who = x.Pick("who", len(l))
				}
			}
			want := map[string]int{}
			for i, keys := range l {
				keys := keys
				opt := "none"
				if len(opts) > 0 {
					opt = opts[x.Pick("option", len(opts))]
				}
				r := s.run(string(rune('A'+i)), "main", opt, keys...)
				if i%2 == 1 {
					r.form = "stage"
				}
				if i == who {
					r.end = end
				}
				for _, k := range keys {
					s.rows["std"]["cnt-"+k] = crow{"", 10}
					want["cnt-"+k] = 10
				}
				r.body = func(ctx context.Context, repo *ddd.Repository) error {
					for _, k := range keys {
						e := &cent{}
						e.SetID("cnt-" + k)
						if err := repo.Get(ctx, e); err != nil {
							return err
						}
						e.V++
						e.Dirty()
					}
					switch r.end {
					case "error":
						return errors.New("failing")
					case "break":
						return ddd.ErrBreak
					case "panic":
						panic("panicking")
					}
					return nil
				}
			}
			for _, r := range s.runs {
				r := r
				s.p.Go(r.name, func() { r.start(context.Background()) })
			}
			w.Loop(10*time.Second, func() bool { return w.Tasks() == 0 })
			if w.Tasks() > 0 {
				x.Failf("deadlock", "commands with the keys %v never finished", l)
				return
			}
			n := 0
			for _, r := range s.runs {
				switch {
				case r.end == "panic" && r.pan == "panicking", r.res != nil && r.end == "break" && r.res.Break, r.res != nil && r.end == "error" && r.res.Error != nil && strings.Contains(r.res.Error.Error(), "failing"):
				case r.pan != nil:
					x.Failf("panic", "%v", r.pan)
				case r.res.Error == nil && r.end == "":
					n++
					for _, k := range r.keys {
						want["cnt-"+k]++
					}
				case s.style == "try" && errors.Is(r.res.Error, ddd.ErrEntityLocked):
				default:
					x.Failf("result", "command %s: %v", r.name, r.res.Error)
				}
			}
			if n == 0 && end == "" {
				x.Failf("no-progress", "none of the commands %v succeeded", l)
			}
			for k, v := range want {
				if g := s.rows["std"][k].v; g != v {
					x.Failf("lost-update", "%s is %d instead of %d", k, g, v)
				}
			}
			for k, o := range s.owner {
				if o != nil {
					x.Failf("lock-left", "the lock %s is still held by %s", k, o.name)
				}
			}
			x.Outcome("%s %d", s.style, n)
		})
	}
}

// acct is a stored counter of the MySQL executor.
type acct struct {
	ddd.BaseEntity
	V int
}

type acctPO struct {
	ID    string `gorm:"primaryKey;size:32"`
	V     int
	Other int
}

func (a *acctPO) GetID() string     { return a.ID }
func (a *acctPO) TableName() string { return "accts" }

func init() {
	exmysql.RegisterEntity2Model(&acct{}, func(e, parent ddd.IEntity, op ddd.OpType) (exmysql.IModel, error) {
		return &acctPO{ID: e.GetID(), V: e.(*acct).V}, nil
	}, func(po exmysql.IModel, e ddd.IEntity) error {
		e.SetID(po.GetID())
		e.(*acct).V = po.(*acctPO).V
		return nil
	})
}

// scnShareDB: the same over the database lock and the MySQL executor, every
// command in its own process.
func scnShareDB(sets func(x *explore.X) [][]string, locks []string, ends []string) func(x *explore.X) {
	return func(x *explore.X) {
		warm()
		world.Run(x, world.Config{Preempt: true}, func(w *world.World) {
			w.AddModels(&lockdb.ResourceLock{}, &acctPO{})
			l := sets(x)
			kind := locks[x.Pick("lock", len(locks))]
			var srv *rdServer
			if kind == "redis" {
				srv = newRdServer(w)
				defer srv.close()
			}
			newLock := func(p *world.Proc) ddd.ILock {
				if srv != nil {
					return lockredis.NewRedisLock(srv.client(p, -1), 10*time.Second)
				}
				return lockdb.NewDBLock(p.DB, 10*time.Second, func(o *lockdb.Options) { o.Retry, o.Logger = kind == "retry", discard })
			}
			end, who := "", -1
			if len(ends) > 0 {
				end, who = ends[x.Pick("end", len(ends))], x.Pick("who", len(l))
			}
			want := map[string]int64{}
			inside := map[string]string{} // key -> command whose logic runs
			res := make([]*ddd.Result, len(l))
			var mu sync.Mutex
			for i, keys := range l {
				i, keys, name := i, keys, string(rune('A'+i))
				p := w.NewProc(name)
				for _, k := range keys {
					if _, ok := want[k]; !ok {
						want[k] = 10
						w.DB.Put("accts", map[string]memsql.Value{"id": k, "v": int64(10), "other": int64(5)})
					}
				}
				eng := ddd.NewEngine(newLock(p), exmysql.NewExecutor(p.DB), ddd.WithLogger(discard))
				body := func(ctx context.Context, repo *ddd.Repository) error {
					mu.Lock()
					for _, k := range keys {
						if o := inside[k]; o != "" {
							w.Fail("overlap", "command %s runs while command %s holds key %s", name, o, k)
						}
						inside[k] = name
					}
					mu.Unlock()
					for _, k := range keys {
						e := &acct{}
						e.SetID(k)
						if err := repo.Get(ctx, e); err != nil {
							return err
						}
						e.V++
						e.Dirty()
					}
					if i == who && end == "error" {
						return errors.New("failing")
					}
					return nil
				}
				p.Go(name, func() {
					res[i] = eng.Run(context.Background(), &shareCmd{keys: keys, body: body, done: func() {
						mu.Lock()
						defer mu.Unlock()
						for _, k := range keys {
							if inside[k] == name {
								inside[k] = ""
							}
						}
					}})
				})
			}
			w.Loop(20*time.Second, func() bool { return w.Tasks() == 0 })
			if w.Tasks() > 0 {
				x.Failf("deadlock", "commands with the keys %v never finished", l)
				return
			}
			for _, p := range w.Panics() {
				x.Failf("panic", "%s", p)
			}
			n := 0
			for i, r := range res {
				switch {
				case r == nil:
					x.Failf("no-result", "command %d returned nothing", i)
					return
				case r.Error == nil && !(i == who && end == "error"):
					n++
					for _, k := range l[i] {
						want[k]++
					}
				case i == who && end == "error" && r.Error != nil && strings.Contains(r.Error.Error(), "failing"):
				case errors.Is(r.Error, ddd.ErrEntityLocked):
				default:
					x.Failf("result", "command %d: %v", i, r.Error)
				}
			}
			if n == 0 && end == "" {
				x.Failf("no-progress", "none of the commands %v succeeded", l)
			}
			for _, r := range w.DB.Rows("accts") {
				if k := fmt.Sprint(r["id"]); r["v"] != want[k] || r["other"] != int64(5) {
					x.Failf("lost-update", "counter %s is %v instead of %d (other column %v)", k, r["v"], want[k], r["other"])
				}
			}
			if srv != nil && len(srv.keys) > 0 {
				x.Failf("lock-left", "%d locks are left", len(srv.keys))
			}
			if g := w.DB.Rows(tblLock); len(g) > 0 {
				x.Failf("lock-left", "%d locks are left", len(g))
			}
			x.Outcome("%v %d", kind, n)
		})
	}
}

type shareCmd struct {
	keys []string
	body func(ctx context.Context, repo *ddd.Repository) error
	done func()
}

func (c *shareCmd) Init(ctx context.Context) ([]string, error) {
	return append([]string{}, c.keys...), nil
}
func (c *shareCmd) Main(ctx context.Context, repo *ddd.Repository) error {
	defer c.done()
	return c.body(ctx, repo)
}

// perms are all ordered selections of 1..n of the keys.
func perms(keys []string, n int) (r [][]string) {
	var rec func(cur []string)
	rec = func(cur []string) {
		if len(cur) > 0 {
			r = append(r, append([]string{}, cur...))
		}
		if len(cur) == n {
			return
		}
	next:
		for _, k := range keys {
			for _, c := range cur {
				if c == k {
					continue next
				}
			}
			rec(append(cur, k))
		}
	}
	rec(nil)
	return
}

func init() {
	pairs := func(keys []string, n int) func(x *explore.X) [][]string {
		p := perms(keys, n)
		return func(x *explore.X) [][]string {
			i := x.Pick("keys A", len(p))
			j := x.Pick("keys B", len(p))
			return [][]string{p[i], p[j]}
		}
	}
	three := func(x *explore.X) [][]string {
		p := [][]string{{"a", "b"}, {"b", "a"}, {"b", "c"}, {"c", "b"}, {"c", "a"}, {"a", "c"}, {"c", "b", "a"}}
		return [][]string{p[x.Pick("A", 2)], p[2+x.Pick("B", 2)], p[4+x.Pick("C", 3)]}
	}
	many := func(x *explore.X) [][]string {
		n := []int{10, 13, 40}[x.Pick("keys", 3)]
		var l [][]string
		for _, who := range []string{"A", "B"} {
			o := x.Pick(who, 4)
			k := make([]string, n)
			for i := range k {
				j := i
				switch o {
				case 1:
					j = n - 1 - i
				case 2:
					j = (i + n/2) % n
				case 3:
					j = i ^ 1
					if j >= n {
						j = i
					}
				}
				k[i] = fmt.Sprintf("k%d", j)
			}
			l = append(l, k)
		}
		if x.Pick("other keys", 2) == 1 { // B shares the first and the last key only
			for i, k := range l[1] {
				if k != "k0" && k != fmt.Sprintf("k%d", n-1) {
					l[1][i] = "x" + k
				}
			}
		}
		return l
	}
	// pairs of different keys that are alike, in both orders
	alike := [][2]string{{"k", "K"}, {"Key-a", "key-B"}, {"order-00000001", "order-00000002"}, {"a", "a "}, {"a", "aa"}, {"1", "01"}, {"9", "10"},
		{"é", "e"}, {"日", "本"}, {"a-b", "a_b"}, {"a:b", "a"}, {"%", "a"}, {strings.Repeat("long", 60) + "1", strings.Repeat("long", 60) + "2"}, {"", "a"}, {"a", "\x00"}, {"ab", "ba"}}
	shapes := func(x *explore.X) [][]string {
		p := alike[x.Pick("pair", len(alike))]
		return [][]string{{p[0], p[1]}, {p[1], p[0]}}
	}
	add(&explore.Property{
		ID: "C03", Title: "commands sharing a key do not interleave",
		Rule:        "two commands with every ordered selection of up to three of three keys (lengths and common prefixes differing) and three commands with pairwise overlapping keys in every order, and sixteen pairs of keys that are alike (case, padding, prefix, collation) in opposite orders; every interleaving of lock, transaction, storage and user calls up to the deviation bound, over blocking and try-style locks, and of SQL statements for the database lock with the MySQL executor",
		Assumptions: []string{"scheduling points are the calls the engine makes to its backends and callbacks; code between two of them is treated as atomic", "for the database lock: MySQL model (mc/memsql), no lease expires while a command runs"},
		Scenarios: []*explore.Scenario{
			{Name: "share-2", Doc: "two commands, up to three keys", Run: scnShare(pairs([]string{"a", "b", "c"}, 3), []string{"block", "try"}, nil), Quick: 2, Thorough: 4},
			{Name: "share-2-names", Doc: "key names of different length", Run: scnShare(pairs([]string{"b", "a:10", "a:9"}, 3), []string{"block"}, nil), Quick: 2, Thorough: 3},
			{Name: "share-alike", Doc: "two commands with two different keys that are alike, in opposite orders", Run: scnShare(shapes, []string{"block", "try"}, nil), Quick: 2, Thorough: 3},
			{Name: "share-3", Doc: "three commands", Run: scnShare(three, []string{"block", "try"}, nil), Quick: 3, Thorough: 4},
			{Name: "share-many", Doc: "two commands with 10 to 40 keys", Run: scnShare(many, []string{"block", "try"}, nil), Quick: 1, Thorough: 2},
			{Name: "share-opts", Doc: "two commands with options of their own", Run: scnShare(pairs([]string{"a", "b"}, 2), []string{"block", "try"}, nil, "none", "notx", "recursive", "hook", "persist"), Quick: 2, Thorough: 3},
			{Name: "share-ends", Doc: "one command fails, breaks or panics", Run: scnShare(pairs([]string{"a", "b"}, 2), []string{"block", "try"}, []string{"error", "break", "panic"}), Quick: 3, Thorough: 4},
			{Name: "share-db", Doc: "database lock, MySQL executor, one or two keys", Run: scnShareDB(pairs([]string{"a", "b"}, 2), []string{"retry", "once"}, nil), Quick: 2, Thorough: 4},
			{Name: "share-redis", Doc: "redis lock, MySQL executor, one or two keys", Run: scnShareDB(pairs([]string{"a", "b"}, 2), []string{"redis"}, nil), Quick: 2, Thorough: 3},
			{Name: "share-redis-error", Doc: "redis lock, one command fails", Run: scnShareDB(pairs([]string{"a", "b"}, 1), []string{"redis"}, []string{"error"}), Quick: 2, Thorough: 3},
			{Name: "share-db-error", Doc: "one command fails", Run: scnShareDB(pairs([]string{"a", "b"}, 1), []string{"retry", "once"}, []string{"error"}), Quick: 2, Thorough: 4},
			{Name: "share-db-3", Doc: "three commands in three processes", Run: scnShareDB(three, []string{"retry"}, nil), Quick: 2, Thorough: 3},
		},
	})
	add(&explore.Property{
		ID: "C11", Title: "runs are isolated from each other",
		Rule:        "pairs of runs with every combination of eleven per-run options, four command forms, 0-4 engine-level callbacks and outcomes, one after the other, nested at three places, and concurrently with every interleaving up to the deviation bound, always followed by a run without options; up to 130 runs of two kinds one after the other",
		Assumptions: []string{"scheduling points are the calls the engine makes to its backends and callbacks; code between two of them is treated as atomic"},
		Scenarios: []*explore.Scenario{
			{Name: "iso-seq", Doc: "sequential and nested runs, all options", Run: scnConc(concSpec{mode: []string{"seq", "main", "end", "post"}, hooks: []int{0, 1, 2, 3, 4}, optsA: cOpts, optsB: cOpts, forms: []string{"main"}}), Thorough: 1},
			{Name: "iso-forms", Doc: "all forms and outcomes", Run: scnConc(concSpec{mode: []string{"seq", "main", "end", "post", "conc"}, hooks: []int{0, 1, 3}, optsA: []string{"none", "hook", "hooks2", "dry"}, optsB: []string{"none", "hook", "hooks2", "recursive"}, forms: []string{"fn", "main", "cmd", "stage"}, ends: []string{"", "Aerror", "Abreak", "Apanic", "Berror", "Bbreak", "Bpanic"}}), Thorough: 1},
			{Name: "iso-conc", Doc: "concurrent runs, all options", Run: scnConc(concSpec{mode: []string{"conc"}, hooks: []int{3}, optsA: cOpts, optsB: cOpts, forms: []string{"main"}}), Quick: 2, Thorough: 3},
			{Name: "iso-conc-hooks", Doc: "concurrent runs with callbacks", Run: scnConc(concSpec{mode: []string{"conc"}, hooks: []int{0, 1, 2, 3, 4, 5}, optsA: []string{"none", "hook", "hooks2"}, optsB: []string{"none", "hook"}, forms: []string{"main", "cmd"}, formsB: []string{"fn", "main"}}), Quick: 2, Thorough: 4},
			{Name: "iso-engines", Doc: "commands of up to three engines with executors of their own, or of one engine, inside one another", Run: scnTwoEngines},
			{Name: "iso-conc-3", Doc: "three concurrent runs with callbacks", Run: scnConc(concSpec{mode: []string{"conc"}, hooks: []int{1, 3}, optsA: []string{"none", "hook"}, optsB: []string{"hook", "dry"}, forms: []string{"main"}, three: true}), Quick: 2, Thorough: 3},
		},
	})
}
