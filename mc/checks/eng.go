package checks

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	"gorm.io/gorm"

	"verif/mc/explore"
)

// This file closes the command engine with in-memory backends (executor, lock,
// event bus, ID generator, event store) whose every call is recorded and can be
// made to fail, and with entities of three levels whose hooks are recorded and
// can fail too.

// ---- entities

type emeta struct {
	h     *eh
	label string
	self  ddd.IEntity
}

type core struct {
	ddd.BaseEntity
	m    *emeta
	A, B int
}

func (c *core) base() *core { return c }

type cored interface {
	ddd.IEntity
	base() *core
	AddEvent(evt ddd.IEvent, opts ...ddd.EventOpt)
}

func (c *core) BeforeCreate(ctx context.Context) error { return c.hook("BeforeCreate") }
func (c *core) AfterCreate(ctx context.Context) error  { return c.hook("AfterCreate") }
func (c *core) BeforeUpdate(ctx context.Context) error { return c.hook("BeforeUpdate") }
func (c *core) AfterUpdate(ctx context.Context) error  { return c.hook("AfterUpdate") }
func (c *core) BeforeDelete(ctx context.Context) error { return c.hook("BeforeDelete") }
func (c *core) AfterDelete(ctx context.Context) error  { return c.hook("AfterDelete") }

func (c *core) hook(k string) error {
	if c.m == nil {
		return nil
	}
	return c.m.h.hook(c, k)
}

// Root is an aggregate root found by reflection: slice, pointer and map children.
type Root struct {
	core
	Kids []*Kid
	Solo *Solo
	Tags map[string]*Tag
	Memo *Memo
}

// Alt is a root that lists its children itself.
type Alt struct {
	core
	kids []*Kid
}

func (a *Alt) GetChildren() map[string][]ddd.IEntity {
	l := []ddd.IEntity{}
	for _, k := range a.kids {
		l = append(l, k)
	}
	return map[string][]ddd.IEntity{"kids": l}
}

type Kid struct {
	core
	Subs []*Sub
}
type Sub struct{ core }
type Solo struct{ core }
type Tag struct{ core }

// Memo is not known to the executor; what lies below it is.
type Memo struct {
	core
	Subs []*Sub
}

// ---- models

type BasePO struct {
	ID     string `gorm:"primaryKey;size:32"`
	Parent string
	A, B   int
}

func (b *BasePO) GetID() string { return b.ID }
func (b *BasePO) get() *BasePO  { return b }

type based interface {
	ddd.IModel
	get() *BasePO
}

type RootPO struct{ BasePO }
type AltPO struct{ BasePO }
type KidPO struct{ BasePO }
type SubPO struct{ BasePO }
type SoloPO struct{ BasePO }
type TagPO struct{ BasePO }
type MixPO struct{ BasePO }
type EventPO struct {
	BasePO
	Evt *ddd.DomainEvent
}

// GetID is empty, as that of a model whose key the database generates.
func (e *EventPO) GetID() string { return "" }

func typOf(m interface{}) string {
	s := fmt.Sprintf("%T", m)
	s = s[strings.LastIndexByte(s, '.')+1:]
	return strings.TrimSuffix(s, "PO")
}

// ---- storage

type row struct {
	typ, id, parent string
	a, b            int
}

func (r row) key() string { return r.typ + "/" + r.id }

type store struct {
	rows  map[string]row
	order []string
	evts  []*ddd.DomainEvent
}

func (s *store) clone() *store {
	n := &store{rows: make(map[string]row, len(s.rows)+4), order: append([]string{}, s.order...), evts: append([]*ddd.DomainEvent{}, s.evts...)}
	for k, v := range s.rows {
		n.rows[k] = v
	}
	return n
}

func (s *store) put(r row) {
	if _, in := s.rows[r.key()]; !in {
		s.order = append(s.order, r.key())
	}
	s.rows[r.key()] = r
}

func (s *store) del(k string) {
	if _, in := s.rows[k]; !in {
		return
	}
	delete(s.rows, k)
	for i, o := range s.order {
		if o == k {
			s.order = append(append([]string{}, s.order[:i]...), s.order[i+1:]...)
			break
		}
	}
}

func (s *store) String() string {
	var l []string
	for _, r := range s.rows {
		l = append(l, fmt.Sprintf("%s<%s a%d b%d", r.key(), r.parent, r.a, r.b))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// diffRows explains how two row sets differ, "" if they do not.
func diffRows(got, want map[string]row) string {
	var l []string
	for k, w := range want {
		g, in := got[k]
		if !in {
			l = append(l, "missing "+k)
		} else if g != w {
			l = append(l, fmt.Sprintf("%s is {parent %s a %d b %d} instead of {parent %s a %d b %d}", k, g.parent, g.a, g.b, w.parent, w.a, w.b))
		}
	}
	for k := range got {
		if _, in := want[k]; !in {
			l = append(l, "unexpected "+k)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

type wr struct {
	op   ddd.OpType
	r    row
	cols [3]bool // update: parent, a, b
	evt  *ddd.DomainEvent
}

func (s *store) apply(w wr) error {
	switch w.op {
	case ddd.OpInsert:
		if w.evt != nil {
			s.evts = append(s.evts, w.evt)
			return nil
		}
		if _, in := s.rows[w.r.key()]; in {
			return fmt.Errorf("duplicate key %s", w.r.key())
		}
		s.put(w.r)
	case ddd.OpUpdate:
		o, in := s.rows[w.r.key()]
		if !in {
			return nil
		}
		if w.cols[0] {
			o.parent = w.r.parent
		}
		if w.cols[1] {
			o.a = w.r.a
		}
		if w.cols[2] {
			o.b = w.r.b
		}
		s.put(o)
	case ddd.OpDelete:
		s.del(w.r.key())
	}
	return nil
}

// etx is a transaction: a private copy plus what it wrote.
type etx struct {
	n         int
	view      *store
	writes    []wr
	commits   int // Commit calls
	rollbacks int
	committed bool
	ended     bool
}

type txKeyT struct{ h *eh }

// ---- recording

// ecall is one observed call.
type ecall struct {
	what string      // "lock", "begin", "exec", "main", "hook" ...
	arg  string      // details
	err  error       // what it returned
	ent  ddd.IEntity // hook: the entity
	evts []*ddd.DomainEvent
	obj  interface{} // lock: the lock handed out / given back
	run  *erun
	tx   *etx
	ptr  interface{}
	sum  string
}

type injected struct {
	n    int
	at   string
	kind string
	as   error // a well-known error it is an instance of
	raw  bool  // hand out the well-known error itself
}

func (e *injected) Error() string { return fmt.Sprintf("injected failure %d at %s", e.n, e.at) }
func (e *injected) Unwrap() error { return e.as }

// err is the error the failing call returns, or panics with.
func (e *injected) err() error {
	if e.raw {
		return e.as
	}
	return e
}

// knownErrs are errors a caller or the engine may treat in a special way
// somewhere; a failure stays a failure whichever error it is reported with.
var knownErrs = []error{
	context.Canceled, context.DeadlineExceeded, ddd.ErrEntityNotFound, ddd.ErrEntityLocked, ddd.ErrEntityRepeated,
	ddd.ErrNoEventBusFound, ddd.ErrEntityNotRegister, ddd.ErrBreak, gorm.ErrRecordNotFound, gorm.ErrDuplicatedKey, gorm.ErrInvalidTransaction,
	sql.ErrNoRows, sql.ErrTxDone, sql.ErrConnDone, driver.ErrBadConn, io.EOF, net.ErrClosed, io.ErrUnexpectedEOF,
}

// errFits tells where a well-known error is a failure and nothing else.
func errFits(what string, as error) bool {
	switch what {
	case "query", "entity2model", "model2entity":
		return as != ddd.ErrEntityNotFound && as != ddd.ErrEntityNotRegister && as != ddd.ErrBreak
	case "hook":
		return true
	}
	return as != ddd.ErrBreak
}

type ecfg struct {
	noTx, recursive, dry bool
	dryPerRun            bool
	bus                  string // "", "plain", "tx"
	persist              bool
	faults               bool
	faultAt              func(what string) bool
	hookFaults           bool
	hookWrites           bool // before-hooks change the entity
	hookEvents           bool // hooks raise events
	wrapErr              bool
	opts                 []ddd.Option
	sched                func(what string) // scheduling point
	names                bool
	cancel               bool // the caller's context may be cancelled
	picky                bool // calls fail when the caller's context has ended
	alike                bool // entities of different types have the same IDs
	memo                 bool // an entity that is not stored has stored children
	sqlKinds             bool // statements fail in every way
	kinds                bool // failures are instances of well-known errors
	panics               bool // backends and conversions panic, too
	ownIDs               bool // the engine's own ID generator
	outs                 bool // commands set outputs
	sql                  bool // MySQL executor over the modelled database
}

// eh is the harness of one execution.
type eh struct {
	x         *explore.X
	cfg       ecfg
	st        *store
	calls     []ecall
	inj       []*injected
	ids       int
	txs       []*etx
	locks     int
	ents      map[ddd.IEntity]string
	run       *erun
	bad       bool
	bus       ddd.IEventBus
	lock      ddd.ILock
	eng       *ddd.Engine
	raised    []*ddd.DomainEvent
	onHook    func(c *core, k string)
	curRun    func() *erun
	tick      time.Duration
	owner     map[string]ddd.IEntity
	asRaised  map[string]*ddd.DomainEvent
	sql       *sexec
	cancel    func()
	ctx       context.Context // the caller's, when it may end
	as        error
	raw       bool
	badUnlock string // a release was given a cancelled context
}

func newEH(x *explore.X, cfg ecfg) *eh {
	h := &eh{x: x, cfg: cfg, st: &store{rows: map[string]row{}}, ents: map[ddd.IEntity]string{}, owner: map[string]ddd.IEntity{}, asRaised: map[string]*ddd.DomainEvent{}}
	h.lock = &elock{h}
	if cfg.kinds {
		h.as = knownErrs[x.Pick("error", len(knownErrs))]
		h.raw = x.Pick("wrapped", 2) == 0
	}
	switch cfg.bus {
	case "plain":
		h.bus = &ebus{h: h}
	case "tx":
		h.bus = &etxbus{ebus{h: h}}
	}
	return h
}

// engine builds the engine under test.
func (h *eh) engine(extra ...ddd.Option) *ddd.Engine {
	opts := []ddd.Option{ddd.WithLogger(discard)}
	if !h.cfg.ownIDs {
		opts = append(opts, ddd.WithIDGenerator(&eids{h}))
	}
	if h.cfg.noTx {
		opts = append(opts, ddd.WithoutTransaction)
	}
	if h.cfg.recursive {
		opts = append(opts, ddd.WithRecursiveDelete)
	}
	if h.cfg.dry && !h.cfg.dryPerRun {
		opts = append(opts, ddd.WithDryRun)
	}
	if h.bus != nil {
		opts = append(opts, ddd.WithEventBus(h.bus))
	}
	if h.cfg.persist {
		opts = append(opts, ddd.WithEventPersist(h.eventPersist))
	}
	opts = append(opts, h.cfg.opts...)
	opts = append(opts, extra...)
	var ex ddd.IExecutor = &eexec{h}
	if h.sql != nil {
		ex = h.sql
	}
	h.eng = ddd.NewEngine(h.lock, ex, opts...)
	return h.eng
}

// runOpts are the options given to a single run.
func (h *eh) runOpts() []ddd.Option {
	if h.cfg.dry && h.cfg.dryPerRun {
		return []ddd.Option{ddd.WithDryRun}
	}
	return nil
}

func (h *eh) fail(sig, f string, a ...interface{}) {
	if !h.bad {
		h.x.Failf(sig, f, a...)
	}
	h.bad = true
}

func (h *eh) rec(c ecall) {
	if h.curRun != nil {
		c.run = h.curRun()
	} else {
		c.run = h.run
	}
	if h.x.Tracing {
		e := ""
		if c.err != nil {
			e = " -> " + c.err.Error()
		}
		h.x.Tracef("%s %s%s", c.what, c.arg, e)
	}
	h.calls = append(h.calls, c)
}

// at is a point where something may fail; the alternatives are names of
// failures, each costing one deviation.
func (h *eh) at(what, detail string, alts ...string) *injected {
	if h.cfg.sched != nil {
		h.cfg.sched(what + " " + detail)
	}
	if h.cfg.picky && h.ctx != nil && h.ctx.Err() != nil && pickyAt[what] {
		f := &injected{n: len(h.inj) + 1, at: what + " " + detail, kind: "error", as: h.ctx.Err(), raw: true}
		h.inj = append(h.inj, f)
		return f
	}
	if !h.cfg.faults || h.x.Budget() <= 0 || (h.cfg.faultAt != nil && !h.cfg.faultAt(what)) {
		return nil
	}
	if h.cfg.cancel && !h.cfg.sql && h.cancel != nil {
		alts = append(alts[:len(alts):len(alts)], "cancel")
	}
	extra := h.cfg.panics && panicky[what]
	if extra {
		alts = append(alts[:len(alts):len(alts)], "panic")
	}
	costs := make([]int, len(alts)+1)
	for i := range alts {
		costs[i+1] = 1
	}
	label := "fault"
	if h.x.Tracing {
		label = "fault at " + what + " " + detail
	}
	c := h.x.Choose(label, costs...)
	if c == 0 {
		return nil
	}
	if alts[c-1] == "cancel" && !h.cfg.sql {
		h.rec(ecall{what: "cancel"})
		h.cancel()
		h.cancel = nil
		return nil
	}
	f := &injected{n: len(h.inj) + 1, at: what + " " + detail, kind: alts[c-1]}
	if h.as != nil && (f.kind == "error" && errFits(what, h.as) || f.kind == "panic") {
		f.as, f.raw = h.as, h.raw
	}
	h.inj = append(h.inj, f)
	if extra && f.kind == "panic" && what != "unlock" {
		h.rec(ecall{what: what, arg: detail, err: f.err()})
		panic(f.err())
	}
	return f
}

// pickyAt are the calls that fail once the context they are given has ended,
// as those of database/sql do.
var pickyAt = map[string]bool{"lock": true, "begin": true, "exec": true, "query": true, "commit": true}

// endable is a context that ends when the exploration says so.
type endable struct {
	context.Context
	done chan struct{}
	why  error
	err  error
}

func (c *endable) Done() <-chan struct{} { return c.done }
func (c *endable) Err() error            { return c.err }
func (c *endable) end()                  { c.err = c.why; close(c.done) }

// panicky are the backends and conversions that panic only when asked to.
var panicky = map[string]bool{"lock": true, "unlock": true, "begin": true, "exec": true, "query": true, "entity2model": true, "model2entity": true, "eventpersist": true, "newid": true}

// user is a point in user code: it may return an error, ask for a break or panic.
func (h *eh) user(what, detail string) error {
	alts := []string{"error", "break", "panic"}
	if h.cfg.cancel && h.cfg.sql {
		alts = append(alts, "cancel")
	}
	f := h.at(what, detail, alts...)
	h.rec(ecall{what: what, arg: detail})
	if f != nil && f.kind == "cancel" {
		h.inj = h.inj[:len(h.inj)-1]
		h.cancel()
		return nil
	}
	if f == nil {
		return nil
	}
	switch f.kind {
	case "panic":
		panic(f.err())
	case "break":
		if f.n%2 == 0 {
			return ddd.ErrBreak
		}
		return fmt.Errorf("stop here: %w", ddd.ErrBreak)
	}
	return f.err()
}

// ---- backends

type eexec struct{ h *eh }

func (e *eexec) Begin(ctx context.Context) (context.Context, error) {
	if f := e.h.at("begin", "", "error"); f != nil {
		e.h.rec(ecall{what: "begin", err: f.err()})
		return ctx, f.err()
	}
	t := &etx{n: len(e.h.txs) + 1, view: e.h.st.clone()}
	e.h.txs = append(e.h.txs, t)
	e.h.rec(ecall{what: "begin", tx: t})
	return context.WithValue(ctx, txKeyT{e.h}, t), nil
}

func (e *eexec) tx(ctx context.Context) *etx {
	t, _ := ctx.Value(txKeyT{e.h}).(*etx)
	return t
}

func (e *eexec) Commit(ctx context.Context) error {
	h := e.h
	t := e.tx(ctx)
	if t == nil {
		h.fail("no-tx", "commit without the transaction's context")
		return errors.New("no transaction")
	}
	t.commits++
	if f := h.at("commit", "", "error"); f != nil {
		t.ended = true
		h.rec(ecall{what: "commit", err: f.err(), tx: t})
		return f.err()
	}
	if t.ended {
		err := errors.New("transaction has already ended")
		h.rec(ecall{what: "commit", err: err, tx: t})
		return err
	}
	t.ended = true
	s := h.st.clone()
	for _, w := range t.writes {
		if err := s.apply(w); err != nil {
			h.rec(ecall{what: "commit", err: err, tx: t})
			return err
		}
	}
	h.st = s
	t.committed = true
	h.rec(ecall{what: "commit", tx: t})
	return nil
}

func (e *eexec) RollBack(ctx context.Context) error {
	h := e.h
	t := e.tx(ctx)
	if t == nil {
		h.fail("no-tx", "rollback without the transaction's context")
		return errors.New("no transaction")
	}
	t.rollbacks++
	if f := h.at("rollback", "", "error"); f != nil {
		t.ended = true
		h.rec(ecall{what: "rollback", err: f.err(), tx: t})
		return f.err()
	}
	t.ended = true
	h.rec(ecall{what: "rollback", tx: t})
	return nil
}

func (e *eexec) notReg(ent ddd.IEntity) error {
	if e.h.cfg.wrapErr {
		return fmt.Errorf("%T: %w", ent, ddd.ErrEntityNotRegister)
	}
	return ddd.ErrEntityNotRegister
}

func (e *eexec) Entity2Model(ent, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	c, ok := ent.(cored)
	if !ok {
		return nil, e.notReg(ent)
	}
	if f := e.h.at("entity2model", "", "error"); f != nil {
		e.h.rec(ecall{what: "entity2model", err: f.err()})
		return nil, f.err()
	}
	if m := modelOf(c, parent); m != nil {
		return m, nil
	}
	return nil, e.notReg(ent)
}

// modelOf converts an entity to its model, nil when it is not stored.
func modelOf(c cored, parent ddd.IEntity) ddd.IModel {
	b := BasePO{ID: c.GetID(), A: c.base().A, B: c.base().B}
	if parent != nil {
		if _, ok := parent.(cored); ok {
			b.Parent = parent.GetID()
		}
	}
	switch c.(type) {
	case *Root:
		b.Parent = ""
		return &RootPO{b}
	case *Alt:
		b.Parent = ""
		return &AltPO{b}
	case *Kid:
		return &KidPO{b}
	case *Sub:
		return &SubPO{b}
	case *Solo:
		return &SoloPO{b}
	case *Tag:
		return &TagPO{b}
	case *Mix:
		return &MixPO{b}
	}
	return nil
}

func (e *eexec) Model2Entity(m ddd.IModel, ent ddd.IEntity) error {
	if f := e.h.at("model2entity", "", "error"); f != nil {
		e.h.rec(ecall{what: "model2entity", err: f.err()})
		return f.err()
	}
	b := m.(based).get()
	e.h.fill(ent, row{id: b.ID, parent: b.Parent, a: b.A, b: b.B})
	return nil
}

// fill loads a row into an entity and makes it known to the harness.
func (h *eh) fill(ent ddd.IEntity, r row) {
	c := ent.(cored).base()
	c.SetID(r.id)
	c.A, c.B = r.a, r.b
	if c.m == nil {
		h.name(ent, h.labelOf(ent))
	}
}

// idOf is the stored ID of a labelled entity, labelOf the reverse.
func (h *eh) idOf(label string) string {
	if h.cfg.alike && len(label) > 1 && strings.ContainsRune("rksot", rune(label[0])) && label[1] >= '0' && label[1] <= '9' {
		return label[1:]
	}
	return label
}

func (h *eh) labelOf(e ddd.IEntity) string {
	id := e.GetID()
	if l := map[string]string{"Root": "r", "Alt": "r", "Kid": "k", "Sub": "s", "Solo": "o", "Tag": "t"}[typeName(e)]; h.cfg.alike && id != "" && id[0] >= '0' && id[0] <= '9' {
		return l + id
	}
	return id
}

func (h *eh) name(ent ddd.IEntity, label string) {
	ent.(cored).base().m = &emeta{h, label, ent}
	h.ents[ent] = label
}

func (e *eexec) Exec(ctx context.Context, a *ddd.Action) error {
	h := e.h
	var view *store
	t := e.tx(ctx)
	if t != nil {
		view = t.view
	} else {
		view = h.st
	}
	if a.Op == ddd.OpQuery {
		return e.query(view, a)
	}
	op := map[ddd.OpType]string{ddd.OpInsert: "insert", ddd.OpUpdate: "update", ddd.OpDelete: "delete"}[a.Op]
	if op == "" || len(a.Models) == 0 {
		h.fail("bad-action", "the executor got an action with operation %d and %d models", a.Op, len(a.Models))
		return errors.New("bad action")
	}
	detail := op + " " + typOf(a.Models[0])
	for _, m := range a.Models {
		detail += " " + m.GetID()
	}
	if t == nil && !h.cfg.noTx {
		h.fail("outside-tx", "%s outside of the command's transaction", detail)
	}
	if t != nil && t.ended {
		h.fail("after-tx", "%s after the transaction ended", detail)
	}
	if f := h.at("exec", detail, "error"); f != nil {
		h.rec(ecall{what: "exec", arg: detail, err: f.err(), tx: t, ptr: a})
		return f.err()
	}
	var ws []wr
	for i, m := range a.Models {
		if typOf(m) != typOf(a.Models[0]) {
			h.fail("mixed-batch", "one action contains models %T and %T", a.Models[0], m)
		}
		if ev, ok := m.(*EventPO); ok {
			ws = append(ws, wr{op: a.Op, evt: ev.Evt})
			continue
		}
		b := m.(based).get()
		w := wr{op: a.Op, r: row{typOf(m), b.ID, b.Parent, b.A, b.B}, cols: [3]bool{true, true, true}}
		if a.Op == ddd.OpUpdate {
			if len(a.PrevModels) != len(a.Models) {
				h.fail("prev-models", "an update has %d models and %d previous models", len(a.Models), len(a.PrevModels))
			} else if a.PrevModels[i] != nil {
				p, ok := a.PrevModels[i].(based)
				if !ok || typOf(p) != typOf(m) || p.GetID() != m.GetID() {
					h.fail("prev-models", "the previous model of %s %s is %T %v", typOf(m), m.GetID(), a.PrevModels[i], a.PrevModels[i])
				} else {
					w.cols = [3]bool{p.get().Parent != b.Parent, p.get().A != b.A, p.get().B != b.B}
				}
			}
		}
		ws = append(ws, w)
	}
	var err error
	for _, w := range ws {
		if err = view.apply(w); err != nil {
			break
		}
		if t != nil {
			t.writes = append(t.writes, w)
		}
	}
	h.rec(ecall{what: "exec", arg: detail, err: err, tx: t, ptr: a})
	return err
}

func (e *eexec) query(view *store, a *ddd.Action) error {
	h := e.h
	q := a.Query.(based).get()
	typ := typOf(a.Query)
	if f := h.at("query", typ, "error"); f != nil {
		h.rec(ecall{what: "query", arg: typ, err: f.err()})
		return f.err()
	}
	var rs []row
	for _, k := range view.order {
		r := view.rows[k]
		if r.typ != typ || q.ID != "" && q.ID != r.id || q.Parent != "" && q.Parent != r.parent || q.A != 0 && q.A != r.a || q.B != 0 && q.B != r.b {
			continue
		}
		rs = append(rs, r)
	}
	b := func(r row) BasePO { return BasePO{r.id, r.parent, r.a, r.b} }
	switch p := a.QueryResult.(type) {
	case *[]*RootPO:
		for _, r := range rs {
			*p = append(*p, &RootPO{b(r)})
		}
	case *[]*AltPO:
		for _, r := range rs {
			*p = append(*p, &AltPO{b(r)})
		}
	case *[]*KidPO:
		for _, r := range rs {
			*p = append(*p, &KidPO{b(r)})
		}
	case *[]*SubPO:
		for _, r := range rs {
			*p = append(*p, &SubPO{b(r)})
		}
	case *[]*SoloPO:
		for _, r := range rs {
			*p = append(*p, &SoloPO{b(r)})
		}
	case *[]*TagPO:
		for _, r := range rs {
			*p = append(*p, &TagPO{b(r)})
		}
	default:
		h.fail("bad-query", "query result of type %T", a.QueryResult)
	}
	return nil
}

func (h *eh) eventPersist(evt *ddd.DomainEvent) (ddd.IModel, error) {
	if f := h.at("eventpersist", "", "error"); f != nil {
		h.rec(ecall{what: "eventpersist", err: f.err()})
		return nil, f.err()
	}
	return &EventPO{BasePO{ID: evt.ID}, evt}, nil
}

type eids struct{ h *eh }

func (e *eids) NewID() (string, error) {
	if f := e.h.at("newid", "", "error"); f != nil {
		e.h.rec(ecall{what: "newid", err: f.err()})
		return "", f.err()
	}
	e.h.ids++
	return fmt.Sprintf("new%d", e.h.ids), nil
}

type elock struct{ h *eh }

type elk struct {
	key      string
	n        int
	released int
}

func (l *elock) Lock(ctx context.Context, key string) (interface{}, error) {
	h := l.h
	if f := h.at("lock", key, "error", "locked"); f != nil {
		err := f.err()
		if f.kind == "locked" {
			err = ddd.ErrEntityLocked
		}
		h.rec(ecall{what: "lock", arg: key, err: err})
		return nil, err
	}
	h.locks++
	k := &elk{key: key, n: h.locks}
	h.rec(ecall{what: "lock", arg: key, obj: k})
	return k, nil
}

func (l *elock) UnLock(ctx context.Context, v interface{}) error {
	h := l.h
	k, ok := v.(*elk)
	if !ok {
		h.fail("unlock-unknown", "unlock of %v, which no lock call returned", v)
		return errors.New("unknown lock")
	}
	k.released++
	var err error
	if f := h.at("unlock", k.key, "error"); f != nil {
		err = f.err()
	} else if ctx.Err() != nil {
		// the shipped locks cannot release anything either then
		h.badUnlock = k.key
		err = ctx.Err()
	}
	h.rec(ecall{what: "unlock", arg: k.key, obj: k, err: err})
	if err != nil && len(h.inj) > 0 && h.inj[len(h.inj)-1].kind == "panic" && h.inj[len(h.inj)-1].err() == err {
		panic(err)
	}
	return err
}

type ebus struct {
	h  *eh
	cb ddd.DomainEventHandler
}

func evNames(h *eh, evts []*ddd.DomainEvent) string {
	var l []string
	for _, e := range evts {
		l = append(l, string(e.Type)+"("+string(e.SendType)+")")
	}
	return strings.Join(l, " ")
}

func (b *ebus) RegisterEventHandler(cb ddd.DomainEventHandler) { b.cb = cb }

func (b *ebus) Dispatch(ctx context.Context, evts ...*ddd.DomainEvent) error {
	return b.h.dispatch(ctx, "dispatch", evts)
}

func (h *eh) dispatch(ctx context.Context, what string, evts []*ddd.DomainEvent) error {
	d := ""
	if h.x.Tracing {
		d = evNames(h, evts)
	}
	t, _ := ctx.Value(txKeyT{h}).(*etx)
	var err error
	f := h.at(what, d, "error", "panic")
	if f != nil && f.kind == "error" {
		err = f.err()
	}
	h.rec(ecall{what: what, arg: d, err: err, evts: append([]*ddd.DomainEvent{}, evts...), tx: t})
	if f != nil && f.kind == "panic" {
		panic(f.err())
	}
	return err
}

type etxbus struct{ ebus }

type busCtxT struct{ h *eh }

// ebegun identifies one DispatchBegin.
type ebegun struct{ n int }

func (b *etxbus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) {}

func (b *etxbus) DispatchBegin(ctx context.Context, evts ...*ddd.DomainEvent) (context.Context, error) {
	h := b.h
	if err := h.dispatch(ctx, "txbegin", evts); err != nil {
		return ctx, err
	}
	o := &ebegun{len(h.calls)}
	h.calls[len(h.calls)-1].obj = o
	return context.WithValue(ctx, busCtxT{h}, o), nil
}

func (b *etxbus) finish(ctx context.Context, what string) error {
	h := b.h
	o := ctx.Value(busCtxT{h})
	var err error
	if f := h.at(what, "", "error"); f != nil {
		err = f.err()
	}
	h.rec(ecall{what: what, obj: o, err: err})
	return err
}

func (b *etxbus) Commit(ctx context.Context) error   { return b.finish(ctx, "txcommit") }
func (b *etxbus) Rollback(ctx context.Context) error { return b.finish(ctx, "txrollback") }

// ---- hooks and events

func (h *eh) hook(c *core, k string) error {
	if _, is := c.m.self.(*Memo); is {
		return nil // not stored, so not claimed
	}
	h.rec(ecall{what: "hook", arg: k + " " + c.m.label, ent: c.m.self})
	if h.onHook != nil {
		h.onHook(c, k)
	}
	if h.cfg.hookWrites && strings.HasPrefix(k, "Before") {
		c.B += 7
	}
	if h.cfg.hookEvents {
		h.raise(c.m.self, "hook"+k+"-"+c.m.label)
	}
	if !h.cfg.hookFaults {
		return nil
	}
	f := h.at("hook", k+" "+c.m.label, "error", "panic")
	if f == nil {
		return nil
	}
	if f.kind == "panic" {
		panic(f.err())
	}
	return f.err()
}

type eevt struct {
	N    string
	From string
}

func (e *eevt) GetType() ddd.EventType { return ddd.EventType(e.N) }
func (e *eevt) GetSender() string      { return e.From }

func (h *eh) raise(ent ddd.IEntity, name string, opts ...ddd.EventOpt) *ddd.DomainEvent {
	return h.raiseEvt(ent, &eevt{N: name, From: h.label(ent)}, opts...)
}

func (h *eh) raiseEvt(ent ddd.IEntity, evt ddd.IEvent, opts ...ddd.EventOpt) *ddd.DomainEvent {
	c := ent.(cored)
	if h.tick > 0 {
		time.Sleep(h.tick)
	}
	c.AddEvent(evt, opts...)
	l := c.GetEvents()
	e := l[len(l)-1]
	h.raised = append(h.raised, e)
	h.owner[e.ID] = ent
	was := *e
	was.Payload = append([]byte{}, e.Payload...)
	h.asRaised[e.ID] = &was
	if h.x.Tracing {
		h.x.Tracef("event %q raised by %s", evt.GetType(), h.label(ent))
	}
	return e
}

func (h *eh) label(e ddd.IEntity) string {
	if l, ok := h.ents[e]; ok {
		return l
	}
	return fmt.Sprintf("%T", e)
}

// ---- trees

// kidsOf lists the persistable children of an entity in a fixed order.
func kidsOf(e ddd.IEntity) (l []ddd.IEntity) {
	switch r := e.(type) {
	case *Root:
		for _, k := range r.Kids {
			l = append(l, k)
		}
		if r.Solo != nil {
			l = append(l, r.Solo)
		}
		var ks []string
		for k := range r.Tags {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			l = append(l, r.Tags[k])
		}
		if r.Memo != nil {
			l = append(l, r.Memo)
		}
	case *Mix:
		for _, s := range mixSlots {
			l = append(l, s.get(r)...)
		}
	case *Memo:
		for _, s := range r.Subs {
			l = append(l, s)
		}
	case *Alt:
		for _, k := range r.kids {
			l = append(l, k)
		}
	case *Kid:
		for _, s := range r.Subs {
			l = append(l, s)
		}
	}
	return
}

func typeName(e ddd.IEntity) string { return typOf(e) }

func rowOf(e, parent ddd.IEntity) row {
	c := e.(cored).base()
	r := row{typ: typeName(e), id: c.GetID(), a: c.A, b: c.B}
	if parent != nil {
		r.parent = parent.GetID()
	}
	return r
}

// loadDeep reads a whole aggregate from a view without the engine.
func (h *eh) loadDeep(view *store, e ddd.IEntity) bool {
	r, in := view.rows[typeName(e)+"/"+e.GetID()]
	if !in {
		return false
	}
	h.fill(e, r)
	if p, ok := e.(*Root); ok {
		for _, k := range view.order {
			if c := view.rows[k]; c.typ == "Sub" && c.parent == "m-"+r.id {
				if p.Memo == nil {
					p.Memo = &Memo{}
					p.Memo.SetID(c.parent)
					h.name(p.Memo, c.parent)
				}
				n := &Sub{}
				h.fill(n, c)
				p.Memo.Subs = append(p.Memo.Subs, n)
			}
		}
	}
	for _, k := range view.order {
		c := view.rows[k]
		if c.parent != r.id || r.id == "" {
			continue
		}
		switch p := e.(type) {
		case *Root:
			switch c.typ {
			case "Kid":
				n := &Kid{}
				n.SetID(c.id)
				h.loadDeep(view, n)
				p.Kids = append(p.Kids, n)
			case "Solo":
				n := &Solo{}
				h.fill(n, c)
				p.Solo = n
			case "Tag":
				n := &Tag{}
				h.fill(n, c)
				if p.Tags == nil {
					p.Tags = map[string]*Tag{}
				}
				p.Tags[c.id] = n
			}
		case *Alt:
			if c.typ == "Kid" {
				n := &Kid{}
				n.SetID(c.id)
				h.loadDeep(view, n)
				p.kids = append(p.kids, n)
			}
		case *Kid:
			if c.typ == "Sub" {
				n := &Sub{}
				h.fill(n, c)
				p.Subs = append(p.Subs, n)
			}
		}
	}
	return true
}

// seed is the initial storage.
func (h *eh) seed() {
	for _, r := range []row{
		{"Root", "r1", "", 1, 1}, {"Root", "r2", "", 2, 2}, {"Root", "r4", "", 4, 4}, {"Alt", "r3", "", 3, 3},
		{"Kid", "k1", "r1", 11, 1}, {"Kid", "k2", "r1", 12, 1}, {"Kid", "k3", "r1", 13, 1}, {"Kid", "k4", "r2", 14, 2}, {"Kid", "k5", "r3", 15, 3}, {"Kid", "k6", "r4", 16, 4},
		{"Sub", "s1", "k1", 21, 1}, {"Sub", "s2", "k1", 22, 1}, {"Sub", "s3", "k2", 23, 1}, {"Sub", "s4", "k4", 24, 2},
		{"Solo", "o1", "r1", 31, 1}, {"Tag", "t1", "r1", 41, 1}, {"Tag", "t2", "r1", 42, 1}, {"Tag", "t3", "r2", 43, 2},
	} {
		r.id, r.parent = h.idOf(r.id), h.idOf(r.parent)
		h.st.put(r)
	}
	if h.cfg.memo {
		h.st.put(row{"Sub", "s8", "m-r1", 28, 1})
		h.st.put(row{"Sub", "s9", "m-r1", 29, 1})
	}
}

// phantom entities are part of the aggregate but not stored.
func phantom(e ddd.IEntity) bool { _, is := e.(*Memo); return is }

// decodeEvt returns the name an event was raised with.
func decodeEvt(e *ddd.DomainEvent) string {
	var v eevt
	_ = json.Unmarshal(e.Payload, &v)
	return v.N
}
