package checks

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	exmysql "github.com/bytedance/dddfirework/executor/mysql"
	gosql "github.com/go-sql-driver/mysql"

	"verif/mc/explore"
	"verif/mc/memsql"
	"verif/mc/world"
)

// This file runs the engine programs through the MySQL executor over the
// modelled database.  The in-memory executor runs along as the reference: both
// get every call and have to agree.

var sqlTables = map[string]string{"Root": "roots", "Alt": "alts", "Kid": "kids", "Sub": "subs", "Solo": "solos", "Tag": "tags"}

func (*RootPO) TableName() string  { return "roots" }
func (*AltPO) TableName() string   { return "alts" }
func (*KidPO) TableName() string   { return "kids" }
func (*SubPO) TableName() string   { return "subs" }
func (*SoloPO) TableName() string  { return "solos" }
func (*TagPO) TableName() string   { return "tags" }
func (*EventPO) TableName() string { return "evts" }

func engModels() []exmysql.IModel {
	return []exmysql.IModel{&RootPO{}, &AltPO{}, &KidPO{}, &SubPO{}, &SoloPO{}, &TagPO{}}
}

type econv struct{}

func (econv) Entity2Model(ent, parent ddd.IEntity, op ddd.OpType) (exmysql.IModel, error) {
	m, _ := modelOf(ent.(cored), parent).(exmysql.IModel)
	return m, nil
}

func (econv) Model2Entity(po exmysql.IModel, ent ddd.IEntity) error {
	b, c := po.(based).get(), ent.(cored).base()
	c.SetID(b.ID)
	c.A, c.B = b.A, b.B
	return nil
}

func init() {
	for _, e := range []ddd.IEntity{&Root{}, &Alt{}, &Kid{}, &Sub{}, &Solo{}, &Tag{}} {
		exmysql.RegisterConverter(e, econv{})
	}
}

type sexec struct {
	*eexec
	in         *exmysql.Executor
	w          *world.World
	commitFail bool // a commit failed: it may have taken effect
	cancelled  bool
}

// withSQL runs f inside a world when the configuration asks for the database.
func withSQL(x *explore.X, cfg ecfg, f func(w *world.World)) {
	if !cfg.sql {
		f(nil)
		return
	}
	warm()
	world.Run(x, world.Config{}, func(w *world.World) {
		for _, m := range engModels() {
			w.AddModels(m)
		}
		w.Setup(func() { f(w) })
	})
}

// attach makes the engine use the database; call it after seeding.
func (h *eh) attach(w *world.World) {
	if w == nil {
		return
	}
	for _, k := range h.st.order {
		r := h.st.rows[k]
		w.DB.Put(sqlTables[r.typ], map[string]memsql.Value{"id": r.id, "parent": r.parent, "a": int64(r.a), "b": int64(r.b)})
	}
	p := w.NewProc("P")
	h.sql = &sexec{eexec: &eexec{h}, in: exmysql.NewExecutor(p.DB), w: w}
}

// dbRows reads the tables.
func (s *sexec) dbRows() map[string]row {
	m := map[string]row{}
	for t, n := range sqlTables {
		for _, r := range s.w.DB.Rows(n) {
			a, _ := r["a"].(int64)
			b, _ := r["b"].(int64)
			x := row{t, fmt.Sprint(r["id"]), fmt.Sprint(r["parent"]), int(a), int(b)}
			m[x.key()] = x
		}
	}
	return m
}

// sqlSame compares the tables with the reference storage.
func (h *eh) sqlSame() {
	if h.sql == nil || h.bad {
		return
	}
	if d := diffRows(h.sql.dbRows(), h.st.rows); d != "" {
		h.fail("sql-storage", "the tables: %s", d)
	}
}

// broken turns a failure of the database into an injected one.
func (s *sexec) broken(at string, err error) error {
	if err == nil {
		return err
	}
	mine := errors.Is(err, gosql.ErrInvalidConn) || s.cancelled
	for _, k := range world.Kinds {
		mine = mine || errors.Is(err, k)
	}
	if !mine {
		return err
	}
	f := &injected{n: len(s.h.inj) + 1, at: at, kind: "error"}
	s.h.inj = append(s.h.inj, f)
	return fmt.Errorf("%w: %w", f, err)
}

func (s *sexec) Begin(ctx context.Context) (context.Context, error) {
	c, err := s.in.Begin(ctx)
	err = s.broken("begin", err)
	if err != nil {
		s.h.rec(ecall{what: "begin", err: err})
		return c, err
	}
	return s.eexec.Begin(c)
}

func (s *sexec) Commit(ctx context.Context) error {
	if err := s.broken("commit", s.in.Commit(ctx)); err != nil {
		if t := s.tx(ctx); t != nil {
			t.ended = true
			t.commits++
		}
		s.commitFail = true
		s.h.rec(ecall{what: "commit", err: err, tx: s.tx(ctx)})
		return err
	}
	return s.eexec.Commit(ctx)
}

func (s *sexec) RollBack(ctx context.Context) error {
	err := s.in.RollBack(ctx)
	if e := s.eexec.RollBack(ctx); e != nil {
		return e
	}
	return err
}

func (s *sexec) Entity2Model(ent, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	return s.in.Entity2Model(ent, parent, op)
}

func (s *sexec) Model2Entity(m ddd.IModel, ent ddd.IEntity) error {
	if err := s.in.Model2Entity(m, ent); err != nil {
		return err
	}
	if c := ent.(cored).base(); c.m == nil {
		s.h.name(ent, ent.GetID())
	}
	return nil
}

func (s *sexec) Exec(ctx context.Context, a *ddd.Action) error {
	if a.Op != ddd.OpQuery {
		if err := s.broken("exec", s.in.Exec(ctx, a)); err != nil {
			s.h.rec(ecall{what: "exec", arg: fmt.Sprint("failed ", a.Op), err: err, tx: s.tx(ctx), ptr: a})
			return err
		}
		return s.eexec.Exec(ctx, a)
	}
	if err := s.broken("exec", s.in.Exec(ctx, a)); err != nil {
		return err
	}
	ref := *a
	ref.QueryResult = reflect.New(reflect.TypeOf(a.QueryResult).Elem()).Interface()
	if err := s.eexec.Exec(ctx, &ref); err != nil {
		return err
	}
	if g, w := modelList(a.QueryResult), modelList(ref.QueryResult); g != w {
		s.h.fail("sql-query", "a query for %+v found [%s] instead of [%s]", a.Query, g, w)
	}
	return nil
}

func modelList(p interface{}) string {
	v := reflect.ValueOf(p).Elem()
	var l []string
	for i := 0; i < v.Len(); i++ {
		m := v.Index(i).Interface()
		l = append(l, fmt.Sprint(typOf(m), *m.(based).get()))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// scnSQLFault runs the representative programs over the database while its
// statements, transaction starts and commits fail, user code fails and the
// caller's context is cancelled.
func scnSQLFault(cfg ecfg, forms, prgs []string) func(x *explore.X) {
	return scnSQLProg(cfg, forms, func(x *explore.X, h *eh) eprog { return pickProg(x, prgs) })
}

// scnSQLMass does the same with changes of many entities at once.
func scnSQLMass(cfg ecfg, forms []string, sizes []int) func(x *explore.X) {
	return scnSQLProg(cfg, forms, func(x *explore.X, h *eh) eprog {
		n := pickSize(x, sizes)
		deep := x.Pick("level", 2) == 1
		kind := x.Pick("change", 9)
		h.st.put(row{"Root", "many", "", 1, 2})
		h.st.put(row{"Kid", "mk", "many", 3, 4})
		for i := 0; i < n; i++ {
			if deep {
				h.st.put(row{"Sub", fmt.Sprintf("m%04d", i), "mk", 5, 6})
			} else if i > 0 {
				h.st.put(row{"Kid", fmt.Sprintf("m%04d", i), "many", 5, 6})
			}
		}
		return eprog{"mass", []string{"many"}, nil, func(ctx context.Context, c *erun) error {
			c.mass(n, kind, deep)
			if c.repo == nil {
				return nil
			}
			if err := c.save(ctx); err != nil {
				return err
			}
			if err := c.h.user("main", c.name); err != nil {
				return err
			}
			r := c.newRoot("late", "late")
			for i := 0; i < n; i++ {
				r.Kids = append(r.Kids, c.newKid(fmt.Sprint("late", i), ""))
			}
			c.add(r)
			return nil
		}}
	})
}

func scnSQLProg(cfg ecfg, forms []string, prog func(x *explore.X, h *eh) eprog) func(x *explore.X) {
	return func(x *explore.X) {
		warm()
		wc := world.Config{Faults: true, CommitFaults: true, Begins: true}
		if cfg.sqlKinds {
			wc.Kinds = world.Kinds
		}
		world.Run(x, wc, func(w *world.World) {
			for _, m := range engModels() {
				w.AddModels(m)
			}
			h := newEH(x, cfg)
			h.seed()
			form := forms[x.Pick("form", len(forms))]
			prg := prog(x, h)
			h.attach(w)
			e := h.engine()
			c := &erun{h: h, r: newRef(h), form: form, obj: map[string]ddd.IEntity{}}
			c.program(prg)
			before := h.st.clone()
			p := w.Procs()[0]
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			h.cancel = func() {
				h.sql.cancelled = true
				cancel()
				p.Point("cancelled")
			}
			p.Go("run", func() { c.exec(ctx, e) })
			w.Loop(time.Hour, func() bool { return w.Tasks() == 0 })
			if w.Tasks() > 0 {
				h.fail("stuck", "the command did not return")
				return
			}
			c.outcome(before)
			if !h.bad && c.ok() {
				c.stored()
			}
			if h.bad {
				return
			}
			got := h.sql.dbRows()
			d := diffRows(got, h.st.rows)
			if d != "" && h.sql.commitFail {
				all := before.clone()
				for _, wr := range h.txs[len(h.txs)-1].writes {
					_ = all.apply(wr)
				}
				d = diffRows(got, all.rows)
				x.Outcome("commit in doubt")
			}
			if d != "" {
				h.fail("sql-storage", "the tables (error %v): %s", c.resErr(), d)
			}
			if n := w.DB.ActiveTx(); n > 0 {
				h.fail("sql-open", "%d transactions are open after the command", n)
			}
			x.Outcome("err %v cancelled %v", c.pan != nil || c.res.Error != nil, h.sql.cancelled)
		})
	}
}
