package checks

import (
	"context"
	"errors"
	"fmt"
	"strings"

	ddd "github.com/bytedance/dddfirework"

	"verif/mc/explore"
	"verif/mc/world"
)

// wantsError says why the run has to fail, "" if it has to succeed (unless
// something failed).
func (c *erun) wantsError() string {
	if c.r.misuse != "" {
		return c.r.misuse
	}
	return c.final.bad
}

// settle compares the outcome of a run in which nothing was made to fail, and
// moves the reference to the committed state.
func (c *erun) settle(before *store) {
	h := c.h
	if h.bad {
		return
	}
	h.sqlSame()
	if c.pan != nil {
		h.fail("panic", "the command panicked: %v", c.pan)
		return
	}
	if bad := c.wantsError(); bad != "" || c.err != nil {
		if bad == "" {
			h.fail("unexpected-error", "an operation failed: %v", c.err)
			return
		}
		if c.res.Error == nil {
			h.fail("misuse-accepted", "the command succeeded although: %s", bad)
			return
		}
		if d := diffRows(h.st.rows, before.rows); d != "" {
			h.fail("failed-but-stored", "the command failed (%v) but changed storage: %s", c.res.Error, d)
		}
		h.x.Outcome("misuse")
		return
	}
	if c.res.Error != nil || c.res.Break {
		h.fail("unexpected-error", "the command failed: %v (break %v)", c.res.Error, c.res.Break)
		return
	}
	c.r.saved(c.final, h.st)
	if d := diffRows(h.st.rows, c.r.rows); d != "" {
		h.fail("storage", "storage after the command: %s", d)
	}
	h.x.StepStr(h.st.String())
	h.x.Outcome("%d/%d/%d", len(c.final.ins), len(c.final.upd), len(c.final.del))
}

// prelude loads some aggregates.
func (c *erun) prelude(ctx context.Context, menu []string) error {
	switch menu[c.h.x.Pick("prelude", len(menu))] {
	case "r1":
		return c.custom(ctx, "r1")
	case "r1r2":
		return c.custom(ctx, "r1", "r2")
	case "r1+r2":
		if err := c.custom(ctx, "r1"); err != nil {
			return err
		}
		return c.get(ctx, "r2")
	case "r1r3":
		return c.custom(ctx, "r1", "r3")
	case "get":
		if err := c.get(ctx, "r1"); err != nil {
			return err
		}
		return c.get(ctx, "r2")
	}
	return nil
}

type stateSpec struct {
	cfg      ecfg
	form     string
	prelude  []string
	depth    int
	opts     menuOpts
	runs     int
	thorough int // extra depth
}

func depthOf(x *explore.X, d, extra int) int {
	if x.Bound() > 0 {
		return d + extra
	}
	return d
}

func scnState(sp stateSpec) func(x *explore.X) {
	return func(x *explore.X) {
		cfg := sp.cfg
		withSQL(x, cfg, func(w *world.World) { sp.run(x, cfg, w) })
	}
}

func (sp stateSpec) run(x *explore.X, cfg ecfg, w *world.World) {
	{
		h := newEH(x, cfg)
		h.seed()
		h.attach(w)
		e := h.engine()
		runs := max(1, sp.runs)
		for i := 0; i < runs && !h.bad; i++ {
			c := &erun{h: h, r: newRef(h), form: sp.form, obj: map[string]ddd.IEntity{}}
			before := h.st.clone()
			depth := depthOf(x, sp.depth, sp.thorough)
			pre := sp.prelude
			if pre == nil {
				pre = []string{""}
			}
			if sp.form == "cmd" || sp.form == "cmd-old" {
				c.load = func(ctx context.Context, c *erun) error {
					for _, id := range strings.Fields(pre[x.Pick("prelude", len(pre))]) {
						if err := c.buildDeep(ctx, id); err != nil {
							return err
						}
					}
					return nil
				}
				c.body = func(ctx context.Context, c *erun) error { return c.free(ctx, depth, sp.opts) }
			} else {
				c.body = func(ctx context.Context, c *erun) error {
					if err := c.prelude(ctx, pre); err != nil {
						return err
					}
					return c.free(ctx, depth, sp.opts)
				}
			}
			c.exec(context.Background(), e)
			c.settle(before)
		}
	}
}

var memoOps = menuOpts{memo: true, add: true, remove: true, mark: true, del: true, grow: true, save: true, small: true}

func init() {
	all := menuOpts{load: true, add: true, remove: true, mark: true, del: true, grow: true, move: true, save: true, misuse: true, taint: true}
	noload := all
	noload.load = false
	small := menuOpts{load: true, add: true, remove: true, mark: true, del: true, grow: true, move: true, save: true, small: true}
	add(&explore.Property{
		ID: "C04", Title: "storage equals the aggregates after a command",
		Rule:        "every program of up to the stated number of operations over aggregates of three levels (18 stored entities, new ones with and without IDs); one path is one program; after every save the storage is compared with the aggregates",
		Assumptions: []string{"the executor follows the documented contract (updates the fields that differ between a model and its previous model)", "entities belong to one command run and are marked when changed"},
		Scenarios: []*explore.Scenario{
			{Name: "state-loaded", Doc: "operations on loaded aggregates", Run: scnState(stateSpec{prelude: []string{"r1", "r1r2", "r1r3", "r1+r2", "get"}, depth: 3, thorough: 1, opts: noload}), Thorough: 1},
			{Name: "state-any", Doc: "loads, additions and removals in any order", Run: scnState(stateSpec{depth: 4, thorough: 1, opts: all}), Thorough: 1},
			{Name: "state-deep", Doc: "longer programs over fewer targets", Run: scnState(stateSpec{depth: 5, opts: small})},
			{Name: "state-deep-r1", Doc: "the same with a loaded aggregate", Run: scnState(stateSpec{prelude: []string{"r1"}, depth: 4, thorough: 1, opts: small}), Thorough: 1},
			{Name: "state-loaded-rec", Doc: "the same with recursive delete", Run: scnState(stateSpec{cfg: ecfg{recursive: true, wrapErr: true}, prelude: []string{"r1", "r1r2", "r1r3"}, depth: 3, thorough: 1, opts: noload}), Thorough: 1},
			{Name: "state-cmd", Doc: "build/act commands", Run: scnState(stateSpec{form: "cmd", prelude: []string{"r1", "r1 r2", ""}, depth: 3, thorough: 1, opts: noload}), Thorough: 1},
			{Name: "state-history", Doc: "two commands one after the other", Run: scnState(stateSpec{runs: 2, prelude: []string{"r1r2"}, depth: 2, opts: small})},
			{Name: "state-history-any", Doc: "the same from nothing", Run: scnState(stateSpec{runs: 2, depth: 2, thorough: 1, opts: small}), Thorough: 1},
			{Name: "state-many", Doc: "up to 257 children, six changes", Run: scnStateMany(ecfg{}, manySizes[:23]), Thorough: 1},
			{Name: "state-many-rec", Doc: "the same with recursive delete", Run: scnStateMany(ecfg{recursive: true}, manySizes[:18]), Thorough: 1},
			{Name: "state-each", Doc: "every child kept, changed, detached, moved or replaced, all combinations", Run: scnStateEach(ecfg{}, 1), Thorough: 1},
			{Name: "state-each-rec", Doc: "the same with recursive delete", Run: scnStateEach(ecfg{recursive: true}, 1), Thorough: 1},
			{Name: "state-each-twice", Doc: "the same, again after a save", Run: scnStateEach(ecfg{}, 2), Thorough: 1},
			{Name: "state-alike", Doc: "entities of different types have the same IDs", Run: scnState(stateSpec{cfg: ecfg{alike: true, wrapErr: true}, prelude: []string{"r1r2", "r1r3"}, depth: 3, opts: noload})},
			{Name: "state-alike-rec", Doc: "the same with recursive delete", Run: scnState(stateSpec{cfg: ecfg{alike: true, recursive: true}, prelude: []string{"r1r3"}, depth: 3, opts: noload})},
			{Name: "state-memo", Doc: "stored children of an entity that is not stored", Run: scnState(stateSpec{cfg: ecfg{memo: true, wrapErr: true}, prelude: []string{"r1", "r1r2"}, depth: 3, thorough: 1, opts: memoOps}), Thorough: 1},
			{Name: "state-memo-rec", Doc: "the same with recursive delete", Run: scnState(stateSpec{cfg: ecfg{memo: true, recursive: true}, prelude: []string{"r1", "r1r2"}, depth: 3, thorough: 1, opts: memoOps}), Thorough: 1},
			{Name: "state-shapes", Doc: "children held as an interface, in slices, in maps or by pointer", Run: scnShapes(3, 1), Thorough: 1},
			{Name: "state-direct", Doc: "up to three roots created or deleted at once, in every way; twice", Run: scnDirect},
			{Name: "state-container", Doc: "removing, changing and replacing the roots Act is given", Run: scnContainer},
			{Name: "state-sql-many", Doc: "up to 1025 children through the MySQL executor", Run: scnStateMany(ecfg{sql: true}, manySizes[:30]), Thorough: 1},
			{Name: "state-sql", Doc: "through the MySQL executor: operations on loaded aggregates", Run: scnState(stateSpec{cfg: ecfg{sql: true}, prelude: []string{"r1", "r1r2", "get"}, depth: 3, thorough: 1, opts: noload}), Thorough: 1},
			{Name: "state-sql-any", Doc: "through the MySQL executor: loads, additions and removals in any order", Run: scnState(stateSpec{cfg: ecfg{sql: true}, depth: 4, thorough: 1, opts: small}), Thorough: 1},
			{Name: "state-sql-rec", Doc: "through the MySQL executor: recursive delete", Run: scnState(stateSpec{cfg: ecfg{sql: true, recursive: true}, prelude: []string{"r1r2", "r1r3"}, depth: 3, opts: noload})},
			{Name: "state-sql-cmd", Doc: "through the MySQL executor: build/act commands", Run: scnState(stateSpec{cfg: ecfg{sql: true}, form: "cmd", prelude: []string{"r1 r2"}, depth: 3, thorough: 1, opts: noload}), Thorough: 1},
			{Name: "state-sql-alike", Doc: "through the MySQL executor: entities of different types have the same IDs", Run: scnState(stateSpec{cfg: ecfg{sql: true, alike: true}, prelude: []string{"r1r2", "get"}, depth: 2, thorough: 1, opts: noload}), Thorough: 1},
			{Name: "state-sql-history", Doc: "through the MySQL executor: two commands", Run: scnState(stateSpec{cfg: ecfg{sql: true}, runs: 2, prelude: []string{"r1"}, depth: 2, thorough: 1, opts: small}), Thorough: 1},
		},
	})
}

// scnStateEach gives every child of two loaded roots its own fate, in all
// combinations.
func scnStateEach(cfg ecfg, rounds int) func(x *explore.X) {
	return func(x *explore.X) {
		cfg := cfg
		withSQL(x, cfg, func(w *world.World) {
			h := newEH(x, cfg)
			h.seed()
			h.st.put(row{"Kid", "k7", "r1", 17, 1})
			h.st.put(row{"Kid", "k8", "r1", 18, 1})
			h.attach(w)
			e := h.engine()
			c := &erun{h: h, r: newRef(h), obj: map[string]ddd.IEntity{}}
			kids := []string{"k1", "k2", "k3", "k7", "k4"}
			next := 2
			switch {
			case rounds > 1 && x.Bound() == 0:
				kids = kids[:3]
			case rounds > 1:
				kids, next = kids[:4], 3
			case x.Bound() > 0:
				kids = append(kids, "k8")
			}
			c.body = func(ctx context.Context, c *erun) error {
				if err := c.custom(ctx, "r1", "r2"); err != nil {
					return err
				}
				r1, r2 := c.obj["r1"].(*Root), c.obj["r2"].(*Root)
				for i := 0; i < rounds; i++ {
					if i > 0 {
						if err := c.save(ctx); err != nil {
							return err
						}
						kids = kids[:next]
					}
					for _, n := range kids {
						k := c.obj[n]
						_, p := c.find(n)
						if p == nil {
							continue
						}
						other := r1
						if p == ddd.IEntity(r1) {
							other = r2
						}
						switch x.Pick("fate of "+n, 5) {
						case 1:
							c.mark(k)
						case 2:
							detach(k, p)
						case 3:
							detach(k, p)
							attach(k, other)
						case 4:
							detach(k, p)
							attach(c.newKid("for-"+n+strings.Repeat("'", i), ""), p)
						}
					}
				}
				if x.Pick("new kid", 2) == 1 {
					attach(c.newKid("nk", "", c.newSub("ns", "")), r2)
				}
				if x.Pick("change of r1", 2) == 1 {
					c.mark(r1)
				}
				return nil
			}
			before := h.st.clone()
			c.exec(context.Background(), e)
			c.settle(before)
		})
	}
}

// scnOwnWrites loads everything anew after changes and a save of the same
// command, which then breaks off.
func scnOwnWrites(cfg ecfg, depth int) func(x *explore.X) {
	return func(x *explore.X) {
		cfg := cfg
		withSQL(x, cfg, func(w *world.World) {
			h := newEH(x, cfg)
			h.seed()
			h.attach(w)
			e := h.engine()
			c := &erun{h: h, r: newRef(h), obj: map[string]ddd.IEntity{}}
			opts := menuOpts{load: true, add: true, remove: true, mark: true, del: true, grow: true, move: true}
			c.body = func(ctx context.Context, c *erun) error {
				if err := c.prelude(ctx, []string{"r1r2", "r1", ""}); err != nil {
					return err
				}
				if err := c.free(ctx, depthOf(x, depth, 1), opts); err != nil {
					return err
				}
				if err := c.save(ctx); err != nil || h.bad {
					return err
				}
				for _, id := range []string{"r1", "r2", "r4", "own2", "new1", "new2", "new3"} {
					r := withID(&Root{}, id)
					_, in := c.r.rows["Root/"+id]
					err := c.repo.Get(ctx, r, &r.Kids, &r.Solo)
					switch {
					case !in && !errors.Is(err, ddd.ErrEntityNotFound):
						h.fail("own-writes", "loading %s, which this command removed or never stored, gave: %v", id, err)
					case in && err != nil:
						h.fail("own-writes", "loading %s, which is stored or was stored by this command, gave: %v", id, err)
					case in:
						c.checkLoaded(r, nil, 1, false)
					}
				}
				return ddd.ErrBreak
			}
			before := h.st.clone()
			c.exec(context.Background(), e)
			if h.bad {
				return
			}
			if c.wantsError() == "" && !cfg.noTx && (c.pan != nil || c.res.Error != nil || !c.res.Break) {
				h.fail("own-writes", "the command did not break: %v %v", c.pan, c.resErr())
			}
			if d := diffRows(h.st.rows, before.rows); d != "" && !cfg.noTx {
				h.fail("load-writes", "the broken command changed storage: %s", d)
			}
			h.sqlSame()
			x.StepStr(fmt.Sprint(len(c.r.rows)))
		})
	}
}
