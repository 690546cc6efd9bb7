package checks

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	ddd "github.com/bytedance/dddfirework"

	"verif/mc/explore"
	"verif/mc/world"
)

// larg is a way of asking for children.
type larg struct {
	name   string
	target string // arguments with the same target are not combined
	bad    bool   // an invalid argument
	make   func(l *loading) interface{}
	// want lists the acceptable outcomes, as what() shows them
	want func(l *loading) []string
	what func(l *loading) string
}

// loading is one load: the root and everything handed over for its children.
type loading struct {
	h    *eh
	root *Root
	rows map[string]row
	solo *Solo
	kid  *Kid
	kids []*Kid
	subs []*Sub
	tags []*Tag
	memo *Memo
	any  ddd.IEntity
	anys []ddd.IEntity
}

func showRow(r row) string { return fmt.Sprintf("%s/%s a%d b%d", r.typ, r.id, r.a, r.b) }

func showEnt(e ddd.IEntity) string {
	c := e.(cored).base()
	return fmt.Sprintf("%s/%s a%d b%d", typeName(e), e.GetID(), c.A, c.B)
}

// stored lists what is stored of a type under the root, "" where nothing is.
func (l *loading) stored(typ, id string) []string {
	var w []string
	for _, r := range l.rows {
		if r.typ == typ && r.parent == l.root.GetID() && (id == "" || id == r.id) {
			w = append(w, showRow(r))
		}
	}
	sort.Strings(w)
	return w
}

func (l *loading) one(typ, id, none string) []string {
	if w := l.stored(typ, id); len(w) > 0 {
		return w
	}
	return []string{none}
}

func (l *loading) all(typ string) []string { return []string{strings.Join(l.stored(typ, ""), ", ")} }

func showList(n int, at func(i int) ddd.IEntity) string {
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, showEnt(at(i)))
	}
	sort.Strings(w)
	return strings.Join(w, ", ")
}

func (l *loading) showSolo() string {
	if l.root.Solo == nil {
		return "nil"
	}
	return showEnt(l.root.Solo)
}

func (l *loading) showKid() string {
	if l.kid == nil {
		return "nil"
	}
	return showEnt(l.kid)
}

func withID[T ddd.IEntity](e T, id string) T { e.SetID(id); return e }

func largs() []larg {
	var l []larg
	solo := func(name, id string, preset bool) {
		l = append(l, larg{name: name, target: "root.Solo", make: func(l *loading) interface{} {
			if preset {
				l.root.Solo = withID(&Solo{}, id)
			}
			return &l.root.Solo
		}, want: func(l *loading) []string { return l.one("Solo", id, "nil") }, what: (*loading).showSolo})
	}
	solo("&nil", "", false)
	solo("&o1", "o1", true)
	solo("&o2 of another root", "o2", true)
	solo("&new", "", true)
	soloP := func(name, id string) {
		l = append(l, larg{name: name, target: "solo", make: func(l *loading) interface{} {
			l.solo = withID(&Solo{}, id)
			return l.solo
		}, want: func(l *loading) []string { return l.one("Solo", id, "Solo/"+id+" a0 b0") }, what: func(l *loading) string { return showEnt(l.solo) }})
	}
	soloP("o1", "o1")
	soloP("o2 of another root", "o2")
	soloP("new", "")
	kid := func(name, id string, preset bool) {
		l = append(l, larg{name: name, target: "kid", make: func(l *loading) interface{} {
			if preset {
				l.kid = withID(&Kid{}, id)
			}
			return &l.kid
		}, want: func(l *loading) []string { return l.one("Kid", id, "nil") }, what: (*loading).showKid})
	}
	kid("&k2", "k2", true)
	kid("&kid", "", false)
	l = append(l,
		larg{name: "&kids", target: "root.Kids", make: func(l *loading) interface{} { return &l.root.Kids },
			want: func(l *loading) []string { return l.all("Kid") },
			what: func(l *loading) string {
				return showList(len(l.root.Kids), func(i int) ddd.IEntity { return l.root.Kids[i] })
			}},
		larg{name: "&kids{}", target: "kids", make: func(l *loading) interface{} { l.kids = make([]*Kid, 0, 4); return &l.kids },
			want: func(l *loading) []string { return l.all("Kid") },
			what: func(l *loading) string {
				return showList(len(l.kids), func(i int) ddd.IEntity { return l.kids[i] })
			}},
		larg{name: "&subs", target: "subs", make: func(l *loading) interface{} { return &l.subs },
			want: func(l *loading) []string { return l.all("Sub") },
			what: func(l *loading) string {
				return showList(len(l.subs), func(i int) ddd.IEntity { return l.subs[i] })
			}},
		larg{name: "&tags", target: "tags", make: func(l *loading) interface{} { return &l.tags },
			want: func(l *loading) []string { return l.all("Tag") },
			what: func(l *loading) string {
				return showList(len(l.tags), func(i int) ddd.IEntity { return l.tags[i] })
			}},
	)
	bad := func(name string, f func(l *loading) interface{}) {
		l = append(l, larg{name: name, target: name, bad: true, make: f})
	}
	bad("struct", func(l *loading) interface{} { return 7 })
	bad("slice", func(l *loading) interface{} { return []*Kid{} })
	bad("&int", func(l *loading) interface{} { return new(int) })
	bad("&[]int", func(l *loading) interface{} { return &[]int{} })
	bad("&[]Kid", func(l *loading) interface{} { return &[]Kid{} })
	bad("&map", func(l *loading) interface{} { return &l.root.Tags })
	bad("&IEntity", func(l *loading) interface{} { return &l.any })
	bad("&[]IEntity", func(l *loading) interface{} { return &l.anys })
	bad("nil", func(l *loading) interface{} { return nil })
	bad("nil entity", func(l *loading) interface{} { return (*Solo)(nil) })
	bad("nil pointer", func(l *loading) interface{} { return (**Solo)(nil) })
	bad("nil list", func(l *loading) interface{} { return (*[]*Kid)(nil) })
	bad("unknown type", func(l *loading) interface{} { return &l.memo })
	bad("list of unknown type", func(l *loading) interface{} { return &[]*Memo{} })
	return l
}

// seedLoads picks what is stored.
func (h *eh) seedLoads() {
	x := h.x
	if x.Pick("root stored", 2) == 0 {
		h.st.put(row{"Root", "r1", "", 1, 2})
	}
	for i := x.Pick("kids", 3); i > 0; i-- {
		h.st.put(row{"Kid", fmt.Sprint("k", i), "r1", 10 + i, 0})
	}
	if x.Pick("solo", 2) == 1 {
		h.st.put(row{"Solo", "o1", "r1", 0, 31})
	}
	if x.Pick("others", 2) == 1 {
		for _, r := range []row{
			{"Root", "r2", "", 1, 2}, {"Alt", "r1", "", 7, 7}, {"Kid", "r1", "r2", 11, 0}, {"Kid", "k9", "r2", 11, 0}, {"Solo", "o2", "r2", 0, 31},
			{"Solo", "k1", "r2", 9, 9}, {"Sub", "o1", "r1", 3, 3}, {"Sub", "s2", "k1", 4, 4}, {"Tag", "t1", "r1", 5, 5}, {"Tag", "r1", "r2", 6, 6}, {"Root", "k1", "", 8, 8},
		} {
			h.st.put(r)
		}
	}
}

func scnLoad(cfg ecfg, n int, form string) func(x *explore.X) {
	return func(x *explore.X) {
		cfg := cfg
		withSQL(x, cfg, func(w *world.World) {
			h := newEH(x, cfg)
			h.seedLoads()
			h.attach(w)
			e := h.engine()
			l := &loading{h: h, root: withID(&Root{}, "r1"), rows: h.st.clone().rows}
			var as []larg
			var args []interface{}
			for len(as) < depthOf(x, n, 1) {
				menu := []larg{{name: "enough"}}
			next:
				for _, a := range largs() {
					for _, o := range as {
						if a.target == o.target {
							continue next
						}
					}
					menu = append(menu, a)
				}
				c := x.Pick("argument", len(menu))
				if c == 0 {
					break
				}
				if x.Tracing {
					x.Tracef("argument %s", menu[c].name)
				}
				as = append(as, menu[c])
				args = append(args, menu[c].make(l))
			}
			c := &erun{h: h, r: newRef(h), form: form, obj: map[string]ddd.IEntity{}}
			do := func(ctx context.Context) error {
				err := l.load(ctx, c, as, args)
				if len(h.inj) > 0 {
					return err
				}
				if err != nil && c.repo != nil && !h.bad {
					// the root is not part of the run: changes to it are not saved, and loading it again works
					l.root.A = 99
					l.root.Dirty()
					if err := c.repo.Save(ctx); err != nil {
						h.fail("save-after-load", "saving after a load that failed: %v", err)
					}
					l.root.A, l.root.B = 0, 0
					l.root.UnDirty()
					if _, in := l.rows["Root/r1"]; in {
						return l.load(ctx, c, nil, nil)
					}
				}
				return nil
			}
			if form == "cmd" {
				c.load = func(ctx context.Context, c *erun) error { return do(ctx) }
				c.body = func(ctx context.Context, c *erun) error { return nil }
			} else {
				c.body = func(ctx context.Context, c *erun) error {
					if err := do(ctx); err != nil {
						return err
					}
					return nil
				}
			}
			before := h.st.clone()
			c.exec(context.Background(), e)
			if h.bad {
				return
			}
			if c.pan != nil {
				h.fail("load-panic", "loading panicked: %v", c.pan)
				return
			}
			if len(h.inj) == 0 && c.res.Error != nil {
				h.fail("unexpected-error", "the command failed: %v", c.res.Error)
			}
			if d := diffRows(h.st.rows, before.rows); d != "" {
				h.fail("load-writes", "loading changed storage: %s", d)
			}
			h.sqlSame()
			x.Outcome("%d arguments", len(as))
		})
	}
}

// load loads the root with the arguments and checks what came out.
func (l *loading) load(ctx context.Context, c *erun, as []larg, args []interface{}) error {
	h := l.h
	var err error
	if c.repo != nil {
		err = c.repo.Get(ctx, l.root, args...)
	} else {
		err = c.build.Build(ctx, l.root, args...)
	}
	if h.bad {
		return err
	}
	h.x.StepStr(fmt.Sprint(err))
	if len(h.inj) > 0 {
		if err == nil || !errors.Is(err, h.inj[0]) {
			h.fail("load-error", "a load reported %v although: %v", err, h.inj[0])
		}
		return err
	}
	want, in := l.rows["Root/r1"]
	bad := ""
	for _, a := range as {
		if a.bad {
			bad = a.name
		}
	}
	switch {
	case !in && bad == "":
		if !errors.Is(err, ddd.ErrEntityNotFound) {
			h.fail("not-found", "loading a root that is not stored gave: %v", err)
		}
		return err
	case !in || bad != "":
		if err == nil {
			h.fail("load-accepted", "loading with the invalid argument %s succeeded", bad)
		}
		return err
	case err != nil:
		h.fail("load-error", "loading failed: %v", err)
		return err
	}
	if g := showEnt(l.root); g != showRow(want) {
		h.fail("wrong-load", "the root was loaded as %s instead of %s", g, showRow(want))
	}
	asked := map[string]bool{}
	for _, a := range as {
		asked[a.target] = true
		g, ok := a.what(l), false
		for _, w := range a.want(l) {
			ok = ok || g == w
		}
		if !ok {
			h.fail("wrong-load", "argument %s was loaded as [%s] instead of one of %q", a.name, g, a.want(l))
		}
	}
	if len(as) > 0 && (!asked["root.Kids"] && l.root.Kids != nil || !asked["root.Solo"] && l.root.Solo != nil || l.root.Tags != nil) {
		h.fail("wrong-load", "children that were not asked for were loaded")
	}
	return nil
}

func init() {
	q := func(what string) bool { return what == "query" || what == "entity2model" || what == "model2entity" }
	small := menuOpts{load: true, add: true, mark: true, save: true, remove: true, small: true}
	add(&explore.Property{
		ID: "C05", Title: "loads return exactly what is stored",
		Rule:        "24 storage contents x all combinations of up to the stated number of child arguments (29 kinds: nil, preset, by entity, lists, 14 invalid ones), through repository and builder, in-memory and MySQL executor; programs mixing loads with changes and saves; every query and conversion failing",
		Assumptions: []string{"the converter fills query models with IDs only", "lists handed over are empty", "the modelled MySQL compares strings exactly"},
		Scenarios: []*explore.Scenario{
			{Name: "load-get", Doc: "Repository.Get", Run: scnLoad(ecfg{}, 2, "fn"), Thorough: 1},
			{Name: "load-build", Doc: "DomainBuilder.Build", Run: scnLoad(ecfg{}, 2, "cmd"), Thorough: 1},
			{Name: "load-notx", Doc: "without transactions", Run: scnLoad(ecfg{noTx: true, wrapErr: true}, 1, "main"), Thorough: 1},
			{Name: "load-sql", Doc: "Repository.Get through the MySQL executor", Run: scnLoad(ecfg{sql: true}, 2, "fn"), Thorough: 1},
			{Name: "load-sql-build", Doc: "DomainBuilder.Build through the MySQL executor", Run: scnLoad(ecfg{sql: true}, 1, "cmd"), Thorough: 1},
			{Name: "load-faults", Doc: "queries and conversions fail", Run: func(x *explore.X) {
				scnLoad(ecfg{faults: true, faultAt: q}, 1, []string{"fn", "cmd"}[x.Pick("form", 2)])(x)
			}, Quick: 1, Thorough: 2},
			{Name: "load-many", Doc: "up to 2001 children", Run: scnLoadMany(ecfg{}, manySizes)},
			{Name: "load-sql-many", Doc: "the same through the MySQL executor", Run: scnLoadMany(ecfg{sql: true}, manySizes)},
			{Name: "load-state", Doc: "loads between changes and saves", Run: scnState(stateSpec{depth: 5, thorough: 1, opts: small}), Thorough: 1},
			{Name: "load-own", Doc: "everything is loaded anew after a save of the same command", Run: scnOwnWrites(ecfg{}, 2), Thorough: 1},
			{Name: "load-again", Doc: "loads that must be refused, between changes and saves", Run: scnState(stateSpec{depth: 5, thorough: 1, opts: menuOpts{load: true, again: true, add: true, mark: true, save: true, small: true}}), Thorough: 1},
			{Name: "load-sql-own", Doc: "the same through the MySQL executor", Run: scnOwnWrites(ecfg{sql: true}, 2), Thorough: 1},
			{Name: "load-sql-state", Doc: "the same through the MySQL executor", Run: scnState(stateSpec{cfg: ecfg{sql: true}, depth: 4, thorough: 1, opts: small}), Thorough: 1},
		},
	})
}
