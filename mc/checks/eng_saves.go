package checks

import (
	"context"
	"fmt"
	"time"

	ddd "github.com/bytedance/dddfirework"

	"verif/mc/explore"
	"verif/mc/world"
)

// scnSaves runs one command that saves many times in the middle, with a small
// change, always of the same kind, before each save and after the last one.
func scnSaves(cfg ecfg, form, what string, sizes []int) func(x *explore.X) {
	return func(x *explore.X) {
		cfg := cfg
		withSQL(x, cfg, func(w *world.World) {
			n := sizes[x.Pick("saves", len(sizes))]
			kind := x.Pick("change", 9)
			if what == "dry" {
				cfg.dry, cfg.dryPerRun = true, x.Pick("per run", 2) == 1
			} else {
				switch x.Pick("variant", 3) {
				case 1:
					cfg.recursive = true
				case 2:
					cfg.noTx = true
				}
			}
			evs := what == "dry" || what == "events" || what == "result" && x.Pick("events", 2) == 1
			cfg.bus, cfg.persist = "tx", evs && x.Pick("event store", 2) == 1
			if evs {
				cfg.bus = []string{"tx", "plain"}[x.Pick("bus", 2)]
			}
			h := newEH(x, cfg)
			h.seed()
			h.attach(w)
			h.tick = time.Millisecond
			e := h.engine()
			c := &erun{h: h, r: newRef(h), form: form, obj: map[string]ddd.IEntity{}}
			load := func(ctx context.Context, c *erun) error {
				if form == "cmd" {
					return c.buildDeep(ctx, "r1")
				}
				return c.custom(ctx, "r1", "r2")
			}
			if form == "cmd" {
				c.load = load
			}
			c.body = func(ctx context.Context, c *erun) error {
				if form != "cmd" {
					if err := load(ctx, c); err != nil {
						return err
					}
				}
				for i := 0; i <= n; i++ {
					c.round(i, kind)
					if evs {
						for _, l := range []string{"r1", "k1", fmt.Sprint("z", i)} {
							if e := c.obj[l]; e != nil {
								h.raise(e, fmt.Sprintf("e%d-%s", len(h.raised)+1, l))
							}
						}
					}
					if i < n {
						if err := c.save(ctx); err != nil {
							return err
						}
					}
					if h.bad {
						break
					}
				}
				return nil
			}
			before := h.st.clone()
			c.exec(context.Background(), e)
			c.outcome(before)
			if !h.bad && (c.err != nil || c.res.Error != nil) {
				h.fail("unexpected-error", "the command failed: %v", c.res.Error)
			}
			if h.bad || !c.ok() {
				return
			}
			if what == "dry" {
				c.r.dryRun(c.final)
				c.quiet(before)
			} else {
				c.stored()
			}
			switch what {
			case "events":
				c.checkSent(0, h.owner)
			case "hooks", "dry":
				c.checkHooks()
			case "result":
				c.checkResult()
			}
			x.StepStr(h.st.String())
			x.Outcome("%d/%d", len(h.raised), len(c.r.hooks))
		})
	}
}

// round is one of many changes of the same kind.
func (c *erun) round(i, kind int) {
	r1, r2 := c.root("r1"), c.root("r2")
	z := fmt.Sprint("z", i)
	last, lastParent := ddd.IEntity(nil), ddd.IEntity(nil)
	if i > 0 {
		last, lastParent = c.find(fmt.Sprint("z", i-1))
	}
	other := func(e, p, a, b ddd.IEntity) {
		detach(e, p)
		if p == a {
			attach(e, b)
		} else {
			attach(e, a)
		}
	}
	switch kind {
	case 0: // the same entity changes again and again
		k, _ := c.find("k1")
		c.mark(k)
	case 1: // children come, the previous one goes
		attach(c.newKid(z, "", c.newSub(z+"s", "")), r1)
		if last != nil {
			detach(last, lastParent)
		}
	case 2: // children come and stay
		attach(c.newKid(z, ""), r1)
	case 3: // roots come and stay
		c.add(c.newRoot(z, "", c.newKid(z+"k", "")))
	case 4: // roots come, the previous one goes
		c.add(c.newRoot(z, "", c.newKid(z+"k", "")))
		if i > 0 {
			if e := c.obj[fmt.Sprint("z", i-1)]; c.r.has(e) {
				c.remove(e)
			}
		}
	case 5: // a child moves to and fro
		s, p := c.find("s1")
		a, _ := c.find("k1")
		b, _ := c.find("k2")
		if i%2 == 0 {
			c.mark(s)
		}
		other(s, p, a, b)
	case 6: // a subtree moves to and fro
		if r2 == nil {
			c.mark(r1)
			return
		}
		k, p := c.find("k1")
		other(k, p, r1, r2)
	case 7: // a new child moves down and on
		k1, _ := c.find("k1")
		if i == 0 {
			attach(c.newSub("y", ""), k1)
			return
		}
		y, p := c.find("y")
		if i%3 == 0 {
			c.mark(y)
			return
		}
		k2, _ := c.find("k2")
		other(y, p, k1, k2)
	case 8: // nothing, every third time a change
		if i%3 == 2 {
			c.mark(r1)
		}
	}
}

var saveSizes = []int{2, 3, 4, 5, 8, 9, 10, 11, 16, 17, 33, 65, 101, 130}

func init() {
	for _, s := range []struct{ id, name, what string }{{"C04", "state", "state"}, {"C07", "dry", "dry"}, {"C08", "events", "events"}, {"C10", "hooks", "hooks"}, {"C25", "result", "result"}} {
		for _, form := range []string{"main", "cmd"} {
			extend(s.id, &explore.Scenario{Name: s.name + "-saves-" + form, Doc: "a command that saves up to 130 times, nine kinds of changes in between", Run: scnSaves(ecfg{}, form, s.what, saveSizes), Quick: 0, Thorough: 0})
		}
	}
	extend("C04", &explore.Scenario{Name: "state-saves-sql", Doc: "the same through the MySQL executor", Run: scnSaves(ecfg{sql: true}, "main", "state", []int{2, 5, 11, 33}), Quick: 0, Thorough: 0})
}
