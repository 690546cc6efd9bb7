package checks

import (
	"context"
	"fmt"
	"reflect"

	ddd "github.com/bytedance/dddfirework"

	"verif/mc/explore"
	"verif/mc/world"
)

func actStr(a *ddd.Action) string {
	s := fmt.Sprint("operation ", a.Op)
	for _, m := range a.Models {
		s += fmt.Sprintf(" %s/%s", typOf(m), m.GetID())
	}
	return s
}

// checkResult is the oracle of C25: what the result of a command says.
func (c *erun) checkResult() {
	h := c.h
	if c.pan != nil || h.bad {
		return
	}
	res := c.res
	if res == nil {
		h.fail("no-result", "the command returned no result")
		return
	}
	var done []*ddd.Action
	commitFailed, posts := false, 0
	for _, k := range h.calls[c.start:] {
		if k.run != c {
			continue
		}
		switch k.what {
		case "exec":
			if k.err == nil {
				done = append(done, k.ptr.(*ddd.Action))
			}
		case "commit":
			commitFailed = k.err != nil
		case "post":
			posts++
			if k.ptr != interface{}(res) {
				h.fail("other-result", "the post-save callback was given another result than the caller")
			}
			if k.sum != resultStr(res) {
				h.fail("late-result", "the post-save callback was given %s, the caller %s", k.sum, resultStr(res))
			}
		}
	}
	if res.Error != nil && res.Break {
		h.fail("both", "the result reports both a break and the error %v", res.Error)
	}
	if !c.ok() {
		if commitFailed || h.cfg.noTx {
			return // what took effect is not known, or remains
		}
		if len(res.Actions) > 0 {
			h.fail("actions-of-failed", "the command was rolled back but its result lists %d actions", len(res.Actions))
		}
		return
	}
	if len(done) != len(res.Actions) {
		h.fail("actions", "the storage was given %d actions, the result lists %d", len(done), len(res.Actions))
		return
	}
	for i, a := range res.Actions {
		d := done[i]
		if a == nil || a.Op != d.Op || len(a.Models) != len(d.Models) || !reflect.DeepEqual(a.Models, d.Models) {
			got := "nothing"
			if a != nil {
				got = actStr(a)
			}
			h.fail("actions", "action %d was %s, the result lists %s", i, actStr(d), got)
		}
	}
	if res.Output != c.out() {
		h.fail("output", "the command set the output %v, the result has %v", c.out(), res.Output)
	}
}

// scnResult runs free programs, one after the other on one engine, and checks
// what their results say.
func scnResult(cfg ecfg, form string, runs, depth, extra int) func(x *explore.X) {
	return func(x *explore.X) {
		cfg := cfg
		withSQL(x, cfg, func(w *world.World) {
			switch x.Pick("variant", 4) {
			case 1:
				cfg.recursive = true
			case 2:
				cfg.noTx = true
			case 3:
				cfg.dry, cfg.dryPerRun = true, true
			}
			cfg.bus, cfg.persist = "tx", x.Pick("event store", 2) == 1
			h := newEH(x, cfg)
			h.seed()
			h.attach(w)
			e := h.engine()
			opts := menuOpts{load: true, add: true, remove: true, mark: true, del: true, grow: true, save: true, events: true, small: true}
			for i := 0; i < runs && !h.bad; i++ {
				c := &erun{h: h, name: fmt.Sprint("command ", i), r: newRef(h), form: form, obj: map[string]ddd.IEntity{}}
				if form == "cmd" || form == "cmd-old" {
					c.load = func(ctx context.Context, c *erun) error { return c.buildDeep(ctx, "r1") }
				}
				c.body = func(ctx context.Context, c *erun) error { return c.free(ctx, depthOf(x, depth, extra), opts) }
				c.exec(context.Background(), e)
				c.checkResult()
				if cfg.dry && c.res != nil && len(c.res.Actions) > 0 {
					h.fail("dry-actions", "the result of a dry run lists %d actions", len(c.res.Actions))
				}
			}
			x.StepStr(h.st.String())
			x.Outcome("%d calls", len(h.calls))
		})
	}
}

func init() {
	lists := [][]string{nil, {"a", "b"}}
	check := func(c *erun, _ *store) { c.checkResult() }
	cfgs := func(x *explore.X, c *ecfg) {
		c.bus = []string{"tx", "plain"}[x.Pick("bus", 2)]
		c.persist = x.Pick("event store", 2) == 1
	}
	add(&explore.Property{
		ID: "C25", Title: "the result reports what the command did",
		Rule:        "six representative programs in all forms with every set of output points, every call failing in turn and in pairs; every free program up to the stated length, alone and after another command of the engine, with and without transactions, dry runs included",
		Assumptions: []string{"in-memory executor that follows the documented contract, with snapshot isolation", "what a failing commit leaves is not known, so its result may list the actions"},
		Scenarios: []*explore.Scenario{
			{Name: "result-forms", Doc: "all forms and programs, one or two failures", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, outs: true}, evs: "all", keys: lists, cfgs: cfgs, check: check}), Quick: 1, Thorough: 2},
			{Name: "result-notx", Doc: "without transactions", Run: scnFault(faultSpec{cfg: ecfg{faults: true, hookFaults: true, outs: true, noTx: true}, evs: "all", forms: []string{"main", "cmd"}, cfgs: cfgs, check: check}), Quick: 1, Thorough: 2},
			{Name: "result-free-main", Doc: "free programs, one command", Run: scnResult(ecfg{outs: true}, "main", 1, 4, 1), Thorough: 1},
			{Name: "result-free-cmd", Doc: "free programs, one build/act command", Run: scnResult(ecfg{outs: true}, "cmd", 1, 2, 1), Thorough: 1},
			{Name: "result-twice", Doc: "two commands of one engine", Run: scnResult(ecfg{outs: true}, "main", 2, 2, 1), Thorough: 1},
			{Name: "result-sql", Doc: "through the MySQL executor", Run: scnResult(ecfg{outs: true, sql: true}, "main", 1, 3, 1), Thorough: 1},
		},
	})
}
