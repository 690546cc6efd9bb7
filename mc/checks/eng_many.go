package checks

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"

	"verif/mc/explore"
	"verif/mc/world"
)

// Sizes around which code that works in chunks, or sorts short lists
// differently, changes its behaviour.
var manySizes = []int{1, 2, 11, 12, 13, 16, 17, 33, 49, 50, 51, 64, 65, 99, 100, 101, 128, 129, 199, 200, 201, 256, 257, 500, 501, 999, 1000, 1001, 1024, 1025, 2001}

func pickSize(x *explore.X, l []int) int { return l[x.Pick("size", len(l))] }

// fewer leaves the sizes up to about 130 for quick runs.
func fewer(x *explore.X, l []int) []int {
	if x.Bound() == 0 && len(l) > 18 {
		return append(append([]int{}, l[:18]...), l[len(l)-1])
	}
	return l
}

// scnStateMany stores a root with many children, then changes, removes, adds
// and replaces many of them in a second command.
func scnStateMany(cfg ecfg, sizes []int) func(x *explore.X) {
	return scnManyKinds(cfg, sizes, 0, 1, 2, 3, 4, 5, 6, 7, 8)
}

func scnManyKinds(cfg ecfg, sizes []int, kinds ...int) func(x *explore.X) {
	return func(x *explore.X) {
		withSQL(x, cfg, func(w *world.World) {
			h := newEH(x, cfg)
			h.seed()
			h.attach(w)
			e := h.engine()
			n := pickSize(x, fewer(x, sizes))
			deep := x.Pick("level", 2) == 1
			gen := x.Pick("ids", 2) == 1
			id := func(i int) string {
				if gen {
					return ""
				}
				return fmt.Sprintf("m%04d", (i*7919)%n)
			}
			if n%7919 == 0 {
				return
			}
			c := &erun{h: h, r: newRef(h), obj: map[string]ddd.IEntity{}}
			c.body = func(ctx context.Context, c *erun) error {
				r := c.newRoot("many", "many")
				if deep {
					k := c.newKid("mk", "mk")
					r.Kids = append(r.Kids, k)
					for i := 0; i < n; i++ {
						k.Subs = append(k.Subs, c.newSub(fmt.Sprint("new", i), id(i)))
					}
				} else {
					for i := 0; i < n; i++ {
						r.Kids = append(r.Kids, c.newKid(fmt.Sprint("new", i), id(i)))
					}
				}
				c.add(r)
				return nil
			}
			before := h.st.clone()
			c.exec(context.Background(), e)
			c.settle(before)
			if h.bad {
				return
			}
			kind := kinds[x.Pick("change", len(kinds))]
			c = &erun{h: h, r: newRef(h), obj: map[string]ddd.IEntity{}}
			c.body = func(ctx context.Context, c *erun) error {
				if err := c.custom(ctx, "many"); err != nil {
					return err
				}
				c.mass(n, kind, deep)
				return nil
			}
			before = h.st.clone()
			c.exec(context.Background(), e)
			c.settle(before)
		})
	}
}

// mass changes many of the n children of the loaded root "many".
func (c *erun) mass(n, kind int, deep bool) {
	r := c.obj["many"].(*Root)
	var l []ddd.IEntity
	for _, k := range r.Kids {
		if !deep {
			l = append(l, k)
		}
		for _, s := range k.Subs {
			l = append(l, s)
		}
	}
	if len(l) != n {
		c.h.fail("wrong-load", "%d of %d children were loaded", len(l), n)
		return
	}
	set := func(l []ddd.IEntity) {
		if deep {
			r.Kids[0].Subs = nil
		} else {
			r.Kids = nil
		}
		for _, e := range l {
			if deep {
				r.Kids[0].Subs = append(r.Kids[0].Subs, e.(*Sub))
			} else {
				r.Kids = append(r.Kids, e.(*Kid))
			}
		}
	}
	fresh := func(i int) ddd.IEntity {
		if deep {
			return c.newSub(fmt.Sprint("late", i), "")
		}
		return c.newKid(fmt.Sprint("late", i), "")
	}
	switch kind {
	case 0: // all changed
		for _, e := range l {
			c.mark(e)
		}
	case 1: // the last one
		c.mark(l[n-1])
	case 2: // all removed
		set(nil)
	case 3: // every second one removed, every third of the others changed
		var keep []ddd.IEntity
		for i, e := range l {
			if i%2 == 1 {
				keep = append(keep, e)
				if i%3 == 0 {
					c.mark(e)
				}
			}
		}
		set(keep)
	case 4: // all replaced
		var keep []ddd.IEntity
		for i := range l {
			keep = append(keep, fresh(i))
		}
		set(keep)
	case 5: // the root removed
		c.remove(r)
	case 6: // one left and changed
		c.mark(l[n/2])
		set(l[n/2 : n/2+1])
	case 7: // one removed, the others changed
		for _, e := range l[1:] {
			c.mark(e)
		}
		set(l[1:])
	case 8: // one left, one added
		set([]ddd.IEntity{fresh(0), l[n-1]})
	}
}

// scnLoadMany loads a root with many children.
func scnLoadMany(cfg ecfg, sizes []int) func(x *explore.X) {
	return func(x *explore.X) {
		withSQL(x, cfg, func(w *world.World) {
			h := newEH(x, cfg)
			n := pickSize(x, sizes)
			h.st.put(row{"Root", "r1", "", 1, 2})
			h.st.put(row{"Root", "r2", "", 3, 4})
			for i := 0; i < n; i++ {
				h.st.put(row{"Kid", fmt.Sprintf("k%04d", (i*7919)%n), "r1", 10 + i, i % 3})
				if i%3 == 0 {
					h.st.put(row{"Kid", fmt.Sprintf("o%04d", i), "r2", 10 + i, 0})
				}
			}
			h.attach(w)
			e := h.engine()
			l := &loading{h: h, root: withID(&Root{}, "r1"), rows: h.st.clone().rows}
			var as []larg
			var args []interface{}
			names := [][]string{{"&kids"}, {"&kids{}"}, {"&o1", "&kids"}, {"&kids", "&subs", "&kids{}"}}
			for _, w := range names[x.Pick("arguments", len(names))] {
				for _, a := range largs() {
					if a.name == w {
						as = append(as, a)
						args = append(args, a.make(l))
					}
				}
			}
			c := &erun{h: h, r: newRef(h), form: []string{"fn", "main"}[x.Pick("form", 2)], obj: map[string]ddd.IEntity{}}
			if c.form == "cmd" {
				c.load = func(ctx context.Context, c *erun) error { return l.load(ctx, c, as, args) }
				c.body = func(ctx context.Context, c *erun) error { return nil }
			} else {
				c.body = func(ctx context.Context, c *erun) error { return l.load(ctx, c, as, args) }
			}
			before := h.st.clone()
			c.exec(context.Background(), e)
			if h.bad {
				return
			}
			if c.pan != nil || c.res.Error != nil {
				h.fail("unexpected-error", "the command failed: %v %v", c.pan, c.res.Error)
			}
			if d := diffRows(h.st.rows, before.rows); d != "" {
				h.fail("load-writes", "loading changed storage: %s", d)
			}
			h.sqlSame()
			x.Outcome("%d children", n)
		})
	}
}

// scnEventsMany raises many events in one command on a clock that stands still
// or moves every few events.
func scnEventsMany(x *explore.X) {
	bubble(x, func() {
		h := newEH(x, ecfg{bus: []string{"plain", "tx"}[x.Pick("bus", 2)], persist: x.Pick("store", 2) == 1})
		h.seed()
		e := h.engine()
		n := pickSize(x, []int{3, 11, 12, 13, 14, 20, 25, 40, 41, 63, 64, 65, 100, 130})
		every := []int{1, 2, 5, 1000}[x.Pick("events per instant", 4)]
		order := x.Pick("order", 4)
		c := &erun{h: h, r: newRef(h), obj: map[string]ddd.IEntity{}}
		c.body = func(ctx context.Context, c *erun) error {
			if err := c.custom(ctx, "r1", "r2"); err != nil {
				return err
			}
			r1, r2 := c.obj["r1"].(*Root), c.obj["r2"].(*Root)
			all := []ddd.IEntity{r1, r2}
			for _, r := range []*Root{r1, r2} {
				for _, k := range r.Kids {
					all = append(all, k)
				}
			}
			for i := 0; i < n; i++ {
				if i%every == 0 {
					time.Sleep(time.Millisecond)
				}
				at := all[i%len(all)]
				switch order {
				case 1:
					at = all[len(all)-1-i%len(all)]
				case 2:
					at = all[(i*i)%len(all)]
				case 3:
					at = all[i*len(all)/n]
				}
				h.raise(at, fmt.Sprint("e", i))
				if order == 2 && i == n/2 {
					if err := c.save(ctx); err != nil {
						return err
					}
				}
			}
			return nil
		}
		before := h.st.clone()
		c.exec(context.Background(), e)
		c.outcome(before)
		if !h.bad && (c.err != nil || c.res.Error != nil) {
			h.fail("unexpected-error", "the command failed: %v", c.res.Error)
		}
		if !h.bad && c.ok() {
			c.stored()
			c.checkSent(0, h.owner)
		}
		x.StepStr(fmt.Sprint(n, every, order))
		x.Outcome("%d", len(h.raised))
	})
}

// scnEventTypes raises events of every send type, some of them alike.
func scnEventTypes(x *explore.X) {
	bubble(x, func() {
		cfg := ecfg{bus: []string{"tx", "plain"}[x.Pick("bus", 2)], persist: x.Pick("event store", 2) == 1, noTx: x.Pick("transactions", 2) == 1}
		types := []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO, ddd.SendTypeTransaction, ddd.SendTypeDelay, "other", ""}
		h := newEH(x, cfg)
		h.seed()
		e := h.engine()
		c := &erun{h: h, r: newRef(h), form: []string{"fn", "main"}[x.Pick("form", 2)], obj: map[string]ddd.IEntity{}}
		if x.Pick("clock", 2) == 1 {
			h.tick = time.Millisecond
		}
		c.body = func(ctx context.Context, c *erun) error {
			if err := c.prelude(ctx, []string{"r1"}); err != nil {
				return err
			}
			for i := 0; i < 3; i++ {
				k := x.Pick("event", 1+2*len(types))
				if k == 0 {
					break
				}
				k--
				name := fmt.Sprint("e", i)
				if k%2 == 1 {
					name = "same"
				}
				at := c.obj["r1"]
				if i == 1 {
					at = c.obj["k1"]
				}
				h.raise(at, name, ddd.WithSendType(types[k/2]))
			}
			return nil
		}
		before := h.st.clone()
		c.exec(context.Background(), e)
		c.outcome(before)
		if !h.bad && c.ok() {
			c.stored()
			c.checkSent(0, h.owner)
			c.checkConfirm()
		} else if !h.bad {
			h.fail("unexpected-error", "the command failed: %v", c.res.Error)
		}
		x.Outcome("%d", len(h.raised))
	})
}

// ---- events of every shape

type rawEvt struct {
	typ, sender string
	body        interface{}
}

func (e *rawEvt) GetType() ddd.EventType       { return ddd.EventType(e.typ) }
func (e *rawEvt) GetSender() string            { return e.sender }
func (e *rawEvt) MarshalJSON() ([]byte, error) { return json.Marshal(e.body) }

// evtBodies are the contents events may have, empty ones among them.
var evtBodies = []interface{}{struct{}{}, nil, "", "x", 0, false, []int{}, map[string]string{}, map[string]interface{}{"id": "", "n": 1 << 60, "s": "<a&b>\u2028é\x00"},
	strings.Repeat("long ", 30000), json.RawMessage(`{ "b":1, "a":2 }`), []interface{}{nil, map[string]int{"z": 1}}}

var evtNames = [][2]string{{"t", "s"}, {"t", ""}, {"", "s"}, {"", ""}, {"t t", " s "}, {strings.Repeat("T", 300), strings.Repeat("S", 300)}, {"ddd_engine", "r1"}, {"T", "é世\n"}}

// scnEventShapes raises one to three events with every content, type and sender.
func scnEventShapes(x *explore.X) {
	bubble(x, func() {
		cfg := ecfg{bus: []string{"tx", "plain"}[x.Pick("bus", 2)], persist: x.Pick("event store", 2) == 1, noTx: x.Pick("transactions", 2) == 1}
		types := []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeTransaction, ddd.SendTypeFIFO}
		h := newEH(x, cfg)
		h.seed()
		e := h.engine()
		c := &erun{h: h, r: newRef(h), form: []string{"fn", "main"}[x.Pick("form", 2)], obj: map[string]ddd.IEntity{}}
		h.tick = time.Millisecond
		k := x.Pick("odd event", 4)
		body, name, st := evtBodies[x.Pick("content", len(evtBodies))], evtNames[x.Pick("names", len(evtNames))], types[x.Pick("send type", len(types))]
		c.body = func(ctx context.Context, c *erun) error {
			if err := c.prelude(ctx, []string{"r1"}); err != nil {
				return err
			}
			for i, l := range []string{"r1", "k1", "r1"} {
				if i == k || k == 3 {
					h.raiseEvt(c.obj[l], &rawEvt{name[0], name[1], body}, ddd.WithSendType(st))
				} else {
					h.raise(c.obj[l], fmt.Sprint("e", i), ddd.WithSendType(types[i%2]))
				}
			}
			return nil
		}
		before := h.st.clone()
		c.exec(context.Background(), e)
		c.outcome(before)
		if !h.bad && c.ok() {
			c.stored()
			c.checkSent(0, h.owner)
			c.checkConfirm()
		} else if !h.bad {
			h.fail("unexpected-error", "the command failed: %v", c.res.Error)
		}
		x.Outcome("%d", len(h.raised))
	})
}
