package checks

import (
	"context"
	"fmt"

	ddd "github.com/bytedance/dddfirework"
)

type eop struct {
	name string
	do   func() error
}

// menuOpts selects the operations a program may use.
type menuOpts struct {
	load, add, remove, mark, del, grow, move, save, misuse, taint bool
	events                                                        bool
	small                                                         bool // fewer targets
	again                                                         bool // loads that must be refused
	alike                                                         bool // entities of different types have the same IDs
	memo                                                          bool // what lies below an entity that is not stored
}

// menu lists the operations possible in the current state of a command.
func (c *erun) menu(ctx context.Context, o menuOpts) (l []eop) {
	h := c.h
	put := func(name string, f func() error) { l = append(l, eop{name, f}) }
	act := func(name string, f func()) { put(name, func() error { f(); return nil }) }
	inRepo := c.repo != nil
	if o.load && inRepo {
		if c.obj["r1"] == nil {
			put("get r1", func() error { return c.get(ctx, "r1") })
			put("custom r1", func() error { return c.custom(ctx, "r1") })
		}
		if c.obj["r2"] == nil {
			put("get r2", func() error { return c.get(ctx, "r2") })
			if c.obj["r1"] == nil && !o.small {
				put("custom r1 r2", func() error { return c.custom(ctx, "r1", "r2") })
			}
		}
		if c.obj["r3"] == nil && !o.small {
			put("custom r3", func() error { return c.custom(ctx, "r3") })
		}
	}
	if o.again && inRepo {
		refused := func(name string, e ddd.IEntity, load func() error) {
			act(name, func() {
				before := fmt.Sprintf("%s %v", showEnt(e), e.IsDirty())
				if err := load(); err == nil && !h.bad {
					h.fail("load-accepted", "%s succeeded", name)
				}
				if now := fmt.Sprintf("%s %v", showEnt(e), e.IsDirty()); now != before {
					h.fail("load-refused", "%s was refused but changed the entity from %s to %s", name, before, now)
				}
			})
		}
		for _, n := range []string{"r1", "n1"} {
			if r := c.root(n); r != nil && c.r.has(r) {
				refused("get "+n+" again", r, func() error { return c.repo.Get(ctx, r) })
				refused("custom "+n+" again", r, func() error { return c.repo.CustomGet(ctx, func(context.Context, ...ddd.IEntity) {}, r) })
			}
		}
		if _, in := h.st.rows["Kid/k1"]; in {
			if k, _ := c.find("k1"); k != nil {
				refused("get the child k1 as a root", k, func() error { return c.repo.Get(ctx, k) })
			}
		}
		r := &Root{}
		refused("get without an ID", r, func() error { return c.repo.Get(ctx, r, &r.Kids) })
	}
	// first reachable of several labels
	first := func(ls ...string) string {
		for _, x := range ls {
			if e, _ := c.find(x); e != nil {
				return x
			}
		}
		return ""
	}
	if o.add {
		if c.obj["n1"] == nil {
			act("add n1 with kid and sub", func() {
				c.add(c.newRoot("n1", "", c.newKid("nk", "", c.newSub("ns", ""))))
			})
		}
		if c.obj["n2"] == nil && !o.small {
			act("add n2 with own IDs", func() { c.add(c.newRoot("n2", "own2", c.newKid("nk2", "ownk2"))) })
		}
		if c.obj["n3"] == nil && !o.small {
			act("add alt n3", func() {
				a := &Alt{core: core{A: 5}}
				h.name(a, "n3")
				c.obj["n3"] = a
				a.kids = []*Kid{c.newKid("nk3", "", c.newSub("ns3", ""))}
				c.add(a)
			})
		}
	}
	if o.remove {
		for _, n := range []string{"r1", "r2", "n1", "r3"} {
			n := n
			if e := c.obj[n]; e != nil && c.r.has(e) {
				act("remove root "+n, func() { c.remove(e) })
			}
		}
		if inRepo && c.obj["r4"] == nil {
			act("remove r4 unloaded", func() {
				c.remove(c.unloaded(false))
			})
			act("remove r4 unloaded with its kid", func() {
				c.remove(c.unloaded(true))
			})
		}
	}
	if o.mark {
		for _, n := range []string{"r1", "k1", "s1", "o1", "t1", "k4", "nk", "r3", "k5"} {
			n := n
			if e, _ := c.find(n); e != nil && !c.r.dirty[e] && !c.r.tainted[e] {
				if o.small && (n == "o1" || n == "t1" || n == "k4") {
					continue
				}
				act("change "+n, func() { c.mark(e) })
			}
		}
	}
	if o.taint {
		for _, n := range []string{"r1", "k1"} {
			if e, _ := c.find(n); e != nil && !c.r.dirty[e] && !c.r.tainted[e] {
				act("change without mark "+n, func() { c.r.tainted[e] = true; e.(cored).base().A += 1000 })
			}
		}
	}
	if o.del {
		for _, n := range []string{"k1", "s1", "o1", "t1", "nk", "k4", "k5"} {
			n := n
			e, p := c.find(n)
			if e == nil || p == nil || o.small && (n == "k4" || n == "nk") {
				continue
			}
			act("detach "+n, func() { detach(e, p) })
		}
		if r := c.root("r1"); r != nil && len(r.Kids) > 1 {
			act("detach all kids of r1", func() { r.Kids = nil })
		}
	}
	if o.grow {
		for _, n := range []string{"r1", "r2", "n1"} {
			n := n
			if r := c.root(n); r != nil && c.obj["x@"+n] == nil {
				act("new kid with sub on "+n, func() {
					attach(c.newKid("x@"+n, "", c.newSub("xs@"+n, "")), r)
				})
			}
		}
		if r := c.alt("r3"); r != nil && c.obj["x@r3"] == nil {
			act("new kid on r3", func() { attach(c.newKid("x@r3", ""), r) })
		}
		for _, n := range []string{"k1", "nk", "x@r1"} {
			n := n
			if e, _ := c.find(n); e != nil && c.obj["y@"+n] == nil {
				act("new sub on "+n, func() { attach(c.newSub("y@"+n, ""), e) })
			}
		}
		if r := c.root("r1"); r != nil {
			if c.obj["so"] == nil {
				act("new solo on r1", func() { attach(c.newSolo("so"), r) })
			}
			if c.obj["tg"] == nil && !o.small {
				act("new tag on r1", func() { attach(c.newTag("tg"), r) })
			}
			if r.Memo == nil && !o.small {
				act("memo on r1", func() {
					r.Memo = &Memo{}
					h.name(r.Memo, "memo")
					c.obj["memo"] = r.Memo
				})
			}
		}
	}
	if o.memo && o.add && c.obj["mr"] == nil {
		act("add a memo with a sub as a root", func() {
			m := &Memo{Subs: []*Sub{c.newSub("mrs", "")}}
			h.name(m, "mr")
			c.obj["mr"] = m
			c.add(m)
		})
	}
	if o.memo && o.remove {
		if e := c.obj["mr"]; e != nil && c.r.has(e) {
			act("remove the memo root", func() { c.remove(e) })
		}
	}
	if o.memo {
		if r := c.root("r1"); r != nil {
			if r.Memo == nil && c.obj["memo"] == nil {
				act("memo with sub on r1", func() {
					r.Memo = &Memo{Subs: []*Sub{c.newSub("ms", "")}}
					h.name(r.Memo, "memo")
					c.obj["memo"] = r.Memo
				})
			}
			if m := r.Memo; m != nil {
				act("detach memo", func() { r.Memo = nil })
				if c.obj["ms2"] == nil {
					act("new sub on memo", func() { attach(c.newSub("ms2", ""), m) })
				}
				if q := c.root("r2"); q != nil && q.Memo == nil {
					act("move memo to r2", func() { q.Memo, r.Memo = m, nil })
				}
			}
		}
		for _, n := range []string{"s8", "ms", "s1"} {
			e, p := c.find(n)
			if e == nil {
				continue
			}
			if _, in := p.(*Memo); in || n == "s1" {
				if in && !c.r.dirty[e] {
					act("change "+n, func() { c.mark(e) })
				}
				if in {
					act("detach "+n, func() { detach(e, p) })
				}
				for _, t := range []string{"k2", "m-r1", "memo"} {
					if d, _ := c.find(t); d != nil && d != p {
						act("move "+n+" to "+t, func() { detach(e, p); attach(e, d) })
					}
				}
			}
		}
	}
	if o.move {
		dst := func(except ddd.IEntity, names ...string) (string, ddd.IEntity) {
			for _, n := range names {
				if e, _ := c.find(n); e != nil && e != except {
					return n, e
				}
			}
			return "", nil
		}
		mv := func(n string, to ...string) {
			e, p := c.find(n)
			if e == nil {
				// detached entities may be attached again
				e = c.obj[n]
				if e == nil || c.r.gone[e] || c.r.p[e] == nil {
					return
				}
			}
			for _, t := range to {
				if _, d := dst(p, t); d != nil && d != e && !c.r.tainted[e] {
					if under(d, e) {
						continue
					}
					act("move "+n+" to "+t, func() {
						if p != nil {
							detach(e, p)
						} else {
							detach(e, c.r.p[e].parent)
						}
						attach(e, d)
					})
				}
			}
		}
		if o.small {
			mv("k1", first("r2", "n1"), "r1")
			mv("s1", "k2", first("x@r1", "k4", "nk"))
		} else {
			mv("k1", "r1", "r2", "n1", "r3")
			mv("s1", "k1", "k2", "k4", "nk", "x@r1", "k5")
			mv("t1", "r2")
			mv("nk", "r1")
		}
		if r, q := c.root("r1"), c.root("r2"); r != nil && q != nil {
			if len(r.Kids) > 1 && !(c.obj["k1"] != nil && c.r.tainted[c.obj["k1"]]) {
				act("move all kids of r1 to r2", func() {
					for _, k := range append([]*Kid{}, r.Kids...) {
						detach(k, r)
						attach(k, q)
					}
				})
			}
			if r.Solo != nil && q.Solo == nil && !c.r.tainted[r.Solo] {
				act("move solo of r1 to r2", func() { q.Solo, r.Solo = r.Solo, nil })
			}
		}
		if r := c.root("r1"); r != nil && len(r.Kids) > 1 && !o.small {
			act("reverse kids of r1", func() {
				for i, j := 0, len(r.Kids)-1; i < j; i, j = i+1, j-1 {
					r.Kids[i], r.Kids[j] = r.Kids[j], r.Kids[i]
				}
			})
		}
	}
	if o.events {
		for _, n := range []string{"r1", "k1", "s1", "n1", "nk", "x@r1"} {
			n := n
			e := c.obj[n]
			if e == nil {
				continue
			}
			act("event on "+n, func() { h.raise(e, fmt.Sprintf("e%d-%s", len(h.raised)+1, n)) })
		}
	}
	if o.misuse {
		if e := c.obj["n1"]; e != nil && c.r.has(e) {
			act("add n1 again", func() { c.add(e) })
		}
		if e := c.obj["r1"]; e != nil && (c.r.has(e) || inRepo && c.r.p[e] != nil) {
			act("add r1 again", func() { c.add(e) })
		}
		if e := c.obj["r1"]; e != nil && c.r.p[e] != nil && !c.r.has(e) {
			act("remove r1 again", func() { c.remove(e) })
		}
		if !inRepo && c.obj["u"] == nil {
			act("remove an unknown root", func() {
				u := c.newRoot("u", "r4")
				c.remove(u)
			})
		}
		if e := c.obj["r1"]; e != nil && inRepo && c.r.has(e) {
			put("get r1 again", func() error {
				c.r.misuse = "root loaded twice"
				return c.repo.Get(ctx, e)
			})
		}
		if k, p := c.find("k1"); k != nil && c.root("r2") != nil && p != c.obj["r2"] {
			act("k1 also under r2", func() { attach(k, c.obj["r2"]); c.spoiled = true })
		}
		if k, p := c.find("x@r1"); k != nil && c.root("r2") != nil && p != c.obj["r2"] {
			act("new kid also under r2", func() { attach(k, c.obj["r2"]); c.spoiled = true })
		}
	}
	if o.save {
		put("save", func() error { return c.save(ctx) })
	}
	return
}

// under reports whether x lies below e (or is e).
func under(x, e ddd.IEntity) bool {
	if x == e {
		return true
	}
	for _, k := range kidsOf(e) {
		if under(x, k) {
			return true
		}
	}
	return false
}

// free runs a program of up to n operations chosen from the menu.
func (c *erun) free(ctx context.Context, n int, o menuOpts) error {
	last := ""
	for i := 0; i < n; i++ {
		l := c.menu(ctx, o)
		if last == "save" && len(l) > 0 && l[len(l)-1].name == "save" {
			l = l[:len(l)-1]
		}
		k := c.h.x.Pick("operation", len(l)+1)
		if k == 0 {
			break
		}
		if c.h.x.Tracing {
			c.h.x.Tracef("--- %s", l[k-1].name)
		}
		if err := c.h.user("main", c.name); err != nil {
			return err
		}
		if err := l[k-1].do(); err != nil {
			return err
		}
		last = l[k-1].name
		if c.r.misuse != "" || c.spoiled {
			break
		}
	}
	return c.h.user("main", c.name)
}

// unloaded makes the stored root r4 (and its kid) without loading it.
func (c *erun) unloaded(kid bool) *Root {
	r := &Root{core: core{A: 4, B: 4}}
	r.SetID(c.h.idOf("r4"))
	c.h.name(r, "r4")
	c.obj["r4"] = r
	if kid {
		k := c.newKid("k6", "k6")
		k.A, k.B = 16, 4
		r.Kids = []*Kid{k}
	}
	return r
}
